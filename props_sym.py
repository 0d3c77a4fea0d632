SYMF = ['symbol_map.cc', 'symbol_map.h', 'source_info.h']
P('G01', 'Gcov stream primitives are exact across every buffer boundary',
  'A sequence of words, counters and strings written to a gcov stream is on disk exactly as the format lays it out, at any position relative to the internal buffer, and reading it back returns the same values in the same order, in both string encodings. Absent strings are empty, and reading past the end of a truncated file yields zero values and an error state instead of stale data.',
  ['inputs', 'histories'], 'all values, value kinds, file positions and truncation points',
  'Tests write a handful of small values that never cross the 1024-word buffer boundary.',
  ['gcov.cc', 'gcov.h'], [('gcov_write_words/gcov_read_words/gcov_allocate', 'gcov.cc'), ('gcov_write_string/gcov_read_string', 'gcov.cc')])
P('U01', 'Progress reports aggregate their parts and reach completion exactly once',
  'The progress of a composite task is a percentage that counts finished parts in full weight and the current part in proportion (to within rounding), never goes back while parts advance, and the task is done, at 100, exactly when every part is. Every start or stop notifies every consumer registered so far exactly once, in registration order.',
  ['inputs', 'histories'], 'all progress sequences, weights and registration orders',
  'Tests fix a few weights and one order of updates.',
  ['status_provider.cc', 'status_provider.h', 'status_consumer_registry.cc', 'status_consumer_registry.h'], [('MultiStatusProvider::GetProgress', 'status_provider.cc'), ('StatusConsumerRegistry', 'status_consumer_registry.cc')])
P('U02', 'Lazily evaluated values are computed at most once, from their inputs',
  'A lazily evaluated value runs its computation at the first use and never again, passes it exactly the inputs given at construction, and every later use, also after the evaluator is moved, sees the same result.',
  ['inputs', 'histories'], 'all inputs and evaluation sequences', 'Tests use fixed integers.',
  ['lazy_evaluator.h'], [('LazyEvaluator::Evaluate', 'lazy_evaluator.h')])
P('M01', 'Samples are attributed to exactly the frames of their inline stack',
  'Recording a count for an inline stack adds it to the totals of the outermost function and of every inlined instance along the stack (keyed by call-site offset and callee), and to the count and instruction number of the innermost location, and to nothing else. Entry counts accumulate the same way, and so do the counts of call targets taken from profiles (a sampled one is set); frames are keyed by line offset and discriminator as each data source defines them, and re-recording a location adds up.',
  ['inputs', 'histories'], 'all stacks, lines, discriminators, counts and operation sequences',
  'Tests record a few fixed stacks.', SYMF, [('SymbolMap::AddSourceCount/AddIndirectCallTarget/TraverseInlineStack', 'symbol_map.cc')])
P('M02', 'Merging profiles adds counts point-wise and loses nothing',
  'After merging one profile into another, every function, inlined instance, location, call target, entry count and total of the result is the sum of the two, with entries present on one side only carried over. The merged-in profile is unchanged and independent of the result.',
  ['inputs'], 'all pairs of profiles', 'Tests merge fixed text profiles.', SYMF, [('Symbol::Merge', 'symbol_map.cc'), ('SymbolMap::Merge', 'symbol_map.cc')])
P('M03', 'Compiler-generated suffixes are folded into the original function',
  'The original name of a function is its name with exactly the suffixes the chosen policy covers removed (all, the known ones, or none), and after elision the profile has one entry per original name holding the sum of all its variants. Aliases keep sharing one profile.',
  ['inputs', 'configurations'], 'all names, policies and profile contents', 'Tests cover a few names.', SYMF, [('SymbolMap::GetOriginalName/ElideSuffixesAndMerge', 'symbol_map.cc')])
P('M04', 'Flattening a profile moves inlined samples to standalone functions',
  'A flat profile has no inlined instances: the counts of every instance are added to the standalone profile of its function, and each former call site records the call target with the instance\'s entry count. Selective and hybrid flattening do this exactly for the functions or instances not above the threshold, and limiting nesting depth exactly for instances deeper than the limit; all other samples are unchanged and none are lost.',
  ['inputs'], 'all profiles, thresholds and limits', 'Tests flatten one fixed profile.', SYMF, [('SymbolMap::BuildFlatProfile/BuildHybridProfile/FlattenNestedInlineCallsites', 'symbol_map.cc')])
P('M05', 'Size limits keep the hottest targets and inlined instances',
  'Limiting call targets or inlined instances per location keeps exactly the configured number of hottest ones at every location and nesting level, with their counts unchanged, and removed inlined samples leave all enclosing totals. Sorted target lists are in descending count order with names breaking ties.',
  ['inputs', 'configurations'], 'all counts and limits', 'Tests cover one order of counts.', SYMF, [('SymbolMap::TrimCallTargets/throttleInlineInstancesAtSameLocation', 'symbol_map.cc'), ('GetSortedTargetCountPairs', 'symbol_map.cc')])
P('M06', 'Function entry counts come from the earliest location',
  'The entry count of a function or inlined instance without a recorded one is the count of its earliest plausible location, looking into the inlined call when that comes first. Estimating it changes no other count, and removing a function by its exact name clears only that profile.',
  ['inputs'], 'all locations, nesting and counts', 'Tests cover a single layout.', SYMF, [('Symbol::EntryCount/EstimateHeadCount', 'symbol_map.cc')])
P('M08', 'Working-set summary reports how many instructions cover each share',
  'Each of the 128 working-set entries holds the largest number of hottest instructions whose execution counts fit in that share of the total, and the count of the next hottest instruction. Samples of merged suffix variants are counted once.',
  ['inputs', 'histories'], 'all count distributions', 'No test compares the summary.', SYMF, [('SymbolMap::ComputeWorkingSets', 'symbol_map.cc')])
P('M09', 'Inclusive counts propagate over any call graph, recursion included',
  'The inclusive count of a function is its own samples plus, for every call it makes, its share of the callee\'s inclusive count; functions that call each other recursively share one inclusive count. The computation terminates and gives this result for every call graph, including cyclic ones and calls to unknown functions.',
  ['inputs'], 'all call graphs and counts', 'Tests have no cyclic call graph.', SYMF, [('SymbolMap::ComputeTotalCountIncl', 'symbol_map.cc'), ('CallGraph::StrongConnect', 'symbol_map.cc')])
P('D09', 'Separate debug files are found by identifier and symbolize like embedded ones',
  'When a unit of the binary only names a separate debug file, its functions and inlined calls come from the package file if that lists the unit\'s identifier, else from the named file, and only if the identifier found there matches; addresses then symbolize exactly as if the information were embedded. A missing, unreadable or mismatching file leaves that unit without functions and affects no other unit.',
  ['inputs', 'configurations'], 'all identifiers, extents, package layouts and queries',
  'No test has a binary with separate debug files.', ['util/symbolize/dwarf2reader.cc', 'util/symbolize/addr2line_inlinestack.cc'], [('CompilationUnit::ProcessSplitDwarf', 'util/symbolize/dwarf2reader.cc'), ('DwpReader::ReadDebugSectionsForCU/LookupCU/LookupCUv2', 'util/symbolize/dwarf2reader.cc'), ('InlineStackHandler::StartSplitCompilationUnit/CleanupUnusedSubprograms', 'util/symbolize/addr2line_inlinestack.cc')])
P('D10', 'Two-level line tables are decoded into their logical and actual rows',
  'A two-level line table yields its directories, files and subprograms, every logical row with its source position, subprogram and inlining context, and every actual row with its address and the position of exactly the logical row it names; rows that name no logical row are not reported. Entering and leaving an inlined call restores the caller\'s position.',
  ['inputs'], 'all header variants and programs of both levels',
  'No test has a two-level line table.', ['util/symbolize/dwarf2reader.cc', 'util/symbolize/line_state_machine.h'], [('LineInfo::ReadLines/ProcessOneOpcode/ReadHeader', 'util/symbolize/dwarf2reader.cc')])
P('D08', 'The ELF container is read exactly: sections, symbols, segments, build id',
  'For 32- and 64-bit ELF files, every section is found by name (compressed debug names standing for the plain ones, last match first in .dwp packages), index and type with its header and contents, every named symbol of the static and dynamic tables is visited once with its fields subject to the requested filter, and program headers, link address and build id are those of the file. Files that are not ELF yield nothing.',
  ['inputs', 'configurations'], 'all section, symbol, segment and note contents, both word sizes', 'The stable test opens one 64-bit binary and checks nothing about it.',
  [SYM + 'elf_reader.cc', SYM + 'elf_reader.h'], [('ElfReaderImpl', SYM + 'elf_reader.cc')])
P('M07', 'Every address maps to the function that covers it, and offsets to addresses',
  'Looking up an address finds the function symbol whose extent covers it (nearest start, first symbol at a start, later ones being aliases) and nothing otherwise; only sized functions, cold and part fragments count as functions, never PLT stubs. File offsets and link-time addresses of executable segments translate to each other exactly, also for kernels and modules, and the functions reported as sampled are those with samples.',
  ['inputs', 'configurations'], 'all symbol tables, segment layouts and addresses', 'Tests read one binary.', SYMF, [('SymbolMap::BuildSymbolMap/GetSymbolInfoByAddr/get_static_vaddr', 'symbol_map.cc')])
P('D07', 'Line rows and function entries become an exact address-to-source map',
  'After reading a unit\'s rows, an address belongs to the nearest row at or below it, with that row\'s line, discriminator, file and directory (file and directory 0 included), or to nothing past the end of a sequence; rows outside the sampled functions or below the loaded image are not recorded. Two-level rows keep the inlining context chain and functions of their logical lines across units, and every function entry is recorded with its name, extent, line and file.',
  ['inputs', 'histories'], 'all rows, tables, filters and query addresses', 'No test looks at the line map.',
  [SYM + 'functioninfo.cc', SYM + 'functioninfo.h'], [('CULineInfoHandler', SYM + 'functioninfo.cc'), ('AddressToLineMap', SYM + 'functioninfo.h'), ('CUFunctionInfoHandler', SYM + 'functioninfo.cc')])
P('P08', 'Layout options are exactly what was set, defaults elsewhere',
  'Options built step by step contain precisely the values that were set, the last one winning, lists in the order of their additions, and the documented defaults for everything else. A builder started from existing options keeps them.',
  ['inputs', 'configurations'], 'all options, values and orders', 'No test builds options beyond a few fields.',
  ['llvm_propeller_options_builder.cc', 'llvm_propeller_options_builder.h', 'llvm_propeller_options.proto'], [('PropellerOptionsBuilder', 'llvm_propeller_options_builder.cc')])
P('S06', 'Branch aggregation keeps every count and infers valid fall-throughs',
  'Aggregated branch data contains every taken branch with its count and exactly the addresses that occur in it, reads its source once and passes errors on. Fall-throughs from LBR data are kept as they are; those inferred from branch frequencies follow the flow (what enters a block, less what branches out, or the count known for its last branch) to the next sampled block, only along blocks that fall through.',
  ['inputs', 'configurations'], 'all branch counts, addresses and block layouts', 'Tests use a few fixed branches.',
  ['branch_aggregation.cc', 'branch_aggregation.h', 'lbr_branch_aggregator.cc', 'frequencies_branch_aggregator.cc', 'lbr_aggregation.h', 'branch_frequencies.h'],
  [('BranchAggregation::GetUniqueAddresses', 'branch_aggregation.cc'), ('FrequenciesBranchAggregator::InferFallthroughs', 'frequencies_branch_aggregator.cc')])
P('P04', 'Branch addresses map to the right basic block',
  'A branch target address maps to the first block starting there (in the function that starts there, if one does), a branch source to the block with code at that address, and an address outside every selected block to none. A path falls through exactly when it stays in one function, goes forward and every block before its end falls through; calls land on function entries and returns anywhere else that cannot be a jump.',
  ['inputs'], 'all block layouts (empty blocks and gaps included) and addresses', 'Tests read a few binaries.',
  ['llvm_propeller_binary_address_mapper.cc', 'llvm_propeller_binary_address_mapper.h'], [('BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress/CanFallThrough', 'llvm_propeller_binary_address_mapper.cc')])
P('G04', 'The LLVM profile holds exactly the collected samples',
  'Converting a profile to LLVM form keeps every function above the emission threshold, and no other, with its entry count, total, and for every location its samples and call targets with their counts. Inlined calls are nested at their call location under the callee\'s name with their own totals; locations differ only in their 16-bit line offset and their discriminator.',
  ['inputs'], 'all locations, counts, nestings and thresholds', 'Tests convert one small profile.',
  ['llvm_profile_writer.cc', 'llvm_profile_writer.h', 'profile_writer.h'], [('LLVMProfileBuilder', 'llvm_profile_writer.cc'), ('StringTableUpdater', 'profile_writer.h')])
P('G05', 'The symbol list covers the requested share of the code',
  'Given a share of the code size, the symbol list holds the largest functions that together make up that share, all functions of equal size included, under their original names; it is empty when the share is zero or the largest function alone exceeds it. Shares outside 0 to 1 are refused.',
  ['inputs', 'configurations'], 'all sizes and shares', 'Tests use one list of sizes.',
  ['profile_symbol_list.cc', 'profile_symbol_list.h'], [('fillProfileSymbolList', 'profile_symbol_list.cc')])
P('S04', 'Source locations encode and decode without loss',
  'A location is keyed by its line relative to the function and its discriminator: the raw one, or the base discriminator when the encoding mode asks for it. Line (16 bits) and discriminator decode back exactly, the compressed form keeps 16 bits of each, and the duplication factor is the one encoded, 1 if none.',
  ['inputs', 'configurations'], 'all lines, discriminators and modes', 'Tests check a few fixed discriminators.',
  ['source_info.h', 'source_info.cc'], [('SourceInfo::Offset/DuplicationFactor', 'source_info.h')])
P('S05', 'Every instruction of a function is counted at its source location',
  'For each address of a function, and only those, the source stack is looked up once and remembered; each address with a known stack adds one instruction and no samples at its location, creating the inlined calls on the way. Looking up an address outside the function finds nothing.',
  ['inputs'], 'all functions, stacks and addresses', 'Tests use a binary with a handful of instructions.',
  ['instruction_map.cc', 'instruction_map.h'], [('InstructionMap::BuildPerFunctionInstructionMap/lookup', 'instruction_map.cc')])
P('S01', 'Text sample files keep every sample, and samples add up',
  'Samples written to a text file are the samples read back from it; reading another file or merging another set of samples adds its counts to the ones already there. Files that are missing or not in the format are refused, and the totals are those of the ranges (times their length) or, if there are none, of the addresses.',
  ['inputs', 'histories'], 'all samples and well- or ill-formed files', 'Tests read one file.',
  ['sample_reader.cc', 'sample_reader.h'], [('TextSampleReaderWriter::Append/Write/Merge', 'sample_reader.cc'), ('SampleReader::ReadAndSetTotalCount', 'sample_reader.cc')])
P('S02', 'Perf samples of the profiled binary become exact address and branch counts',
  'Every sample counts its address, every branch record its branch, and every two consecutive records the straight-line range between them, each only inside the profiled binary (by build id, kernel aliases included, else by name). Mispredicted wrong-path records, a duplicated top record, and negative or oversized ranges are dropped, and the first time stamp of an address is kept.',
  ['inputs', 'histories'], 'all branch stacks, addresses, speculation flags and object names', 'Tests read one perf file.',
  ['sample_reader.cc', 'sample_reader.h'], [('PerfDataSampleReader::Append/MatchBinary/GetFileNameFromBuildID', 'sample_reader.cc')])
P('S03', 'A binary\'s samples become a profile of exactly its sampled functions',
  'The profile holds exactly the functions whose samples, hot and cold parts together, exceed the threshold. Each instruction counts once, at its source location, with the sum of the ranges over it (or its own samples); taken branches to the start of a kept function count as entries of it and as calls at the branch\'s location, and cache-miss samples as targets of theirs.',
  ['inputs', 'configurations'], 'all ranges, branches, samples and counts', 'Tests compare one binary\'s profile.',
  ['profile.cc', 'profile.h', 'symbol_map.cc'], [('Profile::ComputeProfile', 'profile.cc'), ('Profile::ProcessPerFunctionProfile', 'profile.cc')])
P('S07', 'Execution ranges inferred from branch counts follow the flow of execution',
  'Ranges built from branch frequencies start at branch targets or after not-taken branches, end at the next branch or the next target, and carry the executions that flow in: those entering at the start plus, past a branch, the times it was not taken. Branch counts are kept, and branches from or to addresses outside the binary contribute no range or pair of their own.',
  ['inputs'], 'all branch counts, targets and instruction layouts', 'Tests use a few fixed layouts.',
  ['branch_frequencies_autofdo_sample.cc', 'branch_frequencies_autofdo_sample.h', 'branch_frequencies.h'], [('ConvertBranchFrequenciesToAutofdoRangeSample', 'branch_frequencies_autofdo_sample.cc')])
P('S08', 'SPE records are attributed to the right binary and process',
  'Reading SPE data for a binary counts each retired branch inside its mapping, taken ones with their target and not-taken conditional ones at their address, infers the straight-line ranges between them, and adds nothing twice; data without samples of the binary is refused. A record with a thread context belongs to the process that thread had at the converted time of the record, one without belongs to the only process there is or to none.',
  ['inputs', 'histories'], 'all records, times, clock conversions and process histories', 'No test covers the simple reader; others use one history.',
  ['simple_spe_sample_reader.cc', 'sample_reader.cc', 'spe_tid_pid_provider.cc', 'spe_tid_pid_provider.h'], [('SimpleSpeDataSampleReader::Read/Append/SynthesizeRanges', 'simple_spe_sample_reader.cc'), ('SpeTidPidProvider::GetPid', 'spe_tid_pid_provider.cc')])
P('S09', 'Runtime addresses are translated to addresses of the profiled binary',
  'The mappings of the profiled binary are exactly those recorded under its name (or the names its build id has), once each, and overlapping ones are refused; a runtime address inside a mapping becomes the address its segment is linked at (kernel, position-independent and fixed binaries alike) and anything else is invalid. Aggregating LBR and SPE data counts every branch of the processes that run the binary between such addresses, with the fall-throughs between consecutive branches.',
  ['inputs', 'configurations'], 'all mappings, segments, names, addresses and branch records', 'Tests read a few fixed perf files.',
  ['perfdata_reader.cc', 'perfdata_reader.h', 'lbr_aggregation.h', 'branch_frequencies.h'], [('SelectMMaps/GetBuildIdNames', 'perfdata_reader.cc'), ('PerfDataReader::RuntimeAddressToBinaryAddress/AggregateLBR/AggregateSpe', 'perfdata_reader.cc')])
P('S10', 'Perf files of the right binary add up, and the others are skipped',
  'Aggregating several perf files adds up the branches of exactly those that are readable and contain the binary, found by the given profiled name, else by build id unless that is ignored, else by its own name. The statistics count those files, mappings, branches and kinds of source instructions; if there is no such file, or the source of files fails, the result is an error.',
  ['inputs', 'configurations'], 'all sequences of usable and unusable files, options and branches', 'Tests use one or two files.',
  ['llvm_propeller_perf_lbr_aggregator.cc', 'llvm_propeller_perf_branch_frequencies_aggregator.cc', 'perfdata_reader.cc'], [('PerfLbrAggregator::AggregateLbrData', 'llvm_propeller_perf_lbr_aggregator.cc'), ('PerfBranchFrequenciesAggregator::AggregateBranchFrequencies', 'llvm_propeller_perf_branch_frequencies_aggregator.cc')])
P('G02', 'The GCC profile file holds the whole profile, and reads back as it was written',
  'For every format version, the profile file holds exactly the functions above the emission threshold with their entry counts, times, locations, call targets and inlined calls, names unified for duplicate constructors and destructors, file names, and the working set, each at its place in the format. Reading the file restores the same profile, and functions that already have samples keep them unless told otherwise.',
  ['inputs', 'configurations'], 'all counts, locations, times, nestings and format versions',
  'Tests write one small profile and never compare all fields after reading it back.',
  ['profile_writer.cc', 'profile_writer.h', 'profile_reader.cc', 'profile_reader.h', 'gcov.cc'], [('AutoFDOProfileWriter/SourceProfileWriter', 'profile_writer.cc'), ('StringTableUpdater', 'profile_writer.h'), ('AutoFDOProfileReader', 'profile_reader.cc')])
P('G03', 'The profile summary describes the counts that are written',
  'The summary gives the sum, largest count, largest entry count, number of counts and number of functions of exactly the emitted functions. For each cutoff, the entry is the largest count limit such that the counts at or above it make up the requested share of the sum, with the number of those counts.',
  ['inputs'], 'all counts, nestings and cutoffs', 'Tests check one list of counts.',
  ['profile_writer.cc', 'profile_writer.h'], [('ProfileSummaryComputer', 'profile_writer.cc')])
P('P01', 'Block frequencies, hot blocks and cloned paths of a function\'s flow graph',
  'A block\'s frequency follows from the jumps, calls and returns recorded into and out of it, each counted once; hot blocks, landing pads, hot entry and exits and hot-edge percentiles follow from those. Cloning a path adds numbered copies of its blocks, each like its original, and a copy of a graph has the same blocks and inner edges.',
  ['inputs'], 'all graphs, edge kinds, weights and cloned paths', 'Tests use a few fixed graphs.',
  ['llvm_propeller_cfg.cc', 'llvm_propeller_cfg.h', 'llvm_propeller_program_cfg.cc', 'llvm_propeller_program_cfg.h'], [('ControlFlowGraph/CFGNode', 'llvm_propeller_cfg.cc'), ('ProgramCfg', 'llvm_propeller_program_cfg.cc')])
P('P05', 'Branch counts become exactly the edges of the flow graph they imply',
  'Every branch count between known blocks becomes weight of one edge of the right kind (jump, call or return), and every straight-line count weighs each fall-through on its way, if all of them can happen. Functions without counts are dropped, counts are added to an earlier graph if one is given, the statistics agree, and counts where too many jumps land inside blocks are refused.',
  ['inputs', 'histories'], 'all branch counts and block layouts', 'Tests use two recorded profiles.',
  ['llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_program_cfg_builder.h'], [('ProgramCfgBuilder::Build/CreateEdges/CreateFallthroughs', 'llvm_propeller_program_cfg_builder.cc')])
P('P02', 'Blocks are chained by the merges that gain the most',
  'Chains of blocks are built by repeatedly making, among all ways to join (and, where allowed, split) two connected chains that keep a function\'s entry first, the one with the largest gain of layout score, until none gains anything. After every step, each chain\'s size, frequency, positions and score are those of its blocks; what is left is joined in order of density behind the entry.',
  ['inputs', 'histories'], 'all flow graphs, weights and options', 'Tests fix a few graphs and the expected order.',
  ['llvm_propeller_node_chain_builder.cc', 'llvm_propeller_node_chain_builder.h', 'llvm_propeller_node_chain.cc', 'llvm_propeller_node_chain.h', 'llvm_propeller_node_chain_assembly.cc', 'llvm_propeller_node_chain_assembly.h', 'llvm_propeller_code_layout_scorer.cc'], [('NodeChainBuilder', 'llvm_propeller_node_chain_builder.cc'), ('NodeChainAssembly', 'llvm_propeller_node_chain_assembly.cc')])
P('P03', 'The code layout places every hot block once and keeps entries first',
  'The layout holds every block that must be placed exactly once, in numbered clusters that form one order, with a function\'s entry always at the start of a cluster and one cluster per function unless functions may be interleaved. Blocks that only run one after the other stay adjacent, cold blocks come last, and the scores reported for the old and the new layout, and their sums, are those of the blocks\' positions.',
  ['inputs'], 'all flow graphs, weights and options', 'Tests fix a few graphs and the expected order.',
  ['llvm_propeller_code_layout.cc', 'llvm_propeller_code_layout.h', 'llvm_propeller_code_layout_scorer.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_chain_cluster_builder.cc'], [('CodeLayout::OrderAll', 'llvm_propeller_code_layout.cc'), ('PropellerCodeLayoutScorer::GetEdgeScore', 'llvm_propeller_code_layout_scorer.cc')])
P('P09', 'Callers and callees are clustered by their call counts',
  'Taking chains by falling incoming weight, each is joined behind the cluster that calls it most, unless one of the two is too big, the edge is cold for its target, the caller\'s density would fall too much, or the chain is hardly run. The final clusters keep every chain once and are ordered by density; without clustering the original order stays.',
  ['inputs'], 'all call graphs, weights and sizes', 'Tests fix a few graphs and the expected order.',
  ['llvm_propeller_chain_cluster_builder.cc', 'llvm_propeller_chain_cluster_builder.h'], [('ChainClusterBuilder::BuildClusters', 'llvm_propeller_chain_cluster_builder.cc')])
P('P06', 'Layout files say exactly what the layout is',
  'The compiler\'s file lists, in either format version, every function with all its names, its module and cloned paths, and the blocks of each cluster in order; the linker\'s file lists the symbol of every cluster in layout order, under every alias, and then the cold parts that exist. The verbose lines, graph drawings and their index match the graphs.',
  ['inputs'], 'all layouts, names and format options', 'Tests compare a few recorded outputs.',
  ['llvm_propeller_profile_writer.cc', 'llvm_propeller_profile_writer.h', 'llvm_propeller_cfg.cc'], [('PropellerProfileWriter::Write', 'llvm_propeller_profile_writer.cc'), ('ControlFlowGraph::WriteDotFormat', 'llvm_propeller_cfg.cc')])
P('G06', 'Reading LLVM profiles adds up exactly what they hold',
  'Reading a profile adds its entry counts, location samples, call targets and inlined calls to those already read, function by function; a function without any sampled location gets its stated total, and flow-sensitive profiles, the discriminator bits and the symbol list are passed on. Functions singled out by name are dropped, kept only if a single profile has them, or kept as one cold entry; an unreadable profile is reported and changes nothing.',
  ['inputs', 'histories'], 'all profiles, names and reading orders', 'Tests read a few text profiles.',
  ['llvm_profile_reader.cc', 'llvm_profile_reader.h'], [('LLVMProfileReader::ReadFromFile/shouldMergeProfileForSym', 'llvm_profile_reader.cc')])
P('T01', 'Merging profile files gives their exact sum, transformed as asked',
  'Merging any profile files writes one profile holding, for every function above the emission threshold, the sum of their entry counts, samples, call targets and inlined calls, in the requested format. Nesting limits, symbol stripping, limits on inlined calls at one place and on call targets apply in that order, only if asked for; symbol lists are united, and unreadable inputs and unsupported option combinations are refused without writing.',
  ['inputs', 'configurations', 'histories'], 'all profiles, file lists and options', 'No stable test runs the tool.',
  ['profile_merger.cc', 'profile_reader.cc', 'llvm_profile_reader.cc', 'profile_writer.cc', 'llvm_profile_writer.cc'], [('main', 'profile_merger.cc')])
P('T02', 'Samples, sample files and prefetch hints make exactly the profile they describe',
  'Each prefetch hint becomes a numbered target with its kind and signed distance at the source location of its instruction, kinds of up to 63 characters kept whole, up to the first malformed line; text samples become the source profile handed to the writer once, and nothing is written when samples or debug information cannot be read. Merging sample files adds them to the output that exists, leaving it alone on any error, and perf samples are taken from the profiled binary only, by its padded build id, else by its base name or the requested expression.',
  ['inputs', 'configurations'], 'all hint files, sample files and binaries', 'No stable test runs the profile creator.',
  ['profile_creator.cc', 'profile_creator.h', 'sample_reader.cc', 'symbol_map.cc'], [('CreateProfile', 'profile_creator.cc'), ('ReadSample', 'profile_creator.cc'), ('ConvertPrefetchHints', 'profile_creator.cc'), ('MergeSample', 'profile_creator.cc')])
P('P10', 'Propeller generation runs each stage once, in order, and reports every failure',
  'Profiles must all be of one supported kind (unspecified counts as LBR) and given by the current option, or nothing is read or written and an invalid-argument error comes back; otherwise all profiles are read in order, exactly their end points are the hot addresses, and the aggregated counts and the binary reach the program builder, the layout and the writer unchanged. The first failing stage\'s error is returned with nothing written or reported (module names without debug information are such a failure), every reporter sees the final statistics after the profile is written, and status consumers are always stopped, with progress that never goes back.',
  ['inputs', 'faults'], 'all profiles, options and failing stages', 'The stable test never runs the pipeline.',
  ['llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc', 'llvm_propeller_telemetry_reporter.cc', 'lbr_branch_aggregator.cc', 'frequencies_branch_aggregator.cc', 'status_provider.h'], [('GeneratePropellerProfiles', 'llvm_propeller_profile_generator.cc'), ('GetProgramCfg', 'llvm_propeller_profile_computer.cc'), ('ComputeProfile', 'llvm_propeller_profile_computer.cc'), ('InvokePropellerTelemetryReporters', 'llvm_propeller_telemetry_reporter.cc')])
P('U03', 'Statistics of several steps are summed field by field',
  'Adding the statistics of one Propeller step to those of another sums every count, weight and score, and the counts of every kind of edge and merge order on either side, and changes nothing else; what is added stays as it was. The totals over all kinds are the sums of the kinds, and a weighted event counts once and by its weight.',
  ['inputs'], 'all statistics', 'No stable test covers them.',
  ['llvm_propeller_statistics.h'], [('operator+=', 'llvm_propeller_statistics.h'), ('Increment', 'llvm_propeller_statistics.h')])
P('M10', 'Whole profiles are judged, compared and listed by what they contain',
  'A profile counts as usable exactly when it has at least ten functions, a million samples, a call, an inlined call and line information for at least six in ten of its sampled locations, inlined ones included and functions without samples ignored. The overlap of two profiles is the share of samples they have in common per function, the same either way round; the total is the sum over all functions; and the symbol list holds exactly the functions of the binary that neither have samples nor are inlined into or called from functions that do, with their sizes.',
  ['inputs', 'histories'], 'all profiles and symbol tables', 'Tests check a few fixed profiles.',
  ['symbol_map.cc', 'symbol_map.h'], [('SymbolMap::Validate', 'symbol_map.cc'), ('SymbolMap::Overlap', 'symbol_map.cc'), ('SymbolMap::collectNamesForProfSymList', 'symbol_map.cc')])

P('M11', 'A printed profile shows every function once, in order, with all its counts',
  'Printing a profile shows exactly the functions with samples, by descending total and then by name, each with its file, total and entry count. Below each come its locations in source order, numbered from the start of the function (inlined functions: by source line) and with their discriminator if there is one, with their count and their call targets by descending count (later names first among equals); then its inlined calls in source order, indented, each with its own contents. The form for analysis has the same contents and order and also shows inclusive counts.',
  ['inputs', 'histories'], 'all profiles', 'Tests never look at printed output.',
  ['symbol_map.cc', 'symbol_map.h'], [('SymbolMap::Dump', 'symbol_map.cc'), ('Symbol::DumpBody', 'symbol_map.cc'), ('PrintSourceLocation', 'symbol_map.cc')])

P('P11', 'A saved program graph has exactly the blocks and edges of the program',
  'Saving the graphs of a program records every function once, with its index, names in order and section, every block in order with its size, identifier and properties, and each of its outgoing edges within the function once, with target, kind and weight. The whole program is written to the output and the output closed; failing to open, write or close it is reported, as is failing to open an input.',
  ['inputs', 'configurations'], 'all graphs', 'Tests save one small graph.',
  ['llvm_propeller_program_cfg_proto_builder.cc', 'llvm_propeller_program_cfg_proto_builder.h'], [('ProgramCfgProtoBuilder::AddCfgs', 'llvm_propeller_program_cfg_proto_builder.cc'), ('ProgramCfgProtoBuilder::WriteAndClose', 'llvm_propeller_program_cfg_proto_builder.cc')])

P('S11', 'Perf files with SPE records add up into one profile',
  'Each perf file read adds the branches and the ranges its SPE records show for the profiled binary, at the places its code has in the file. The mappings that count are those of its build id or, without one, those whose names match the given pattern; ranges end where the code or the sampled records have a branch, as asked. Binaries for other processors and files that are unreadable or lack the binary are refused and add nothing, and several files are handed out once each in the given order.',
  ['inputs', 'configurations'], 'all files, records and patterns', 'Tests read one recorded file.',
  ['spe_sample_reader.cc', 'spe_sample_reader.h', 'llvm_propeller_file_perf_data_provider.cc', 'llvm_propeller_file_perf_data_provider.h'], [('PerfSpeDataSampleReader::GenerateAutofdoProfile', 'spe_sample_reader.cc'), ('PerfSpeDataSampleReader::Append', 'spe_sample_reader.cc'), ('FilePerfDataProvider::GetNext', 'llvm_propeller_file_perf_data_provider.cc')])

P('P12', 'What is known about a binary is what its headers say',
  'Reading a binary finds its kind, the extent of each loadable executable segment in order, the identifier in its first build-id note, and its debug package if there is one. A kernel module has the extent and index of its executable text section and its properties, each a name and a value up to the next end mark, the first of each name counting. Missing files, binaries without executable code, other relocatable objects and malformed module properties are refused.',
  ['inputs', 'configurations'], 'all headers, notes and module properties', 'Tests read a few fixed binaries.',
  ['llvm_propeller_binary_content.cc', 'llvm_propeller_binary_content.h'], [('GetBinaryContent', 'llvm_propeller_binary_content.cc'), ('ELFFileUtil', 'llvm_propeller_binary_content.cc'), ('ParseModInfoSectionContent', 'llvm_propeller_binary_content.cc')])

P('D11', "LLVM-based symbolization gives the inline stack of an address",
  'The stack of an address has the functions of its inline chain, innermost first, each with its linkage name and the line it is declared at. The innermost has file, line and discriminator of the line table row of the address, each other those of the call in it; files and directories are those the line table numbers so in its format (DWARF 4 or 5). In kernel modules rows are looked up in the text section if the address is in it. Addresses of no unit, or of a unit without line table, have an empty stack; unreadable binaries are refused.',
  ['inputs', 'configurations'], 'all addresses, line tables and inline chains', 'No test covers this class beyond a few fixed binaries.',
  ['addr2line.cc', 'addr2line.h', 'source_info.h'], [('LLVMAddr2line::GetInlineStack', 'addr2line.cc'), ('LLVMAddr2line::Prepare', 'addr2line.cc'), ('Addr2line::Create', 'addr2line.cc')])

P('P13', "A function's module is the compile unit its code comes from",
  'The debug information of a binary is opened with its debug package, and refused if it has no units or keeps them elsewhere without a package. An address is in the module named by the full (not the skeleton) entry of the compile unit containing it, an unnamed unit giving the empty name, and an address of no unit in none. The graph of each function carries the module of its first address, or none without debug information.',
  ['inputs', 'configurations'], 'all units and addresses', 'Tests look up a few addresses of fixed binaries.',
  ['addr2cu.cc', 'addr2cu.h', 'llvm_propeller_program_cfg_builder.cc'], [('CreateDWARFContext', 'addr2cu.cc'), ('Addr2Cu::GetCompileUnitFileNameForCodeAddress', 'addr2cu.cc'), ('ProgramCfgBuilder::Build', 'llvm_propeller_program_cfg_builder.cc')])

P('T03', 'The tools that create and merge profiles do what their options say',
  'With the layout format, the options reach the layout generator unchanged, together with every listed profile (separated by semicolons, or the lines of a list file that are neither empty nor comments), each of the named kind; otherwise one profile is created from the profile, kind and binary given, in the format and into the output asked for, with the symbol list if asked. The sample merger and the GCC tool pass on their inputs likewise. Contradictory, incomplete or unsupported options are refused with a failing status and nothing is created, and every failure ends in a failing status.',
  ['inputs', 'configurations'], 'all combinations of options', 'There are no tests of the tools themselves.',
  ['create_llvm_prof.cc', 'create_gcov.cc', 'sample_merger.cc'], [('main', 'create_llvm_prof.cc'), ('CreatePropellerOptionsFromFlags', 'create_llvm_prof.cc'), ('main', 'create_gcov.cc'), ('main', 'sample_merger.cc')])
