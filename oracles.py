"""How each property is decided (for DESIGN.md): id -> (code executed symbolically, oracle)."""
O = {
'D01': ('ByteReader on a 12-byte symbolic buffer, both byte orders, 4/8-byte addresses', 'the value computed from the bytes by shifts written in the harness; LEB128 by the format definition, including the length consumed'),
'D02': ('LineInfo on a line program built by an encoder in the harness (dw.h) from symbolic header fields and opcodes', 'an independent line-number state machine of DWARF 2-5 run on the same symbolic values; the rows, files and directories handed to the LineInfoHandler are compared one by one'),
'D03': ('CompilationUnit on abbreviation tables and entries whose forms, values and accept/skip decisions are symbolic', 'the harness knows what it encoded: each callback must carry that tag, nesting, form, and value; skipped entries must consume exactly their bytes'),
'D04': ('AddressRangeList on symbolic entry kinds and operands', 'direct interpretation of the entry list as the standard words it'),
'D05': ('NonOverlappingRangeMap: every insertion order of symbolic endpoints, then a symbolic query', 'the set of inserted ranges scanned linearly for the innermost containing one; structural invariant (non-empty, disjoint, same union)'),
'D09': ('CompilationUnit::ProcessSplitDwarf, DwpReader and InlineStackHandler behind Google3Addr2line::GetInlineStack, with the binary, .dwo files and .dwp package supplied section by section', 'the two units\' extents as the harness encoded them: which unit\'s information must be available decides the frames; the package hash table is filled by the published insertion rule'),
'D10': ('LineInfo::Start on a version 0xf006 table (header, both programs) with a recording handler', 'two register machines written from the two-level proposal, run alongside the encoder'),
'D06': ('Google3Addr2line::GetInlineStack end to end on in-memory sections (abbrev, info, line, str, ranges) with symbolic extents, rows and query', 'innermost-first walk over the tree of extents the harness encoded, line-table lookup by linear scan'),
'D07': ('AddressToLineMap, per-function line tables and Addr2line::Create/PrepareSampledFunctions with symbolic rows', 'linear scan over the rows emitted'),
'D08': ('ElfReader on complete in-memory ELF32/64 images (memelf.h) with symbolic headers, symbols, segments and notes', 'the tables the image was made from'),
'G01': ('gcov.cc primitives, in-memory stdio (memfile.h), every position around the buffer boundaries', 'byte-exact encoding written by the harness; round trip'),
'G02': ('AutoFDOProfileWriter and AutoFDOProfileReader against in-memory files', 'a byte-level parser of the format in the harness compared with the reference profile (symref.h), then the real reader on the same file'),
'G03': ('ProfileSummaryComputer over a SymbolMap with symbolic counts', 'sort-free definition of each cutoff entry: largest limit whose counts reach the share'),
'G04': ('LLVMProfileBuilder::ConvertProfiles', 'reference profile folded by 16-bit line; compared with llvm::sampleprof::FunctionSamples'),
'G05': ('fillProfileSymbolList with symbolic sizes', 'order-free definition: a symbol is listed iff the strictly larger ones do not yet reach the share'),
'G06': ('LLVMProfileReader on FunctionSamples trees with symbolic locations and counts (SampleProfileReader::create replaced)', 'sum of the input profiles in the reference model (symref.h); special-symbol rules as a small state machine'),
'T02': ('ProfileCreator and MergeSample (flavour without LLVM) with the real sample readers, SymbolMap and ElfReader on in-memory files, stand-in quipper and debug information', 'the hints, samples and files the harness wrote, evaluated by its own model of the source profile'),
 'T01': ('the main of profile_merger, gcov flavour on in-memory files and LLVM flavour with stand-in LLVM reader and writer', 'sum of the inputs in the reference model, then each requested transformation in the documented order'),
'U01': ('status_provider.cc and status_consumer_registry.cc', 'weighted mean by definition; registry model as a list'),
'U03': ('llvm_propeller_statistics.h', 'field-wise sums'),
'M10': ('symbol_map.cc (Validate, Overlap, GetTotalSum, collectNamesForProfSymList)', 'conditions, sums and lists recomputed from the recorded samples'),
'M11': ('symbol_map.cc (SymbolMap::Dump, Symbol::Dump, DumpForAnalysis, DumpBody, PrintSourceLocation, GetSortedTargetCountPairs)', 'text rebuilt from the recorded samples by a separate printer'),
'P11': ('llvm_propeller_program_cfg_proto_builder.cc', 'the blocks and edges the graph was built from; files and the text form are stand-ins that record what they are given'),
'S11': ('spe_sample_reader.cc, llvm_propeller_file_perf_data_provider.cc, perfdata_reader.cc and branch_frequencies_autofdo_sample.cc', 'branches and flow computed directly from the records of the files that belong to the binary; files, binary and disassembler are stand-ins'),
'D11': ('addr2line.cc (the LLVM symbolizer)', 'the chain, row and call attributes the harness made up, with the directory numbering of the line table format; LLVM\'s DWARF reader is a stand-in'),
'P13': ('addr2cu.cc and the graph builder', 'the unit whose extent contains the address, from the units the harness made up; LLVM\'s DWARF reader is a stand-in'),
'T03': ('main of create_llvm_prof.cc, create_gcov.cc and sample_merger.cc, and the options builder', 'the options that were set; what the tools call is recorded by stand-ins'),
'P12': ('llvm_propeller_binary_content.cc, with LLVM\'s ELF reader templates executed as they are', 'the headers, notes and properties the image was built from; the file system is a stand-in'),
'P10': ('llvm_propeller_profile_generator.cc, llvm_propeller_profile_computer.cc', 'the order and arguments of the logged stages, the failing stage chosen'),
'U02': ('lazy_evaluator.h', 'counts of evaluations'),
'M01': ('SymbolMap::AddSourceCount/AddIndirectCallTarget/TraverseInlineStack', 'reference profile (symref.h)'),
'M02': ('SymbolMap::Merge, Symbol::Merge', 'sum of two reference profiles; the source compared before and after'),
'M03': ('GetOriginalName, ElideSuffixesAndMerge', 'grammar of names: base plus pieces chosen symbolically, so the original name is known by construction'),
'M04': ('BuildFlatProfile, BuildSelectiveFlatProfile, BuildHybridProfile, FlattenNestedInlineCallsites', 'recursive flattening of the reference profile'),
'M05': ('TrimCallTargets, throttleInlineInstancesAtSameLocation', 'rank by definition (number of strictly better entries), no sorting'),
'M06': ('Symbol::EntryCount / EstimateHeadCount', 'lowest location by linear scan'),
'M07': ('SymbolMap::ReadLoadableExecSegmentInfo, BuildSymbolMap-side lookups, sampled-symbol selection on in-memory ELF', 'linear scan over symbols and segments'),
'M08': ('ComputeWorkingSets', 'definition: smallest number of hottest instructions reaching each share'),
'M09': ('ComputeTotalCountIncl', 'strongly connected components by reachability over all call graphs of the shape'),
'P01': ('ProgramCfg/ControlFlowGraph construction, edges, frequencies, cloning, node chains of paths', 'adjacency matrix model'),
'P02': ('NodeChainBuilder stepped merge by merge', 'at every step the gain of every admissible merge is recomputed from the definition of the score; the merge taken must be a best one'),
'P03': ('CodeLayout::OrderAll', 'output is a permutation of the blocks, entry first, sections consistent, reported scores equal the definition evaluated on the emitted order'),
'P04': ('BinaryAddressMapper lookups and branch/fall-through translation', 'linear scan over blocks'),
'P05': ('ProgramCfgBuilder::Build from aggregated branches', 'edge weights by definition from the samples'),
'P06': ('PropellerProfileWriter on an in-memory ofstream (memstream.h)', 'a line-by-line parser of the two format versions in the harness, rebuilding the clusters'),
'P08': ('PropellerOptionsBuilder', 'last setting wins, all else default'),
'P09': ('ChainClusterBuilder', 'an independent reference clustering recomputed from the definition'),
'S01': ('sample text reader/writer, totals', 'byte-level reference formatter and parser'),
'S02': ('PerfDataSampleReader::Append on stand-in quipper events', 'ranges and branches by definition; build-id / name matching rules'),
'S03': ('Profile::ComputeProfile with a stand-in symbolizer', 'reference profile (symref.h) with max-per-location semantics'),
'S04': ('SourceInfo offset and discriminator packing, both build flavours', 'bit-field arithmetic'),
'S05': ('InstructionMap::BuildPerFunctionInstructionMap', 'per-address stack by definition'),
'S06': ('LbrAggregation / BranchFrequencies conversion', 'linear sums; flow conservation by definition'),
'S07': ('SPE fall-through range computation', 'walk over instructions'),
'S08': ('SimpleSpeSampleReader and SpeTidPidProvider', 'sums per address; latest event before the query time'),
'S09': ('PerfDataProvider / perf data reader: mappings, build ids, LBR and SPE translation', 'linear scan over mappings'),
'S10': ('PropellerProfileComputer-side file aggregation with several inputs', 'sum over the readable files of the matching binary'),
}
