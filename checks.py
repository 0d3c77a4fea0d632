"""Registry: what each property's check symbolically executes."""
PROPS = {}
def prop(pid, **kw): PROPS[pid] = kw
SYM = 'util/symbolize/'

prop('D01', bounds='12 symbolic bytes', jobs=[
    dict(name='fixed', harness='h_bytereader.cc', entry='fixed', srcs=[SYM + 'bytereader.cc']),
    dict(name='leb', harness='h_bytereader.cc', entry='leb', srcs=[SYM + 'bytereader.cc']),
    dict(name='initlen', harness='h_bytereader.cc', entry='initlen', srcs=[SYM + 'bytereader.cc']),
])

prop('D02', bounds='headers with symbolic parameters, 3 symbolic opcodes (4 in thorough) of 17 kinds with 16/32/64-bit symbolic operands, DWARF versions 2-5, 32/64-bit DWARF, both byte orders, 4/8-byte addresses', jobs=[
    dict(name='program', harness='h_lineinfo.cc', entry='program', srcs=[SYM + 'dwarf2reader.cc', SYM + 'bytereader.cc', SYM + 'index_helper.cc'],
         cfgs=[203, 313, 423, 533, 503, 443, 573], tcfgs=[204, 214, 304, 324, 404, 434, 444, 504, 514, 524, 534, 544, 574]),
    dict(name='v5hdr', harness='h_lineinfo.cc', entry='v5hdr', srcs=[SYM + 'dwarf2reader.cc', SYM + 'bytereader.cc', SYM + 'index_helper.cc'], cfgs=[0, 3], tcfgs=[0, 1, 2, 3]),
])
SYMS = [SYM + f for f in ('dwarf2reader.cc', 'bytereader.cc', 'index_helper.cc')]
prop('D10', bounds='2 directories, files and subprograms; 3 logical (4 in thorough) and 2 actual operations of every kind, each program closed by a row, with symbolic operands; 4 header variants; 32/64-bit DWARF, both byte orders, 4/8-byte addresses', outside='strings by index, line tables whose fake version-4 tables are not empty', jobs=[
    dict(name='twolevel', harness='h_lineinfo.cc', entry='twolevel', srcs=SYMS, cfgs=[9, 14, 4], tcfgs=[8, 9, 10, 15, 17]),
])
prop('D03', bounds='entries with two free attribute forms out of all supported ones and symbolic values, trees built by 5 (8 in thorough) symbolic push/pop steps and symbolic accept/skip decisions, 2 units; versions 2-5, 32/64-bit DWARF, both byte orders, 4/8-byte addresses', jobs=[
    dict(name='attrs', harness='h_cu.cc', entry='attrs', srcs=SYMS, cfgs=[20, 31, 42, 143, 50, 55, 152], tcfgs=[20, 25, 30, 31, 36, 42, 47, 143, 50, 51, 52, 55, 152, 157], w=3),
    dict(name='tree', harness='h_cu.cc', entry='tree', srcs=SYMS, cfgs=[140, 51], tcfgs=[20, 31, 40, 143, 51]),
    dict(name='units', harness='h_cu.cc', entry='units', srcs=SYMS, cfgs=[40, 23, 35, 50], tcfgs=[20, 23, 31, 35, 40, 47, 50, 51, 56]),
])
prop('D04', bounds='lists of up to 4 (DWARF 2-4) or 3 (DWARF 5) entries of symbolic kind and operands plus terminator, one more in thorough', jobs=[
    dict(name='ranges', harness='h_ranges.cc', entry='ranges', srcs=[SYM + 'dwarf3ranges.cc', SYM + 'bytereader.cc'], cfgs=[0, 1, 2], tcfgs=[0, 1, 2, 3]),
    dict(name='rnglists', harness='h_ranges.cc', entry='rnglists', srcs=[SYM + 'dwarf3ranges.cc', SYM + 'bytereader.cc'], cfgs=[0, 8, 13, 2, 11], tcfgs=list(range(16))),
])
prop('D05', bounds='3 and 4 ranges (5 in thorough) with arbitrary 64-bit endpoints, any query address', jobs=[
    dict(name='laminar', harness='h_rangemap.cc', entry='laminar', cfgs=[1, 3, 5], tcfgs=[1, 3, 5, 101]),
    dict(name='arbitrary', harness='h_rangemap.cc', entry='arbitrary', cfgs=[0, 1], tcfgs=[0, 1, 2]),
])
A2L = ['legacy_addr2line.cc', 'source_info.cc'] + SYMS + [SYM + f for f in ('dwarf3ranges.cc', 'addr2line_inlinestack.cc', 'functioninfo.cc')]
prop('D06', bounds='a function with up to three inlined calls (nested or siblings), with one or two extents each, an out-of-line copy and up to 3 line rows (4 in thorough); two units; 2 or 3 functions one of which hosts an inlined call; binaries with two line tables only; arbitrary 64/32-bit extents, rows and query; DWARF 2 to 5', outside='split DWARF (D09), the ELF container (sections are supplied in memory)', jobs=[
    dict(name='stack', harness='h_stack.cc', entry='stack', srcs=A2L, cfgs=[200, 302, 311, 400, 401, 402, 500, 501, 502, 411, 512]),
    dict(name='twounits', harness='h_stack.cc', entry='twounits', srcs=A2L, cfgs=[200, 306, 400, 406, 500, 503, 507, 413, 512]),
    dict(name='lineonly', harness='h_stack.cc', entry='lineonly', srcs=A2L, cfgs=[200, 400, 410, 500, 501, 511]),
    dict(name='stale2', harness='h_stack.cc', entry='stale2', srcs=A2L, cfgs=[400, 401, 500]),
    dict(name='stale', harness='h_stack.cc', entry='stale', srcs=A2L, cfgs=[400, 501], tcfgs=[402, 501]),
])
PRNT = ['-include', '@V@/rt/memprint.h']
MEMF = ['-include', '@V@/rt/memfile.h']
prop('G01', bounds='2 symbolic values (3 in thorough) of any kind (words, counters, strings up to 5 characters or absent) at every 4-byte position around the buffer sizes 0, 32 KiB and 64 KiB; truncation by 1-8 bytes; both string encodings', outside='strings of 16 KiB or more, I/O errors', jobs=[
    dict(name='writer', harness='h_gcov.cc', entry='writer', srcs=['gcov.cc'], flags=MEMF),
    dict(name='reader', harness='h_gcov.cc', entry='reader', srcs=['gcov.cc'], flags=MEMF),
])
STS = ['status_provider.cc', 'status_consumer_registry.cc']
prop('U01', bounds='1 to 3 parts, one possibly nested, any progress 0-100, weights 1-60 (four fixed weights for the exact floating-point check); registries with 4 operations (5 in thorough)', outside='larger weights, concurrent use', jobs=[
    dict(name='progress', harness='h_status.cc', entry='progress', srcs=STS, cfgs=[0], tcfgs=[0, 1]),
    dict(name='registry', harness='h_status.cc', entry='registry', srcs=STS),
])
prop('U02', bounds='any 32-bit inputs, up to 3 evaluations', jobs=[dict(name='lazy', harness='h_status.cc', entry='lazy', srcs=STS)])
SM = ['symbol_map.cc', 'source_info.cc']
prop('M01', bounds='2 operations (3 in thorough) on stacks of 1 to 3 frames with arbitrary 32-bit lines and discriminators, any data source', jobs=[
    dict(name='addcount', harness='h_symmap.cc', entry='addcount', srcs=SM, cfgs=[0, 1, 2, 3, 5, 6, 7, 8]),
])
prop('M02', bounds='two profiles of 2 sampled stacks each (3 in thorough) up to 3 frames deep', jobs=[
    dict(name='merge', harness='h_symmap.cc', entry='merge', srcs=SM, cfgs=[0, 1, 5]),
])
prop('M03', bounds='names of a base and up to 3 pieces (4 in thorough) out of all known suffixes, bare dots and free characters; maps of 3 functions plus an alias', jobs=[
    dict(name='original', harness='h_symxf.cc', entry='original', srcs=SM, cfgs=[0, 1, 2]),
    dict(name='elide', harness='h_symxf.cc', entry='elide', srcs=SM, cfgs=[0, 1, 2, 3, 4]),
])
prop('M04', bounds='two functions, each with up to three inlined instances nested up to 2 deep, recursive or not', jobs=[
    dict(name='flat', harness='h_symxf.cc', entry='flat', srcs=SM, cfgs=[0, 3, 5, 6, 22]),
    dict(name='selective', harness='h_symxf.cc', entry='selective', srcs=SM, cfgs=[3, 4]),
    dict(name='hybrid', harness='h_symxf.cc', entry='hybrid', srcs=SM, cfgs=[0, 3, 6, 22]),
    dict(name='nesting', harness='h_symxf.cc', entry='nesting', srcs=SM, cfgs=[0, 3, 5, 6, 22]),
])
prop('M05', bounds='up to 4 targets, up to 4 inlined instances over 2 locations plus 2 nested ones, limits 0-3', jobs=[
    dict(name='trim', harness='h_symxf.cc', entry='trim', srcs=SM),
    dict(name='throttle', harness='h_symxf.cc', entry='throttle', srcs=SM, cfgs=[0, 1]),
])
prop('M06', bounds='a function with up to 2 own locations and inlined calls nested up to 2 deep, any 32-bit lines', jobs=[
    dict(name='entrycount', harness='h_symxf.cc', entry='entrycount', srcs=SM, cfgs=[1, 2, 6, 7]),
])
prop('M09', bounds='4 functions with two call targets each (every call graph of that shape), one of them inside an inlined call, counts that are exact in single precision', jobs=[
    dict(name='inclusive', harness='h_symxf.cc', entry='inclusive', srcs=SM, cfgs=[0, 1 + 2 * 0 + 8 * 1, 2 * 1 + 8 * 3, 1 + 2 * 2 + 8 * 0], tcfgs=[b + 2 * x + 8 * y for b in (0, 1) for x in range(4) for y in range(4)]),
])
prop('M08', bounds='four locations in three functions (one inlined, one suffixed) with counts out of 0, 1, 5, 1000, 2^33 and 1, 40 or 300 instructions each', jobs=[
    dict(name='working', harness='h_symxf.cc', entry='working', srcs=SM, cfgs=[0, 1, 3]),
])
MEME = ['-include', '@V@/rt/memelf.h']
ELFS = [SYM + 'elf_reader.cc']
prop('D08', bounds='3 sections out of 5 names with free contents and headers, 4 named symbols (6 in thorough) with free values, up to 3 segments, up to 4 notes; ELF32 and ELF64, extended section numbering', outside='big-endian files, truncated headers', jobs=[
    dict(name='sections', harness='h_elf.cc', entry='elf_sections', srcs=ELFS, flags=MEME, cfgs=[0, 1, 2, 4, 8], tcfgs=range(16)),
    dict(name='symbols', harness='h_elf.cc', entry='elf_symbols', srcs=ELFS, flags=MEME, cfgs=[0, 3, 4, 8, 12], tcfgs=range(16)),
    dict(name='segments', harness='h_elf.cc', entry='elf_segments', srcs=ELFS, flags=MEME, cfgs=[0, 1, 2], tcfgs=range(4)),
    dict(name='buildid', harness='h_elf.cc', entry='elf_buildid', srcs=ELFS, flags=MEME, cfgs=[0, 1]),
    dict(name='bad', harness='h_elf.cc', entry='elf_bad', srcs=ELFS, flags=MEME, cfgs=[0, 1]),
    dict(name='names', harness='h_elf.cc', entry='elf_names', srcs=ELFS, flags=MEME),
])
prop('M07', bounds='3 symbols of 9 kinds at any address with any size, any query address; up to 4 segments of 3 kinds; 3 disjoint functions and 2 samples', outside='symbols whose extent wraps around the address space, LLVM flavour', jobs=[
    dict(name='lookup', harness='h_addr.cc', entry='lookup', srcs=SM + ELFS, flags=MEME, cfgs=range(9)),
    dict(name='translate', harness='h_addr.cc', entry='translate', srcs=SM + ELFS, flags=MEME, cfgs=[0, 1, 2]),
    dict(name='sampled', harness='h_addr.cc', entry='sampled', srcs=SM + ELFS, flags=MEME),
])
LMS = SYMS + [SYM + 'functioninfo.cc']
prop('D09', bounds='two units, the second split or embedded, each with a function (low/high or range list), an inlined call with arbitrary 64-bit extents and an unused entry; arbitrary identifiers (in packages, the bits selecting slot and step take every value, the other six bits of their bytes are fixed); packages of both index versions with 4 slots holding one or both units; DWARF 4 and 5', outside='DWARF 5 packages (not supported by the code), type units, 4-byte addresses, packages of other sizes, file names relative to the compilation directory', jobs=[
    dict(name='split', harness='h_stack.cc', entry='split', srcs=A2L, cfgs=[400, 403, 410, 412, 421, 422, 430, 440, 450, 500, 503, 530, 552], tcfgs=[400, 401, 402, 403, 410, 411, 412, 413, 420, 421, 422, 423, 430, 432, 440, 442, 450, 452, 500, 501, 502, 503, 530, 532, 540, 542, 550, 552]),
])
prop('D07', bounds='3 rows (4 in thorough) over 4 files and 3 directories, 2 sampled functions, any 48-bit addresses; 2 units of 3 logical lines; 2 functions (3 in thorough)', jobs=[
    dict(name='linemap', harness='h_linemap.cc', entry='linemap', srcs=LMS, cfgs=range(4)),
    dict(name='twolevel', harness='h_linemap.cc', entry='twolevel', srcs=LMS),
    dict(name='functions', harness='h_linemap.cc', entry='functions', srcs=LMS),
    dict(name='stmtlist', harness='h_linemap.cc', entry='stmtlist', srcs=LMS, cfgs=range(4)),
])
GEN = [['python3', '@V@/gen_pb.py', f'@REPO@/{p}.proto', f'@GEN@/{p}.pb.h'] for p in ('llvm_propeller_options', 'llvm_propeller_cfg')]
LLVMF = ['-DHAVE_LLVM=1', '-I@GEN@', '-isystem', '/usr/lib/llvm-20/include']
prop('P08', gen=GEN, bounds='2 settings (3 in thorough) of any option with any value, names up to 2 characters', jobs=[
    dict(name='options', harness='h_options.cc', entry='options', srcs=['llvm_propeller_options_builder.cc'], flags=LLVMF),
])
AGG = ['branch_aggregation.cc', 'lbr_branch_aggregator.cc', 'frequencies_branch_aggregator.cc', 'llvm_propeller_binary_address_mapper.cc', 'llvm_propeller_statistics.cc']
PIPE = ['llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc', 'llvm_propeller_telemetry_reporter.cc', 'lbr_branch_aggregator.cc', 'frequencies_branch_aggregator.cc', 'branch_aggregation.cc', 'status_provider.cc', 'status_consumer_registry.cc', '@rt/rt_llvm.cc']
LLVML = ['-L/usr/lib/llvm-20/lib', '-Wl,-rpath,/usr/lib/llvm-20/lib', '-lLLVM-20']
prop('S06', gen=GEN, bounds='up to 3 LBR branches and fall-throughs at any 48-bit address with any 48-bit count; 4 blocks in 2 functions, 2 taken branches (3 in thorough) and a not-taken one between any of them', jobs=[
    dict(name='lbr', harness='h_agg.cc', entry='lbr', srcs=AGG, flags=LLVMF, natlibs=LLVML, cfgs=[0, 1, 2, 4, 5, 6, 8, 9], tcfgs=[0, 1, 2, 4, 5, 6, 8, 9, 10, 3, 7]),
    dict(name='frequencies', harness='h_agg.cc', entry='frequencies', srcs=AGG, flags=LLVMF, natlibs=LLVML, cfgs=range(0, 16, 2), w=2),
    dict(name='frequencies2', harness='h_agg.cc', entry='frequencies', srcs=AGG, flags=LLVMF, natlibs=LLVML, cfgs=range(1, 16, 2), w=4),
])
prop('P04', gen=GEN, bounds='2 functions of 3 blocks or 3 of 2 (one block more in thorough) with any 16-bit offsets and sizes, one function possibly unselected', outside='building the map from an ELF file (done by the LLVM object reader)', jobs=[
    dict(name='mapaddr', harness='h_agg.cc', entry='mapaddr', srcs=AGG, flags=LLVMF, natlibs=LLVML, cfgs=[0, 1, 2, 3, 4, 5], tcfgs=range(16)),
])
prop('P10', gen=GEN, bounds='up to 3 input profiles of any kind or a caller-supplied source; two branches and a fall-through with any 48-bit addresses and counts; a failure at any one stage; with and without status consumers, module names and reporters', outside='the stages themselves (stand-ins that log what they are given: reading the binary and the profiles, mapping, building and laying out the program, writing; P01-P09 and S10 decide them); programs with debug information', jobs=[
    dict(name='pipeline', harness='h_pipeline.cc', entry='pipeline', srcs=PIPE, flags=LLVMF, natlibs=LLVML, cfgs=[0, 1, 2, 4], tcfgs=[0, 1, 2, 3, 4, 5], w=2),
    dict(name='computer', harness='h_pipeline.cc', entry='computer', srcs=PIPE, flags=LLVMF, natlibs=LLVML, cfgs=[0, 1, 2, 4], tcfgs=[0, 1, 2, 3, 4]),
])
prop('U03', gen=GEN, bounds='two sets of statistics with any 24-bit counts, 40-bit weights, fixed scores, and up to three kinds of edges or merge orders on either side', outside='formatting of the statistics', jobs=[
    dict(name='stats', harness='h_stats.cc', entry='stats', srcs=[], flags=LLVMF, natlibs=LLVML, cfgs=[0, 1], tcfgs=[0, 1, 2]),
])
prop('M10', gen=GEN, bounds='9 to 11 functions, two of them with up to 4 locations, one inlined call and any 32-bit counts; two profiles of 3 functions with counts out of 0, 1, 3 and 12 (floating point needs values); 5 functions of any size in the binary, one sampled any 32-bit number of times with an inlined call and a call target', outside='printed comparisons; profiles where one function has several names (apart from aliases in the symbol list)', jobs=[
    dict(name='validate', harness='h_compare.cc', entry='validate', srcs=SM, cfgs=[0, 1, 2, 3], tcfgs=range(5)),
    dict(name='overlap', harness='h_compare.cc', entry='overlap', srcs=SM, cfgs=[0, 7]),
    dict(name='symlist', harness='h_compare.cc', entry='symlist', srcs=SM + ELFS + ['@rt/rt_llvm.cc'], flags=LLVMF + MEME, natlibs=LLVML, cfgs=[0, 1]),
])
prop('M11', gen=GEN, bounds='3 functions with one-digit counts, up to 3 locations (any order of recording), two call targets, and calls inlined two deep', outside='longer numbers; demangled names', jobs=[
    dict(name='print', harness='h_dump.cc', entry='print', srcs=SM, flags=PRNT, cfgs=range(8)),
])
G04S = ['llvm_profile_writer.cc', 'profile_writer.cc', 'profile_symbol_list.cc', 'symbol_map.cc', 'source_info.cc', '@rt/rt_llvm.cc']
prop('G04', gen=GEN, bounds='two functions with up to 3 (4 in thorough) sampled stacks up to 3 frames deep, any 32-bit lines and discriminators, 40-bit counts, two call targets', outside='serialisation of the LLVM profile (done by LLVM itself)', jobs=[
    dict(name='convert', harness='h_llvm.cc', entry='convert', srcs=G04S, flags=LLVMF, natlibs=LLVML, cfgs=list(range(16)) + [16, 17, 18, 22, 23, 24, 28]),
])
prop('G05', gen=GEN, bounds='3 symbols of any 40-bit size (4 in thorough), shares 0, 1/4, 1/2, 3/4, 1', jobs=[
    dict(name='symlist', harness='h_llvm.cc', entry='symlist', srcs=G04S, flags=LLVMF, natlibs=LLVML, cfgs=[1, 5, 9, 13, 17, 3], tcfgs=[1, 5, 9, 13, 17, 3, 7, 11, 0, 4, 8, 12]),
    dict(name='badratio', harness='h_llvm.cc', entry='badratio', srcs=G04S, flags=LLVMF, natlibs=LLVML),
])
S05S = ['instruction_map.cc', 'symbol_map.cc', 'source_info.cc']
prop('S04', gen=GEN, bounds='any 32-bit lines and discriminators, both build flavours and all discriminator modes', jobs=[
    dict(name='offsets', harness='h_source.cc', entry='offsets', srcs=S05S),
    dict(name='offsets-llvm', harness='h_source.cc', entry='offsets', srcs=S05S + ['@rt/rt_llvm.cc'], flags=LLVMF, natlibs=LLVML),
])
prop('S05', gen=GEN, bounds='functions of up to 2 instruction addresses (3 in thorough) with stacks of up to 3 frames, any 32-bit lines and discriminators, any start', jobs=[
    dict(name='instructions', harness='h_source.cc', entry='instructions', srcs=S05S, cfgs=range(4)),
    dict(name='instructions-llvm', harness='h_source.cc', entry='instructions', srcs=S05S + ['@rt/rt_llvm.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(4)),
])
prop('S01', bounds='up to 2 ranges, addresses and branches each (addresses with one free byte around values of 1 to 12 digits, counts of one byte or 2^32, 10^6 or 2^64-1), files of 5 entries with free digits and five kinds of defects; totals over 3 ranges or addresses of any value', outside='I/O errors, more than 2^31 entries', jobs=[
    dict(name='text', harness='h_samples.cc', entry='text', srcs=['sample_reader.cc'], flags=MEMF, cfgs=range(12), tcfgs=range(30), w=3),
    dict(name='totals', harness='h_samples.cc', entry='totals', srcs=['sample_reader.cc'], flags=MEMF, cfgs=range(4)),
    dict(name='parse', harness='h_samples.cc', entry='parse', srcs=['sample_reader.cc'], flags=MEMF, cfgs=[0, 1]),
])
prop('S02', bounds='2 events of up to 2 branch records or one of up to 3 (4 in thorough) with any 64-bit addresses, any stride limit; objects out of 9 names, two build ids with free bytes', outside='decoding perf.data itself (quipper, replaced by a stand-in)', jobs=[
    dict(name='lbr', harness='h_samples.cc', entry='lbr', srcs=['sample_reader.cc'], flags=MEMF, cfgs=range(8), w=3),
    dict(name='match', harness='h_samples.cc', entry='match', srcs=['sample_reader.cc'], flags=MEMF, cfgs=[0, 1]),
])
NOWS = ['--skip=_ZN26devtools_crosstool_autofdo9SymbolMap18ComputeWorkingSetsEv']   # decided by M08
S03S = ['profile.cc', 'instruction_map.cc', 'sample_reader.cc'] + SM + ELFS
prop('S03', bounds='4 functions of 1 to 3 instructions with stacks of up to 3 frames (free lines and discriminators), 2 ranges or 2 ranges and 2 branches or 3 samples at any of up to 6 places with any 40-bit counts', outside='whether sampled branches are real branch instructions (a warning only)', jobs=[
    dict(name='compute', harness='h_profile.cc', entry='compute', srcs=S03S, flags=MEME, opts=NOWS, cfgs=range(8), tcfgs=range(16)),
    dict(name='threshold', harness='h_profile.cc', entry='threshold', srcs=S03S, flags=MEME, opts=NOWS),
    dict(name='misses', harness='h_profile.cc', entry='misses', srcs=S03S, flags=MEME, cfgs=[0, 2]),
])
prop('S07', gen=GEN, bounds='2 taken branches (3 in thorough) between 5 instructions or from or to outside, with any 40-bit counts, 2 not-taken branches, any of 9 instructions being a branch', jobs=[
    dict(name='ranges', harness='h_spe.cc', entry='ranges', srcs=['branch_frequencies_autofdo_sample.cc', '@rt/rt_llvm.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(10)),
])
prop('S08', gen=GEN, bounds='3 records (4 in thorough) of 4 kinds at any address around the mapping, in one or two traces; 2 thread events (3 in thorough) and one query at any 48-bit time, 4 clock conversions', outside='decoding the SPE packets (quipper, replaced by a stand-in)', jobs=[
    dict(name='simple', harness='h_spe.cc', entry='simple', srcs=['simple_spe_sample_reader.cc', 'sample_reader.cc'], flags=MEMF, cfgs=range(8)),
    dict(name='pids', harness='h_spe.cc', entry='pids', srcs=['spe_tid_pid_provider.cc', '@rt/rt_llvm.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(8)),
])
S09S = ['perfdata_reader.cc', 'spe_tid_pid_provider.cc', '@rt/rt_llvm.cc']
prop('S09', gen=GEN, bounds='3 mappings and any 24-bit offset around them, 3 segments of any 16-bit size; 3 mmap events of 4 names with any 16-bit length; 2 build ids of up to 3 bytes (3 in thorough); 2 samples of up to 3 branches; 3 SPE records', outside='decoding perf.data (quipper, replaced by a stand-in)', jobs=[
    dict(name='translate', harness='h_perf.cc', entry='translate', srcs=S09S, flags=LLVMF, natlibs=LLVML, cfgs=range(32)),
    dict(name='buildids', harness='h_perf.cc', entry='buildids', srcs=S09S, flags=LLVMF, natlibs=LLVML, cfgs=range(4)),
    dict(name='mmaps', harness='h_perf.cc', entry='mmaps', srcs=S09S, flags=LLVMF, natlibs=LLVML, cfgs=range(16)),
    dict(name='lbr', harness='h_perf.cc', entry='lbr', srcs=S09S, flags=LLVMF, natlibs=LLVML, cfgs=range(16)),
    dict(name='spe', harness='h_perf.cc', entry='spe', srcs=S09S, flags=LLVMF, natlibs=LLVML, cfgs=range(8)),
])
prop('S10', gen=GEN, bounds='up to 2 perf files (3 in thorough), each readable or not, of any of 3 binaries, with 2 branches from any 16-bit-offset address', outside='decoding perf.data (quipper) and instructions (LLVM), both replaced by stand-ins', jobs=[
    dict(name='files', harness='h_files.cc', entry='files', srcs=S09S + ['llvm_propeller_perf_lbr_aggregator.cc', 'llvm_propeller_perf_branch_frequencies_aggregator.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(16)),
])
prop('S11', gen=GEN, bounds='up to 2 perf files, each unreadable, damaged or of any of 3 binaries, with up to 2 records (3 in thorough) at any of 8 instructions; up to 3 files handed out in order', outside='decoding perf.data (quipper) and instructions (LLVM), both replaced by stand-ins', jobs=[
    dict(name='spefiles', harness='h_spefile.cc', entry='spefiles', srcs=['spe_sample_reader.cc', 'sample_reader.cc', 'branch_frequencies_autofdo_sample.cc', 'llvm_propeller_file_perf_data_provider.cc'] + S09S + ['@rt/rt_object.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(8)),
    dict(name='provider', harness='h_spefile.cc', entry='provider', srcs=['spe_sample_reader.cc', 'sample_reader.cc', 'branch_frequencies_autofdo_sample.cc', 'llvm_propeller_file_perf_data_provider.cc'] + S09S + ['@rt/rt_object.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(8)),
])
G02S = ['profile_writer.cc', 'profile_reader.cc', 'gcov.cc'] + SM
prop('G02', bounds='2 or 3 functions with 3 sampled stacks (4 in thorough) up to 3 frames deep, any 16-bit lines and discriminators, 40-bit counts and 3 call targets, the three format versions (in the one with a summary section, every fourth count is unknown and the others fixed)', outside='lines and discriminators of more than 16 bits (the format has no room for them)', jobs=[
    dict(name='file', harness='h_afdo.cc', entry='file', srcs=G02S, flags=MEMF, cfgs=range(24)),
])
prop('G03', bounds='3 counts (4 in thorough) of 8 to 16 bits in 2 functions, 9 cutoffs', jobs=[
    dict(name='summary', harness='h_afdo.cc', entry='summary', srcs=G02S, flags=MEMF, cfgs=range(12)),
])
CFGS = ['llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_program_cfg.cc', 'llvm_propeller_cfg.cc', 'llvm_propeller_binary_address_mapper.cc', 'llvm_propeller_formatting.cc', '@rt/rt_llvm.cc']
prop('P01', bounds='two graphs of 3 and 2 blocks, up to 4 edges (3 in quick) of any kind between any blocks with 16-bit weights, any two cloned paths, any thresholds and percentiles', gen=GEN, jobs=[
    dict(name='graph', harness='h_cfg.cc', entry='graph', srcs=CFGS, flags=LLVMF, natlibs=LLVML, cfgs=range(30)),
    dict(name='clones', harness='h_cfg.cc', entry='clones', srcs=CFGS, flags=LLVMF, natlibs=LLVML, cfgs=range(4)),
])
prop('P11', bounds='1 or 2 functions of 3 and 2 blocks of any 24-bit size and properties, 2 to 3 edges (one more in thorough) of any kind between any blocks of a function with any 24-bit weight', outside='the text form of the saved graph (written by protobuf itself); clones', gen=GEN, jobs=[
    dict(name='save', harness='h_cfgpb.cc', entry='save', srcs=['llvm_propeller_program_cfg_proto_builder.cc'] + CFGS, flags=LLVMF, natlibs=LLVML, cfgs=range(16)),
])
DWF = ['-I@V@/shim_dw'] + LLVMF
prop('P13', gen=GEN, bounds='up to 3 compile units of 6 kinds with any extents (16-bit sizes), any 32-bit address, 2 functions', outside='decoding the debug information (LLVM, replaced by a stand-in)', jobs=[
    dict(name='module', harness='h_module.cc', entry='module', srcs=['addr2cu.cc'] + CFGS, flags=DWF, natlibs=LLVML, cfgs=range(8)),
    dict(name='graphs', harness='h_module.cc', entry='graphs', srcs=['addr2cu.cc'] + CFGS, flags=DWF, natlibs=LLVML, cfgs=range(8)),
])
prop('D11', gen=GEN, bounds='two units, a line table of either format with 2 rows, 2 files and 3 directories, chains of up to 3 functions with any 32-bit lines and discriminators, any 48-bit address, programs and kernel modules with text at a fixed place', outside='decoding the debug information and the ELF file (LLVM, the former replaced by a stand-in); more than one executable section of a module', jobs=[
    dict(name='llvmstack', harness='h_llvmsym.cc', entry='llvmstack', srcs=['addr2line.cc', 'source_info.cc', '@rt/rt_llvm.cc', '@rt/rt_object.cc'], flags=DWF, natlibs=LLVML, cfgs=range(12)),
])
prop('P12', gen=GEN, bounds='module data of up to 6 bytes (7 in thorough); little-endian binaries of both classes with 3 program headers of any content, two code sections, up to two identifier notes', outside='big-endian binaries; malformed section tables (errors raised inside LLVM)', jobs=[
    dict(name='modinfo', harness='h_binary.cc', entry='modinfo', srcs=['llvm_propeller_binary_content.cc', '@rt/rt_llvm.cc', '@rt/rt_object.cc'], flags=LLVMF, natlibs=LLVML, cfgs=range(7), tcfgs=range(8)),
    dict(name='binary', harness='h_binary.cc', entry='binary', srcs=['llvm_propeller_binary_content.cc', '@rt/rt_llvm.cc', '@rt/rt_object.cc'], flags=LLVMF, natlibs=LLVML, cfgs=[0, 1, 2, 3, 4, 10, 12]),
])
prop('P05', bounds='5 blocks in 2 functions (in one or two sections), 2 samples (branches between block starts, insides or unknown code, or fall-throughs between any 2 blocks; 3 in thorough) of any 24-bit counts, any return and fall-through properties of 4 blocks, with and without an earlier graph', outside='counts of 31 bits and more', gen=GEN, jobs=[
    dict(name='builder', harness='h_cfg.cc', entry='builder', srcs=CFGS, flags=LLVMF, natlibs=LLVML, cfgs=list(range(18)) + list(range(54, 72)), tcfgs=range(72)),
])
LAYS = ['llvm_propeller_code_layout.cc', 'llvm_propeller_code_layout_scorer.cc', 'llvm_propeller_node_chain.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_node_chain_assembly.cc', 'llvm_propeller_chain_cluster_builder.cc', 'llvm_propeller_program_cfg.cc', 'llvm_propeller_cfg.cc', 'llvm_propeller_formatting.cc', '@rt/rt_llvm.cc']
prop('P03', bounds='CodeLayout::OrderAll on 2 or 3 functions of 4, 2 and 1 blocks, 10 edge shapes x 10 option sets (inter-function reordering, function splitting, block reordering, call-chain clustering, chain splitting and its threshold, other jump weights and distances, landing pads), 2 to 4 symbolic edge weights of 1 to 256 (one fewer for 13 configurations in quick; another edge between any blocks in thorough)', outside='more blocks or functions; weights above 256; zero-weight edges; cloned blocks', gen=GEN, jobs=[
    dict(name='layout', harness='h_layout.cc', entry='layout', srcs=LAYS, flags=LLVMF, natlibs=LLVML, cfgs=range(50)),
    dict(name='inter', harness='h_layout.cc', entry='layout', srcs=LAYS, flags=LLVMF, natlibs=LLVML, cfgs=range(50, 100), w=3),
])
prop('P02', bounds='NodeChainBuilder run step by step: 4 blocks (6 in 2 functions with inter-function reordering), 10 edge shapes x 6 options (splitting with and without a threshold, no splitting, iterative and balanced-tree queues, given initial chains), 3 (1 to 3) symbolic edge weights of 1 to 256 per configuration, other weights, sizes and addresses fixed per configuration; after every step each chain of each kind of merge is compared with the best of all merges', outside='more blocks; weights above 256; layouts where a score overflows a double', gen=GEN, jobs=[
    dict(name='chains', harness='h_layout.cc', entry='chains', srcs=LAYS, flags=LLVMF, natlibs=LLVML, cfgs=list(range(30)) + list(range(50, 60)), w=2),
    dict(name='inter', harness='h_layout.cc', entry='chains', srcs=LAYS, flags=LLVMF, natlibs=LLVML, cfgs=range(30, 50), w=4),
])
prop('P09', bounds='ChainClusterBuilder on 3 functions of 4, 2 and 1 blocks in 3 or 4 chains, 8 edge shapes x 8 option sets (inter-function reordering, size threshold 45, edges between sections, no clustering), 3 symbolic edge weights of 0 to 255 (one of 0 to 1020; 4 weights in thorough), sizes fixed per configuration', outside='more chains; frequencies of 31 bits and more', gen=GEN, jobs=[
    dict(name='clusters', harness='h_layout.cc', entry='clusters', srcs=LAYS, flags=LLVMF, natlibs=LLVML, cfgs=range(64)),
])
MEMS = ['-include', '@V@/rt/memstream.h']
prop('P06', bounds='two functions of 4 and 2 blocks with 3 names and 1 name in one or two sections, format versions 0 and 1, with and without module names and the verbose lines; any non-empty set of the blocks of one function in two orders cut into clusters anywhere, any of 4 cluster lists of the other, 2 orders of the clusters, one symbolic block id of 200 to 65735 and (verbose) one symbolic edge weight; two cloned paths; the flow graph drawings and their index', outside='scores printed with fewer digits; failing writes', gen=GEN, jobs=[
    dict(name='writer', harness='h_writer.cc', entry='writer', srcs=['llvm_propeller_profile_writer.cc', 'llvm_propeller_cfg.cc', 'llvm_propeller_program_cfg.cc', '@rt/rt_llvm.cc'], flags=LLVMF + MEMS, natlibs=LLVML, cfgs=range(48)),
])

G06S = ['llvm_profile_reader.cc'] + G04S
prop('G06', gen=GEN, bounds='two profiles of two functions each, with inlined calls nested up to 2 deep, any 32-bit lines and discriminators, 40-bit counts, 2 call targets per location; special-symbol rules over 3 profiles drawing from 10 names', outside='parsing of the profile files (LLVM, replaced by a stand-in)', jobs=[
    dict(name='reader', harness='h_merge.cc', entry='reader', srcs=G06S, flags=LLVMF, natlibs=LLVML, cfgs=range(32)),
    dict(name='broken', harness='h_merge.cc', entry='broken', srcs=G06S, flags=LLVMF, natlibs=LLVML),
    dict(name='special', harness='h_merge.cc', entry='special', srcs=G06S, flags=LLVMF, natlibs=LLVML, cfgs=range(10)),
])

T01S = [s for s in G06S if s not in G02S] + G02S
prop('T01', gen=GEN, bounds='two LLVM profiles of two functions (one with two inlined calls at one place, a nested one and three call targets), 16-bit counts, each option alone and together; two or three AutoFDO files of two functions in format versions 1 and 2', outside='parsing and serialisation of LLVM profiles (LLVM, replaced by stand-ins); command-line parsing', jobs=[
    dict(name='llvmmerge', harness='h_merger.cc', entry='llvmmerge', srcs=T01S, flags=MEMF + LLVMF, natlibs=LLVML, cfgs=range(10)),
    dict(name='refuse', harness='h_merger.cc', entry='refuse', srcs=T01S, flags=MEMF + LLVMF, natlibs=LLVML, cfgs=range(7)),
    dict(name='gcovmerge', harness='h_merger.cc', entry='gcovmerge', srcs=T01S, flags=MEMF + LLVMF, natlibs=LLVML, cfgs=range(8)),
])

T02S = ['profile_creator.cc'] + S03S
prop('T02', bounds='hints: 2 or 3 at any of 4 places each (inlined, unknown, without debug information), with up to 12 digits of distance and 3 kinds, one malformed line of 3 sorts; text samples: 2 counts of up to 40 bits; merging: up to 2 inputs and an existing output; perf: 5 binary names, 6 object names, build ids of 0, 8 and 16 bytes with 2 free', outside='decoding perf.data and Arm SPE data, reading debug information (other properties)', jobs=[
    dict(name='prefetch', harness='h_creator.cc', entry='prefetch', srcs=T02S, flags=MEMF + MEME, opts=NOWS, cfgs=range(8)),
    dict(name='create', harness='h_creator.cc', entry='create', srcs=T02S, flags=MEMF + MEME, opts=NOWS, cfgs=range(6)),
    dict(name='mergesample', harness='h_creator.cc', entry='mergesample', srcs=T02S, flags=MEMF + MEME, opts=NOWS, cfgs=range(8)),
    dict(name='perf', harness='h_creator.cc', entry='perf', srcs=T02S, flags=MEMF + MEME, opts=NOWS, cfgs=range(10)),
])
prop('T03', gen=GEN, bounds='every choice of the options with up to 3 values each (any byte in a name of a list file, any 32-bit distances and version)', outside='parsing the command line itself (Abseil)', jobs=[
    dict(name='llvmprof', harness='h_tools.cc', entry='llvmprof', srcs=['llvm_propeller_options_builder.cc', '@rt/rt_llvm.cc'], flags=LLVMF + ['-DTOOL=1'], natlibs=LLVML, cfgs=range(5)),
    dict(name='layoutoptions', harness='h_tools.cc', entry='layoutoptions', srcs=['llvm_propeller_options_builder.cc', '@rt/rt_llvm.cc'], flags=LLVMF + ['-DTOOL=1'], natlibs=LLVML),
    dict(name='creategcov', harness='h_tools.cc', entry='creategcov', srcs=[], flags=['-DTOOL=2']),
    dict(name='samplemerger', harness='h_tools.cc', entry='samplemerger', srcs=[], flags=['-DTOOL=3']),
])
