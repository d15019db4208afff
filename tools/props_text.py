SYMZ = "util/symbolize/"
prop("S01", "Debug-section byte decoding is exact",
     "For every byte sequence, width, byte order and address/offset size, each primitive read of debug data (fixed-width integers, LEB128, offsets, addresses, encoded pointers, initial lengths) yields the value the DWARF/LSB definition assigns to those bytes, reports the number of bytes it consumed, and never touches bytes outside the buffer it was given.",
     ["inputs"], "all byte strings over a boundary alphabet up to the longest encodings, both byte orders, all address and offset sizes, all pointer encodings",
     "addr2line_test symbolizes one prebuilt x86-64 binary, so it reaches one byte order, one address size and only the encodings that compiler emitted.",
     [SYMZ + "bytereader.h", SYMZ + "bytereader.cc", SYMZ + "bytereader-inl.h"],
     [("ByteReader", SYMZ + "bytereader-inl.h"), ("encoded pointers and initial length", SYMZ + "bytereader.cc")],
     note="Exhaustive over the stated byte alphabet and lengths, with ASan; trusts the independent decoder in the harness.")
prop("S02", "Line tables replay the line-number program exactly",
     "For every well-formed line-number program (versions 2 to 5, any line base, range, minimum instruction length and opcode base, any opcode sequence), the address-to-line map a reader obtains is exactly the rows the standard's state machine emits, with the right directory, file name, line and discriminator. Malformed or truncated programs are rejected without reading outside the section.",
     ["inputs", "programs"], "all opcode sequences up to a depth over all standard, extended and special opcode classes, for a grid of header parameters and versions; all truncations of small programs",
     "The one test binary has one header layout and a compiler-typical opcode mix; sequence interactions (advance by constant, discriminator reset, end of sequence, address width) are not enumerated.",
     [SYMZ + "dwarf2reader.cc", SYMZ + "functioninfo.cc"],
     [("LineInfo::ReadHeader, ProcessOneOpcode, ReadLines", SYMZ + "dwarf2reader.cc"), ("CULineInfoHandler", SYMZ + "functioninfo.cc")],
     note="Every opcode sequence within the bound is executed by the real reader and compared row by row with an independent state machine; under ASan.")
prop("S03", "Range lists denote the same addresses as the standard",
     "For every DWARF 2-5 range list (base address selections, offset pairs, start/end, start/length, indexed forms, terminators, empty ranges), the set of addresses reported for it is exactly the set the standard assigns, whatever the unit base address, address width and byte order, and overlapping or touching ranges are merged without gaining or losing an address.",
     ["inputs"], "all entry sequences up to a depth over all entry kinds with boundary operands, both address sizes, all versions",
     "The test binary contains only DWARF 4 style lists produced by one compiler; no DWARF 5 list entry kind except offset pairs is reached.",
     [SYMZ + "dwarf3ranges.cc", SYMZ + "dwarf3ranges.h"],
     [("AddressRangeList::ReadRangeList, ReadDwarfRngListwithOffset", SYMZ + "dwarf3ranges.cc"), ("SortAndMerge", SYMZ + "dwarf3ranges.cc")],
     note="Exhaustive over entry sequences within the bound against an independent interpreter of the list; under ASan.")
prop("S04", "An address maps to its true inline stack",
     "For every program's debug information, looking up a sampled instruction address returns the stack of functions the debug information nests at that address, innermost first, each with the right function name, directory, file, line offset from its function's start, and discriminator, independent of the attribute encodings, of other units and of which ranges were requested to be processed.",
     ["inputs", "programs"], "all small trees of subprograms and inlined calls (nesting, order, split ranges), all attribute encodings for each attribute, one and two compilation units, conflicting line rows, all sampled-address sets of the scenario",
     "The test compares one binary's addresses with golden text; other shapes, encodings, DWARF 5 forms and multi-unit interactions are not reached.",
     [SYMZ + "addr2line_inlinestack.cc", SYMZ + "dwarf2reader.cc", SYMZ + "dwarf3ranges.cc", "legacy_addr2line.cc", SYMZ + "index_helper.cc"],
     [("InlineStackHandler", SYMZ + "addr2line_inlinestack.cc"), ("CompilationUnit attribute forms", SYMZ + "dwarf2reader.cc"), ("Google3Addr2line", "legacy_addr2line.cc")],
     note="The harness generates ELF images with DWARF 2-5 sections, the real reader symbolizes every address and the answer is compared with the generating tree. Out of scope: type units, VLIW op_index, units with DW_AT_ranges given by an index before the bases are known.")
prop("S05", "The range-to-value map answers every lookup correctly",
     "After any sequence of insertions of ranges that are pairwise nested or disjoint, a lookup of any address returns the value of the innermost inserted range that contains it (for equal ranges the first inserted), and reports absence for every address outside all ranges, including at the first and last addresses of a range.",
     ["histories", "inputs"], "all insertion histories up to a depth of nested or disjoint ranges on a small address line, at low and at the highest addresses, every address looked up after every step",
     "No unit test drives the map directly; the symbolizer test touches only the layouts of one binary.",
     [SYMZ + "nonoverlapping_range_map.h"],
     [("NonOverlappingRangeMap insertion and Find", SYMZ + "nonoverlapping_range_map.h")],
     note="Exhaustive over histories within the bound, real map against a reference array.")
prop("S06", "ELF files are read as their headers state",
     "For every well-formed ELF file of native byte order and either word size - whatever the order, number and emptiness of its sections and segments, extended section numbering included - the file kind, section names, lookups by name, index and type (DWARF names also in their .zdebug form, .dwp files searched from the end), segments, first load address, symbols (all named ones, filtered as asked, Thumb bit cleared on ARM functions) and build id (only if there is exactly one GNU note of at most 20 bytes) are exactly what the file holds; truncated files and files of other kinds yield nothing instead of crashing.",
     ["inputs", "faults"], "all section lists, segment lists, symbol tables and note lists up to a size over small alphabets, for both word sizes; every truncation length and header damage of a small whole file",
     "The unit test symbolizes one binary; section order, empty or duplicate sections, 32-bit files, numbering overflow and truncated files are not met there.",
     [SYMZ + "elf_reader.cc", SYMZ + "elf_reader.h"],
     [("ElfReaderImpl, ElfSectionReader, SymbolIterator", SYMZ + "elf_reader.cc")],
     note="Real reader on generated files, against the generating description; damaged files are read in a child process so that a crash is seen.")
prop("G01", "gcov stream primitives write and read back every value",
     "Every 32-bit word, 64-bit counter and string written to a gcov profile stream, in any order and at any position in the stream's buffer, is stored in the documented layout for the profile version in force and read back as the same value; a string too long for the reader is refused, not corrupted.",
     ["inputs", "histories"], "all sequences of items up to a depth over boundary words, counters and strings, for every profile version; all strings around the buffer and length limits at every alignment of the buffer refill",
     "No reliable test writes a gcov file; the buffer refill, string padding and length limits depend on stream position.",
     ["gcov.cc", "gcov.h"],
     [("gcov_write_unsigned/counter/string, gcov_read_*", "gcov.cc"), ("buffer allocation and flushing", "gcov.cc")],
     note="Exhaustive over item sequences within the bound; the file bytes are compared with an independent encoder and then read back by the real reader.")
prop("G02", "A written gcov profile reads back as the same profile",
     "For every symbol map, the profile file the writer produces describes exactly the functions whose total exceeds the threshold, with every inlined call tree, position, count, instruction-independent target and entry count, each name through the name table with constructor and destructor variants unified as documented, and the working sets; reading that file yields that profile again, for every profile version.",
     ["inputs"], "all profiles up to a size over nesting shapes, shared names, positions, boundary counts, targets, with and without file names, all versions and thresholds",
     "The gcov profile tests are not reliably runnable here and use one hand-written profile each.",
     ["profile_writer.cc", "profile_reader.cc", "gcov.cc", "symbol_map.cc"],
     [("AutoFDOProfileWriter::WriteToFile, SourceProfileWriter", "profile_writer.cc"), ("AutoFDOProfileReader::ReadFromFile, ReadSymbolProfile", "profile_reader.cc")],
     note="The file is decoded by an independent decoder and compared with the generating profile, then read back by the real reader and written a second time. Scope: discriminators below 2^16 and line offsets modulo 2^16, as the version 1/2 format stores.")
prop("G03", "The profile summary states the true totals and cutoffs",
     "For every profile, the summary reports the true total, maximum and maximum function count and the true numbers of counts and functions, and for each cutoff the smallest count such that counts at least that large cover the stated fraction of the total, together with how many counts that is; and the summary in the file is the summary of what the file contains.",
     ["inputs"], "all multisets of counts up to a size over boundary counts and nesting, all emission thresholds",
     "summary_calculation_test cannot run here and checks single examples; the cutoff arithmetic is sensitive to ties, rounding and 64-bit totals.",
     ["profile_writer.cc", "profile_writer.h"],
     [("ProfileSummaryComputer", "profile_writer.cc")],
     note="Exhaustive over count multisets within the bound against an arithmetic in 128-bit integers.")
prop("G04", "Damaged or unwritable profiles are reported, never accepted",
     "Whatever prefix of a profile file is present, whatever section tag or name index is wrong, and wherever the disk fills up, reading or writing ends by reporting failure (or a deliberate abort): no partial profile is taken for a complete one, no incomplete file is reported as written, and nothing crashes or hangs.",
     ["crash points", "inputs"], "every truncation point of small profiles of all versions, every boundary value of every tag and name index, every file size limit while writing, every kind of impossible place",
     "No test truncates, corrupts or fails a write of a profile file.",
     ["gcov.cc", "profile_reader.cc", "profile_writer.cc"],
     [("gcov_read_words error handling", "gcov.cc"), ("ReadModuleGroup, ReadFunctionProfile tag checks", "profile_reader.cc"), ("WriteToFile return values", "profile_writer.cc")],
     note="All crash points of a write (file size limit) and all truncations are enumerated on the real code in subprocesses.")
prop("M01", "Samples are attributed to the right inline instance",
     "After any history of source counts, indirect call targets and entry counts added to a symbol map, each function and each inline instance carries exactly the counts of the samples whose source stack runs through it: totals sum along the stack, body counts sit at the leaf's position (maximum of the records when converting raw samples, sum when merging profiles), targets at their position; samples whose frames lack a line count only in the totals they certainly belong to.",
     ["histories", "inputs"], "all histories up to a depth of count, target and entry operations over stacks of up to three frames with and without complete locations, all data sources, boundary counts and duplication factors",
     "The symbol map tests add a handful of counts; histories mixing data sources, deep stacks and missing lines are not reached.",
     ["symbol_map.cc", "symbol_map.h", "source_info.cc"],
     [("TraverseInlineStack, AddSourceCount, AddIndirectCallTarget", "symbol_map.cc"), ("Offset encoding", "source_info.h")],
     note="Every history within the bound runs on the real map and is compared with a reference map.")
prop("M02", "Merging profiles sums them, in any order",
     "Merging any profiles into one symbol map gives, for every function, inline instance, position and call target, the sum of the counts in the inputs (and for every function the earliest timestamp), whatever the order and grouping of the merge, and nothing else.",
     ["histories", "inputs"], "all pairs and triples of profiles from a family of overlapping shapes, all orders, through files and through in-memory merge",
     "Merging is tested on single examples; order independence and overlap at each level need all combinations.",
     ["symbol_map.cc", "profile_reader.cc"],
     [("Symbol::Merge, ProfileInfo::operator+=", "symbol_map.cc"), ("reading into a non-empty map", "profile_reader.cc")],
     note="Exhaustive over profile tuples within the family against a reference sum.")
prop("M03", "Compiler-added suffixes are elided without losing counts",
     "For every function name, the suffix elision policy in force removes exactly the suffixes it documents (all: from the first dot that is not leading; selected: .cold, .llvm., .lto_priv., .__part., .isra. with what follows them; none: nothing), and eliding a map merges the functions that become equal so that all their counts, inline instances and targets are kept once.",
     ["inputs"], "all names composed of up to three pieces from an alphabet of bases, listed and unlisted suffixes; all maps of up to a few such functions under every policy",
     "Tests check one or two names per policy; combinations of suffixes and collisions on merge are not covered.",
     ["symbol_map.cc"],
     [("GetOriginalName, selectedSuffixes", "symbol_map.cc"), ("ElideSuffixesAndMerge", "symbol_map.cc")],
     note="Exhaustive over composed names and maps within the bound against an independent statement of the policies.")
prop("M04", "Addresses map to the right symbol and file offset",
     "For every set of symbol address ranges and loadable segments, looking up any address gives the function whose range contains it (and none outside all ranges), file offsets and virtual addresses convert by the containing segment, and the set of sampled functions is exactly those containing a sampled address or carrying counts.",
     ["inputs"], "all small layouts of symbols (nested aliases, gaps, touching, zero sized) and segments, every address at and around every boundary",
     "The tests use one binary; off-by-one boundaries and multi-segment layouts need enumeration.",
     ["symbol_map.cc", "symbol_map.h"],
     [("GetSymbolInfoByAddr, GetSymbolNameByStartAddr", "symbol_map.cc"), ("get_static_vaddr, get_file_offset, ReadLoadableExecSegmentInfo", "symbol_map.cc"), ("GetSampledSymbolStartAddressSizeMap", "symbol_map.cc")],
     note="Layouts are real ELF images produced by the harness and read by the real code; every boundary address is looked up.")
prop("M05", "Derived profile measures follow from the counts",
     "For every profile, inclusive totals (whole call cycles sharing one total), working-set buckets, overlap, count thresholds, scaling by a ratio, removal of functions by pattern and the sanity check of a whole profile are exactly what their definitions give from the profile's counts, for counts up to 64 bits and whatever order hash tables iterate in.",
     ["inputs"], "all call graphs on three and four functions (all edge sets, cycles included) with boundary counts, rows of up to 300 call cycles calling each other from any member, all instruction histograms up to a size, all pairs of small profiles and ratios and patterns",
     "Tests check one graph and one histogram; cycles visited in other orders, ties and large counts are not reached.",
     ["symbol_map.cc"],
     [("CallGraph::FindAndCollapseSCC, ComputeTotalCountIncl", "symbol_map.cc"), ("ComputeWorkingSets", "symbol_map.cc"), ("Overlap, CalculateThreshold, UpdateWithRatio, RemoveSymsMatchingRegex, Validate", "symbol_map.cc")],
     note="Exhaustive within the bounds against reference computations.")
prop("M06", "Reshaping a profile conserves its counts and calls",
     "Flattening a profile (all functions or the cold ones), turning cold inline instances into outlined calls, limiting inline nesting depth, keeping the hottest call targets, keeping the hottest inline instances of a location, and estimating entry counts each produce exactly the documented shape: nothing hot enough or shallow enough changes, every body count survives in the function it belongs to, every call is still written down, and (where the operation keeps totals) each total equals its body and inlined calls.",
     ["inputs"], "all inline trees up to a number of instances and depth (recursion included) with distinct counts, all thresholds, limits and keep counts",
     "Tests run each transformation on one profile; recursion, collisions on merge and boundary thresholds need all trees.",
     ["symbol_map.cc"],
     [("BuildFlatProfile, BuildHybridProfile", "symbol_map.cc"), ("FlattenNestedInlineCallsites", "symbol_map.cc"), ("TrimCallTargets, throttleInlineInstancesAtSameLocation, EstimateHeadCount", "symbol_map.cc")],
     note="Exhaustive over trees within the bound. Totals and entry estimates of the hybrid profile are not claimed.")
prop("L01", "An LLVM sample profile says exactly what the map says",
     "For every symbol map, the LLVM sample profile written from it (text, binary or extensible binary) is, as LLVM's own reader sees it, exactly the functions whose total exceeds the threshold with every inlined call tree, position, count, call target, entry count and total; reading it back with AutoFDO gives the same profile, reading it twice gives the sum; a file cut short is accepted only when LLVM accepts it and a file that could not be written completely is never reported as written.",
     ["inputs", "crash points"], "all profiles up to a size over nesting shapes, shared names, line offsets and discriminators at their limits, boundary counts, targets, three formats, thresholds; all truncations and all points where the disk is full",
     "The LLVM writer tests cannot run here and write one small profile; sibling and nested inline shapes, limits and failures are not sampled.",
     ["llvm_profile_writer.cc", "llvm_profile_reader.cc", "profile_writer.cc"],
     [("LLVMProfileBuilder", "llvm_profile_writer.cc"), ("ReadFromFunctionSamples", "llvm_profile_reader.cc"), ("SymbolTraverser", "profile_writer.h")],
     note="Oracle: the generating profile, and LLVM 20's reader. Line offsets modulo 2^16 as the format stores them.")
prop("L02", "The symbol list names what the profile leaves out",
     "For every binary and profile, the names offered for the profile symbol list are exactly the binary's functions that the profile does not mention (as a sampled function, inlined call or call target of a sampled function), each with its size; and the list keeps the largest functions that together cover the requested share of the total size, under the names the suffix policy gives them.",
     ["inputs"], "all small binaries against all small profiles; all size vectors over boundary sizes with ratios and policies",
     "The unit test uses one list; ties, zero sizes and names reached only through inlined callees need enumeration.",
     ["profile_symbol_list.cc", "symbol_map.cc"],
     [("fillProfileSymbolList", "profile_symbol_list.cc"), ("collectNamesForProfSymList, collectNamesInProfile", "symbol_map.cc")],
     note="Exhaustive within the bounds; binaries are ELF images made by the harness.")
prop("L03", "Source offsets and discriminators are decoded as documented",
     "For every source line, function start line and 32-bit discriminator, the stored offset is the line distance in the high half and the whole, base, or flow-sensitive base discriminator in the low half, the duplication factor is the encoded one (1 when absent or flow-sensitive), and line and discriminator read back from an offset are the stored ones.",
     ["inputs"], "all low halves of discriminators with boundary high halves, boundary lines, all modes",
     "Tests check a handful of discriminators; the prefix encoding has irregular lengths.",
     ["source_info.h", "source_info.cc"],
     [("SourceInfo::Offset, DuplicationFactor, GenerateCompressedOffset", "source_info.h")],
     note="Exhaustive over 2^16 discriminators per configuration; pseudo-probe discriminators are compared with LLVM's own decoding.")
prop("L04", "Special functions merge as their policy says",
     "For every sequence of profiles read into one map, functions on the strip list never enter, functions to keep only when unique keep the counts of their single profile and lose them once a second profile has them, functions to keep cold get the cold marker once, and all other functions sum.",
     ["histories"], "all sequences of up to three profiles over all subsets of one function of each kind",
     "The tests merge fixed pairs of profiles.",
     ["llvm_profile_reader.cc", "llvm_profile_reader.h"],
     [("shouldMergeProfileForSym", "llvm_profile_reader.cc"), ("SpecialSyms", "llvm_profile_reader.h")],
     note="Exhaustive over histories within the bound, through real profile files.")
prop("P01", "A profile says exactly what the samples of the binary say",
     "For every set of samples of a binary (branches and ranges, addresses, cache misses, or prefetch hints; from text or perf files) the created profile has exactly the functions whose parts together were sampled above the threshold, under their names after suffix elision and all their aliases; body counts, totals along inline stacks, call targets, head counts and earliest timestamps are those of the samples; the written file holds that profile, and bad inputs, binaries and outputs are reported, never turned into a profile; merging sample files adds them up.",
     ["inputs", "faults"], "all sets of up to two (thorough: three) ranges and branches or four (six) addresses over programs with cold parts, gaps, aliases, shared lines, inline stacks and incomplete positions, with every elision policy and thresholds; all small files of each kind through real DWARF; all kinds of bad input",
     "No test in the build runs profile creation; the repository's own needs large binaries and covers one profile each.",
     ["profile.cc", "profile_creator.cc", "symbol_map.cc", "instruction_map.cc"],
     [("Profile::ComputeProfile, ProcessPerFunctionProfile", "profile.cc"), ("ProfileCreator::CreateProfile, ConvertPrefetchHints, MergeSample", "profile_creator.cc"), ("EnsureEntryInFuncForSymbol", "symbol_map.cc")],
     note="Real profile code on generated programs against an independent attribution oracle; whole runs use real ELF and DWARF images and the real writers and readers.")
prop("P02", "Every instruction of a sampled function is attributed once",
     "For every function body, the instruction map symbolizes exactly the addresses of the function, counts each instruction that has source information once at its inline position, adds no samples, and looks up every instruction by its address and nothing outside the function.",
     ["inputs"], "all assignments of five kinds of inline stack to the bytes of functions up to a length, at low, ordinary and the highest addresses",
     "The test uses a mocked symbolizer with one function.",
     ["instruction_map.cc", "instruction_map.h"],
     [("BuildPerFunctionInstructionMap", "instruction_map.cc"), ("lookup", "instruction_map.h")],
     note="Exhaustive within the bound, with a stand-in symbolizer.")
prop("P03", "The command-line tools do what they are asked, or say they failed",
     "For every combination of flags and inputs, create_gcov, profile_merger, sample_merger, dump_gcov, profile_diff and create_llvm_prof exit with status 0 exactly when the request is well formed and every input could be read and the output written, and then the output holds what the inputs and the flags say it must (the profile of the samples, the sum of the profiles or samples, the listing, the comparison); otherwise they exit with a failure and not by a crash.",
     ["inputs", "configurations"], "all combinations of given, omitted and wrong values of the flags with readable, unreadable and missing inputs, in every output format and version, for each of the tools as an executable",
     "No test runs a tool; flag parsing, defaults, exit codes and the choice of reader and writer live in the mains.",
     ["create_gcov.cc", "create_llvm_prof.cc", "profile_merger.cc", "sample_merger.cc", "dump_gcov.cc", "profile_diff.cc", "profile_reader.cc", "profile_writer.cc"],
     [("main", "create_gcov.cc"), ("main", "profile_merger.cc"), ("main", "create_llvm_prof.cc"), ("main", "profile_diff.cc"), ("main", "dump_gcov.cc")],
     note="The tools are built from the working tree and run as processes in scratch directories; the oracle is the harness's own profile model.")
prop("C13", "Propeller turns a binary and its samples into its files as asked",
     "For every binary, set of perf files and options, Propeller (as a library and as create_llvm_prof --format=propeller) writes exactly the cluster file, symbol order, graphs and statistics that its stages give when run one after the other with the options the flags name; input lists, profile types, name and build-id matching, module names and versions are honoured; a request that cannot be met, or a file that cannot be written completely, is an error and never reported as done; status consumers see a start and an end, and telemetry reporters are called once each, after the files are written; statistics add up counter by counter and are printed as they are.",
     ["inputs", "configurations", "crash points"], "all sets of up to two (three) weighted traces over a program of four functions with every option; all pairs of tool flags; all ill-formed requests; every byte at which the disk is full; every pair of statistics counters",
     "The profile generator tests need prebuilt binaries that cannot be run here, and no test runs the tool or looks at failures.",
     ["llvm_propeller_profile_generator.cc", "llvm_propeller_profile_computer.cc", "create_llvm_prof.cc", "llvm_propeller_telemetry_reporter.cc", "llvm_propeller_statistics.h", "llvm_propeller_statistics.cc", "llvm_propeller_formatting.cc", "llvm_propeller_profile_writer.cc"],
     [("GeneratePropellerProfiles", "llvm_propeller_profile_generator.cc"), ("PropellerProfileComputer::ComputeProfile", "llvm_propeller_profile_computer.cc"), ("CreatePropellerOptionsFromFlags", "create_llvm_prof.cc"), ("PropellerStats", "llvm_propeller_statistics.h")],
     note="Exhaustive within the bounds. The oracle composes the stages, each of which has a property of its own (C01-C06, C10, C12, R03, R06).")
prop("C07", "Progress, consumers and lazy results are consistent",
     "For every tree of weighted jobs and every sequence of updates, the reported job is the first unfinished one, progress is the finished share of the weights plus the running job's share (100 when nothing is left), never goes back while jobs only advance, and everything is done exactly when every job is; consumers of the registry see the calls of some sequential order of concurrent operations, each exactly once; a lazy result is computed at most once, on first use, and stays the same object.",
     ["histories", "schedules"], "all job trees up to a size with update histories, all progress values for a grid of weights; all placements of a second thread's operation inside the callbacks of a first; all evaluate and move histories",
     "Tests check single examples with fixed weights and no concurrency.",
     ["status_provider.cc", "status_provider.h", "status_consumer_registry.cc", "lazy_evaluator.h"],
     [("MultiStatusProvider", "status_provider.cc"), ("StatusConsumerRegistry", "status_consumer_registry.cc"), ("LazyEvaluator", "lazy_evaluator.h")],
     note="Exhaustive within the bounds. Progress uses single precision: on exact whole numbers the next lower value is accepted.")
prop("C08", "Option builders set exactly the field they name",
     "For every sequence of builder calls, the resulting options are the starting options with each named field (nested layout parameters included) set to the last value given and each repeated field extended in order, all other fields and presence bits unchanged.",
     ["histories"], "all call sequences up to three (four when thorough) over every setter and boundary values, from empty and from filled options",
     "Tests never check the builders' nested setters or interactions; a copy-and-paste slip in one of forty setters would go unnoticed.",
     ["llvm_propeller_options_builder.cc", "llvm_propeller_options_builder.h"],
     [("PropellerOptionsBuilder, PropellerCodeLayoutParametersBuilder, InputProfileBuilder", "llvm_propeller_options_builder.cc")],
     note="Oracle: the schema's fields by name, through protobuf reflection.")
prop("S07", "Split debug information gives the same stacks as unsplit",
     "For every program whose units are split between the executable and .dwo files or a .dwp package (DWARF 4: package index version 1 or 2; DWARF 5: .dwo files), in any order and mixed with ordinary units, the symbolizer reports for every address the inline stack the whole unit describes; a unit whose .dwo file is missing, not an object file or of another compilation contributes only its line numbers, a skeleton unit that holds the functions itself is taken as it is, and an unusable package leads back to the .dwo files; no such file affects another unit's stacks.",
     ["inputs", "faults"], "all pairs (thorough: triples) of encoding options of one and two split units; all programs of up to three (thorough: four) units over six ways of being split or not, with good, unknown and broken packages; all placements of up to three (thorough: four) units in small package hash tables, in every column order; every address queried",
     "No test has split debug information; index probing, shared address tables and per-unit bases only show with several units.",
     [SYMZ + "dwarf2reader.cc", SYMZ + "addr2line_inlinestack.cc", SYMZ + "dwarf3ranges.cc", SYMZ + "index_helper.cc"],
     [("CompilationUnit::ProcessSplitDwarf, DwpReader", SYMZ + "dwarf2reader.cc"), ("InlineStackHandler", SYMZ + "addr2line_inlinestack.cc")],
     note="Real symbolizer on generated executables, .dwo files and packages, against the generating description of the unsplit program.")
prop("S08", "The LLVM symbolizer reports the true inline stack",
     "For every binary and code address, the LLVM-based symbolizer reports the functions the debug information places there, innermost first: linkage name if there is one, declaration line, and for each frame the file, directory as listed in the line table (empty for the directory of the compilation), line and discriminator - of the line-table row covering the address for the innermost, of the call site for the others; nothing where there is no function; in a kernel module the rows are those of its .text section.",
     ["inputs"], "all inline trees over small code, all pairs (thorough: triples) of encoding options for DWARF 2-5, one and two units, all arrangements of line rows and sequences, relocatable modules with overlapping sections; every address queried",
     "The addr2line tests need LLVM and fixed binaries and compare a few addresses of each.",
     ["addr2line.cc", "addr2line.h"],
     [("LLVMAddr2line::GetInlineStack, Prepare", "addr2line.cc")],
     note="Same generator as S04, real code linked with the installed LLVM; the expected stack is computed from the generating description.")
prop("C10", "Module names are found by address",
     "For every binary, each code address gets the name of the compilation unit whose ranges contain it (of the full unit in the package for a split one, empty if unnamed) and an error if there is none; a binary without units, or with skeleton units and no package, is refused with an error.",
     ["inputs"], "all lists of up to four (thorough: five) units over DWARF 4/5, named or not, whole or split with or without their package, in three layouts of ranges; every range boundary queried",
     "The unit test queries a few symbols of prebuilt binaries and cannot run here.",
     ["addr2cu.cc", "addr2cu.h"],
     [("CreateDWARFContext, Addr2Cu::GetCompileUnitFileNameForCodeAddress", "addr2cu.cc")],
     note="Generated objects and .dwp packages, against the generating description.")
prop("C01", "Branch frequencies become the branch and fall-through counts they imply",
     "For every program and every set of taken and not-taken branch frequencies, the aggregation keeps each taken count unchanged and gives every block end the fall-through count that conserves flow (what enters a block and does not leave by a branch continues to the next reachable block; known not-taken counts and unconditional last branches take precedence when instruction sizes are known); totals are exact 64-bit sums; the lazy aggregator aggregates once, reports the same errors, and counts every statistic once.",
     ["inputs"], "all fall-through patterns of four (thorough: five) blocks with or without an empty one, all sets of a few taken and not-taken counts over all block boundaries and foreign addresses, with and without known instruction sizes",
     "The tests check one or two aggregations of a fixed profile.",
     ["frequencies_branch_aggregator.cc", "branch_aggregation.cc", "lbr_branch_aggregator.cc", "lazy_evaluator.h"],
     [("FrequenciesBranchAggregator", "frequencies_branch_aggregator.cc"), ("BranchAggregation, GetNumberOfBranchCounters", "branch_aggregation.cc")],
     note="Exhaustive within the bounds.")
prop("C02", "Addresses map to the basic blocks and functions the binary describes",
     "For every binary with a basic block address map, each address resolves to the block that contains it (for branch sources, a block that the address can end; for targets, a block that starts there or contains it), unmapped addresses resolve to nothing; a fall-through is accepted exactly when every block between its ends lies in order in one function and can fall through; the functions chosen are exactly those with a symbol, in a text section, not dropped for duplicate names or addresses, or hot, as the options say.",
     ["inputs"], "all layouts of up to three (thorough: four) functions of up to a few blocks with gaps, empty blocks and kernel addresses; every address queried; all block pairs; all small symbol tables with aliases, duplicates, missing maps and hot sets",
     "The tests use a handful of prebuilt binaries that cannot run here.",
     ["llvm_propeller_binary_address_mapper.cc", "llvm_propeller_binary_address_mapper.h"],
     [("BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress, CanFallThrough", "llvm_propeller_binary_address_mapper.cc"), ("BinaryAddressMapperBuilder", "llvm_propeller_binary_address_mapper.cc")],
     note="Blocks in several address ranges are not supported by the code and not generated.")
prop("C03", "Control flow graphs carry exactly the sampled transfers",
     "For every program and branch aggregation, the program CFG has one graph per function that is touched by a transfer, each with all blocks of the function in address order; every counted branch and fall-through appears as an edge of the right kind (branch, call, return) and summed weight, fall-throughs expanded over all blocks they pass, returns attributed to the block after their call; node frequencies and statistics follow from the edges; profiles with too many branches into the middle of blocks or almost no usable branch are refused.",
     ["inputs"], "all sets of up to a few branches and fall-throughs between all boundaries and interiors of blocks of two functions, over all block attributes",
     "The tests compare a few edges of graphs of prebuilt binaries.",
     ["llvm_propeller_program_cfg_builder.cc", "llvm_propeller_cfg.cc"],
     [("ProgramCfgBuilder::Build, CreateEdges, CreateFallthroughs", "llvm_propeller_program_cfg_builder.cc")],
     note="Edge weights fit in int. Where two kinds of transfer share an edge either kind is accepted.")
prop("C09", "Serialised control flow graphs read back as they were",
     "For every set of control flow graphs, writing and reading the serialised form yields every function, name, block (size, id, attributes) and edge (ends, kind, weight) exactly, and nothing else.",
     ["inputs"], "all sets of up to three graphs over block counts, extreme sizes, all attributes, all edge choices",
     "The test round-trips one graph.",
     ["llvm_propeller_program_cfg_proto_builder.cc"],
     [("ProgramCfgProtoBuilder::AddCfgs, InitWriter, WriteAndClose, Read", "llvm_propeller_program_cfg_proto_builder.cc")],
     note="Exhaustive within the bounds.")
prop("C11", "Graph queries, cloning and dumps describe the graph's nodes and edges",
     "For every control flow graph, after every sequence of edge creation and update, hotness, node frequencies and their percentiles, hot join nodes, edge lookup, clone paths and their numbering, copies of the graph and its dot dump agree with the nodes and edges that were put in; clones start without edges; edge weights never fall below zero.",
     ["inputs", "histories"], "all graphs with up to three (thorough: four) edges over three blocks and a neighbour function, all kinds; every percentile; all short clone paths",
     "The tests query a few hand-made graphs.",
     ["llvm_propeller_cfg.cc", "llvm_propeller_cfg.h", "llvm_propeller_program_cfg.cc", "llvm_propeller_program_cfg.h"],
     [("ControlFlowGraph, CFGNode, CloneCfg", "llvm_propeller_cfg.cc"), ("ProgramCfg::GetHotJoinNodes, GetNodeFrequencyThreshold", "llvm_propeller_program_cfg.cc")],
     note="Exhaustive within the bounds.")
prop("C04", "Code layout places every hot block exactly once, entry first",
     "For every set of control flow graphs and every layout setting, the layout lists each block that must be hot (sampled, entry, landing pads of a function with a hot one, all blocks when functions are not split) exactly once and no other; layout indices are a permutation; in intra-procedural mode each function is one cluster starting with its entry; clusters break at changes of function and at entries; cold parts are numbered in order of appearance; hot blocks keep their order if reordering is off; sections are laid out independently; reported scores are those of the original and final placements.",
     ["inputs"], "all graphs of bounded edges over one to three functions, several block sizes (empty and large ones included), landing pads, clones, initial chains, two sections, all layout modes",
     "The tests check the layouts of a few fixed profiles.",
     ["llvm_propeller_code_layout.cc", "llvm_propeller_node_chain_builder.cc", "llvm_propeller_chain_cluster_builder.cc", "llvm_propeller_node_chain.cc"],
     [("CodeLayout::OrderAll, GenerateLayoutBySection", "llvm_propeller_code_layout.cc"), ("NodeChainBuilder::InitNodeChains", "llvm_propeller_node_chain_builder.cc")],
     note="Exhaustive within the bounds. Frequencies sum within int; no fall-through or jump edge enters an entry block (the graph builder makes those calls).")
prop("C05", "Chains are built by the best-gain merges of extended TSP",
     "For every control flow graph and setting, an edge's score is its weight times the fall-through, forward or backward weight scaled by distance as documented; forced paths are exactly the chains of mutually exclusive edges with cycles cut; each assembly of two chains, in every merge order and split position, has the block order and the score gain its definition says; both queues return the best assembly after any history; and the final block order is the one reached by always applying the best positive gain.",
     ["inputs", "histories"], "all graphs of bounded edges as for C04; all assemblies of given chains over five blocks including empty ones; all edge sets of up to four blocks for forced paths; all queue histories of length five (thorough: six)",
     "The tests verify single merges on small graphs; a wrong gain still gives a valid layout.",
     ["llvm_propeller_code_layout_scorer.cc", "llvm_propeller_node_chain_assembly.cc", "llvm_propeller_node_chain_builder.cc", "llvm_propeller_node_chain.cc", "llvm_propeller_node_chain_builder.h"],
     [("PropellerCodeLayoutScorer::GetEdgeScore", "llvm_propeller_code_layout_scorer.cc"), ("NodeChainAssembly", "llvm_propeller_node_chain_assembly.cc"), ("NodeChainBuilder::UpdateNodeChainAssembly, GetForcedPaths", "llvm_propeller_node_chain_builder.cc"), ("NodeChain::MergeWith", "llvm_propeller_node_chain.cc")],
     note="Compared with an independent brute-force implementation; distances are powers of two there so that all sums are exact and ties are decided as documented.")
prop("C12", "Functions are ordered by call-chain clustering",
     "For every set of chains, clusters merge in decreasing order of the weight entering a chain, each with the predecessor it gets most weight from, unless the call is cold for its callee, a cluster is over the size limit, the predecessor's density would fall below an eighth, or the chain is hardly executed; clusters are then placed by decreasing density, or in original order if clustering is off.",
     ["inputs"], "all call graphs of up to three (thorough: four) edges over three or four functions of several sizes, light and very heavy weights, size limits, both modes",
     "The tests have one clustering of a fixed profile.",
     ["llvm_propeller_chain_cluster_builder.cc", "llvm_propeller_chain_cluster_builder.h", "llvm_propeller_code_layout.cc"],
     [("ChainClusterBuilder::BuildClusters, MergeWithBestPredecessorCluster", "llvm_propeller_chain_cluster_builder.cc")],
     note="Compared with an independent implementation. Sums of frequencies fit in int.")
prop("C06", "Cluster and symbol order files say what the layout is",
     "For every layout, the cluster file has the version line, and for each section and function its module, all its names, its clone paths and one line per cluster with the block ids (and clone numbers) in order, in the chosen encoding version; the symbol order file lists for every cluster in layout order all alias symbols of its section, then the cold parts of functions that still have some in cold order; the optional dumps describe the same graphs.",
     ["inputs"], "all profiles of up to two (thorough: three) functions in two sections, all orders of their clusters and cold parts, aliases, modules, clones, both encodings, verbose output and dumps",
     "The tests compare the files of a few profiles that cannot be read here.",
     ["llvm_propeller_profile_writer.cc", "llvm_propeller_profile_writer.h"],
     [("PropellerProfileWriter::Write", "llvm_propeller_profile_writer.cc")],
     note="Exhaustive within the bounds.")

prop("R01", "Text sample files round-trip, add up and are refused when broken",
     "For every set of address, range and branch counts, writing the text sample file and reading it back yields exactly those counts; reading several files sums them per address, range and branch; totals and maximum counts follow from the counts; a file that breaks the format (at any byte) is refused or read as the counts it spells; a write that fails, at whatever operation, is reported.",
     ["inputs", "faults"], "all small count maps over extreme addresses and counts, all single and pair merges, every truncation and byte change of sample files, failure of every file operation",
     "The repository has no test of the sample readers.",
     ["sample_reader.cc", "sample_reader.h"],
     [("TextSampleReaderWriter::Append, Write, IsFileExist", "sample_reader.cc"), ("SampleReader::GetTotalCount, GetMaxCount", "sample_reader.cc")],
     note="Exhaustive within the bounds.")
prop("R02", "Branch stacks become exactly the branches and ranges of the profiled binary",
     "For every perf file, each branch stack entry whose ends lie in the profiled file counts one branch (file offsets), each pair of successive taken branches whose fall-through lies in it counts one range, and sampled addresses in it count one each; entries outside, reversed or overlong ranges and wrong-path branches count nothing; the profiled file is the one the given name, base name or build id selects; several files add up and the first recorded sample time of each address is kept; unreadable input is refused.",
     ["inputs"], "all branch stacks of up to three (thorough: more) entries over a location grid of the binary, a library and unmapped memory, with spec flags; all sequences of small files; all name and build-id combinations; all other event kinds",
     "No test in the repository reads LBR samples.",
     ["sample_reader.cc", "sample_reader.h"],
     [("PerfDataSampleReader::Append, MatchBinary", "sample_reader.cc")],
     note="The decoding of the perf.data file itself belongs to the quipper library, replaced by a stand-in that yields the same parsed events.")
prop("R03", "Propeller counts the branches and fall-throughs of the sampled LBR stacks",
     "For every perf file, each branch stack entry becomes one branch between the symbolic addresses of the binary (unknown ends marked as such), each successive pair one fall-through from the older target to the newer source, and nothing else; statistics report the profiles and counters used; profiles that do not match or that hold no samples are skipped, all unusable is an error; branch frequencies keep only sources that the code confirms to be branches; files are provided one by one, each exactly once.",
     ["inputs", "histories"], "all stacks of up to three entries over locations in and outside the binary; all sequences of good, empty, mismatching and unreadable profiles; all code bytes around a branch source; all provider histories",
     "The tests use prebuilt perf files that cannot be read here.",
     ["llvm_propeller_perf_lbr_aggregator.cc", "llvm_propeller_perf_branch_frequencies_aggregator.cc", "perfdata_reader.cc", "mini_disassembler.cc", "llvm_propeller_file_perf_data_provider.cc"],
     [("PerfDataReader::AggregateLBR", "perfdata_reader.cc"), ("PerfLbrAggregator::AggregateLbrData", "llvm_propeller_perf_lbr_aggregator.cc"), ("MiniDisassembler", "mini_disassembler.cc"), ("GenericFilePerfDataProvider", "llvm_propeller_file_perf_data_provider.cc")],
     note="Fall-throughs with an unknown end carry no information and are accepted either way.")
prop("R04", "Samples are attributed to the mappings of the profiled binary",
     "For every perf file, the mappings selected are exactly those with the given absolute name, with the base name of a relative one, with a name the build id gives, or of the kernel when that is profiled; runtime addresses translate to the symbolic address of the same byte in every process by the mapping that covers it (first to last byte, end of address space included) and to nothing outside; conflicting mappings of one process and a binary that is not in the profile are errors.",
     ["inputs"], "all sets of up to a few mappings over pids, address grids up to the end of the address space, page offsets, names and build ids; every border address",
     "The tests use one perf file.",
     ["perfdata_reader.cc", "llvm_propeller_binary_content.cc"],
     [("SelectPerfInfo, SelectMMaps", "perfdata_reader.cc"), ("PerfDataReader::RuntimeAddressToBinaryAddress", "perfdata_reader.cc"), ("GetBuildIdNames", "perfdata_reader.cc")],
     note="Zero-length mappings and sets mixing absolute and relative names of one build id are not explored.")
prop("R05", "Threads map to the process they belonged to at the time of the sample",
     "For every sequence of thread, fork and sample events, in any order of their time stamps, looking up a thread at a time yields the process of the latest event at or before it, or nothing if there is none.",
     ["histories"], "all sequences of up to six (thorough: seven) events over threads, processes and times; every lookup",
     "The tests check two or three events.",
     ["spe_tid_pid_provider.cc", "spe_tid_pid_provider.h"],
     [("SpeTidPidProvider", "spe_tid_pid_provider.cc")],
     note="Events with equal time stamps may be taken in either order.")
prop("R06", "Arm SPE samples become the branch and execution counts they stand for",
     "For every SPE record stream, each sampled branch of the profiled binary counts as taken (with its target) or not taken at the symbolic or file address of its instruction, attributed through the thread's process at the time; the conversion to AutoFDO samples makes straight-line ranges whose counts are the flow entering them, branches with their counts, and totals that agree with the ranges; unreadable input is refused.",
     ["inputs", "histories"], "all streams of up to a few records over branch kinds, outcomes, addresses, threads and exec/fork events; all subsets of branches in a row of instructions with all small counts",
     "The tests use one SPE trace that cannot be read here.",
     ["spe_sample_reader.cc", "simple_spe_sample_reader.cc", "branch_frequencies_autofdo_sample.cc", "llvm_propeller_perf_branch_frequencies_aggregator.cc", "perfdata_reader.cc"],
     [("PerfDataReader::AggregateSpe", "perfdata_reader.cc"), ("ConvertBranchFrequenciesToAutofdoSample", "branch_frequencies_autofdo_sample.cc"), ("SimpleSpeSampleReader", "simple_spe_sample_reader.cc")],
     note="The simple reader uses the binary's first mapping only, as documented in the code; SPE packets are decoded by quipper (stand-in).")
prop("R07", "Facts about a binary are those in its headers, notes and module info",
     "For every ELF file, the build id is the descriptor of its GNU build-id note and no other note, segments are its executable loads, the position-independence flag and kernel-module facts (name, description, text section index and address) are what the headers and .modinfo say; files that are no object files are refused.",
     ["inputs"], "all small sets of notes, segments and file types; every string of up to eight (thorough: ten) symbols over a .modinfo alphabet",
     "The tests look at a few prebuilt binaries.",
     ["llvm_propeller_binary_content.cc"],
     [("GetBinaryContent, ELFFileUtil", "llvm_propeller_binary_content.cc")],
     note="Exhaustive within the bounds.")
