"""Which harness decides which property, and what it is built from."""
SYM = ["util/symbolize/" + f for f in (
    "addr2line_inlinestack.cc bytereader.cc functioninfo.cc dwarf2reader.cc dwarf3ranges.cc elf_reader.cc index_helper.cc").split()]
ASAN = "-fsanitize=address -fno-omit-frame-pointer"

PROF = SYM + "gcov.cc profile_reader.cc profile_writer.cc symbol_map.cc source_info.cc legacy_addr2line.cc".split()
LPROF = SYM + "addr2line.cc source_info.cc symbol_map.cc profile_writer.cc llvm_profile_writer.cc llvm_profile_reader.cc gcov.cc instruction_map.cc profile_symbol_list.cc".split()
CFG = ("frequencies_branch_aggregator.cc lbr_branch_aggregator.cc branch_aggregation.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc "
       "llvm_propeller_cfg.cc llvm_propeller_formatting.cc llvm_propeller_program_cfg.cc llvm_propeller_program_cfg_builder.cc llvm_propeller_program_cfg_proto_builder.cc "
       "llvm_propeller_statistics.cc addr2cu.cc status_provider.cc").split()

LAYOUT = "llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain_builder.cc llvm_propeller_chain_cluster_builder.cc llvm_propeller_code_layout.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_profile_writer.cc".split()
CREATE = "profile.cc profile_creator.cc sample_reader.cc simple_spe_sample_reader.cc".split()

LCREATE = LPROF + CREATE + "profile_reader.cc spe_tid_pid_provider.cc perfdata_reader.cc spe_sample_reader.cc branch_frequencies_autofdo_sample.cc mini_disassembler.cc llvm_propeller_binary_content.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_perf_branch_frequencies_aggregator.cc llvm_propeller_statistics.cc llvm_propeller_cfg.cc addr2cu.cc".split()
PROPELLER = [f for f in CFG + LAYOUT if f not in LCREATE] + ("llvm_propeller_options_builder.cc llvm_propeller_profile_computer.cc llvm_propeller_profile_generator.cc "
             "llvm_propeller_telemetry_reporter.cc status_consumer_registry.cc").split()

TARGETS = {
    "h_bytes": dict(mode="gcov", harness=["h_bytes.cc"], repo=["util/symbolize/bytereader.cc"], san=ASAN),
    "h_rangemap": dict(mode="gcov", harness=["h_rangemap.cc"], repo=["util/symbolize/dwarf3ranges.cc", "util/symbolize/bytereader.cc"]),
    "h_ranges": dict(mode="gcov", harness=["h_ranges.cc"], repo=["util/symbolize/dwarf3ranges.cc", "util/symbolize/bytereader.cc"], san=ASAN),
    "h_lines": dict(mode="gcov", harness=["h_lines.cc"], repo=SYM, san=ASAN),
    "h_inline": dict(mode="gcov", harness=["h_inline.cc"], repo=SYM + ["legacy_addr2line.cc", "source_info.cc"], san=ASAN),
    "h_split": dict(mode="gcov", harness=["h_split.cc"], repo=SYM + ["legacy_addr2line.cc", "source_info.cc"], san=ASAN),
    "h_llvm_inline": dict(mode="llvm", harness=["h_inline.cc"], repo=["addr2line.cc", "source_info.cc", "addr2cu.cc"]),
    "h_profile": dict(mode="gcov", harness=["h_profile.cc"], repo=PROF),
    "h_symmap": dict(mode="gcov", harness=["h_symmap.cc"], repo=PROF),
    "h_llvm": dict(mode="llvm", harness=["h_llvm.cc"], repo=LPROF, protos=["perf_data"]),
    "h_cfg": dict(mode="llvm", harness=["h_cfg.cc"], repo=CFG, protos=["llvm_propeller_cfg", "llvm_propeller_options"]),
    "h_layout": dict(mode="llvm", harness=["h_layout.cc"], repo=CFG + LAYOUT, protos=["llvm_propeller_cfg", "llvm_propeller_options"]),
    "h_elf": dict(mode="gcov", harness=["h_elf.cc"], repo=["util/symbolize/elf_reader.cc"], san=ASAN),
    "h_samples": dict(mode="llvm", harness=["h_samples.cc"], repo=["sample_reader.cc"], protos=["perf_data"]),
    "h_perf": dict(mode="llvm", harness=["h_perf.cc"], repo=LPROF + "perfdata_reader.cc spe_tid_pid_provider.cc spe_sample_reader.cc simple_spe_sample_reader.cc sample_reader.cc branch_frequencies_autofdo_sample.cc mini_disassembler.cc llvm_propeller_binary_content.cc llvm_propeller_file_perf_data_provider.cc llvm_propeller_perf_lbr_aggregator.cc llvm_propeller_perf_branch_frequencies_aggregator.cc llvm_propeller_statistics.cc llvm_propeller_cfg.cc addr2cu.cc".split(), protos=["perf_data", "llvm_propeller_cfg", "llvm_propeller_options"]),
    "h_create": dict(mode="gcov", harness=["h_create.cc"], repo=PROF + CREATE + ["instruction_map.cc"], protos=["perf_data"]),
    "h_llvm_create": dict(mode="llvm", harness=["h_create.cc"], repo=LCREATE, protos=["perf_data", "llvm_propeller_cfg", "llvm_propeller_options"]),
    "h_tools": dict(mode="gcov", harness=["h_tools.cc"], repo=PROF + CREATE + ["instruction_map.cc"], protos=["perf_data"]),
    "h_llvm_tools": dict(mode="llvm", harness=["h_tools.cc"], repo=LCREATE, protos=["perf_data", "llvm_propeller_cfg", "llvm_propeller_options"]),
    # The tools themselves, run by h_tools and h_llvm_tools.
    "t_create_gcov": dict(mode="gcov", harness=[], repo=PROF + CREATE + ["instruction_map.cc", "create_gcov.cc"], protos=["perf_data"]),
    "t_sample_merger": dict(mode="gcov", harness=[], repo=PROF + CREATE + ["instruction_map.cc", "sample_merger.cc"], protos=["perf_data"]),
    "t_profile_merger": dict(mode="gcov", harness=[], repo=PROF + ["profile_merger.cc"]),
    "t_dump_gcov": dict(mode="gcov", harness=[], repo=PROF + ["dump_gcov.cc"]),
    "t_llvm_profile_merger": dict(mode="llvm", harness=[], repo=LPROF + ["profile_reader.cc", "profile_merger.cc"], protos=["perf_data"]),
    "t_profile_diff": dict(mode="llvm", harness=[], repo=LPROF + ["profile_diff.cc"], protos=["perf_data"]),
    "t_create_llvm_prof": dict(mode="llvm", harness=[], repo=LCREATE + PROPELLER + ["create_llvm_prof.cc"], protos=["perf_data", "llvm_propeller_cfg", "llvm_propeller_options"]),
    "h_propeller": dict(mode="llvm", harness=["h_propeller.cc"], repo=LCREATE + PROPELLER, protos=["perf_data", "llvm_propeller_cfg", "llvm_propeller_options"]),
    "h_jobs": dict(mode="llvm", harness=["h_jobs.cc"], repo="status_provider.cc status_consumer_registry.cc branch_aggregation.cc llvm_propeller_options_builder.cc".split(), protos=["llvm_propeller_options"]),
}
PROPS = {
    "C01": dict(targets=["h_cfg"]),
    "C02": dict(targets=["h_cfg"]),
    "C03": dict(targets=["h_cfg"]),
    "C04": dict(targets=["h_layout"]),
    "C05": dict(targets=["h_layout"]),
    "C06": dict(targets=["h_layout"]),
    "C12": dict(targets=["h_layout"]),
    "C13": dict(targets=["h_propeller"], tools=["t_create_llvm_prof"]),
    "C09": dict(targets=["h_cfg"]),
    "C11": dict(targets=["h_cfg"]),
    "L01": dict(targets=["h_llvm"]),
    "L02": dict(targets=["h_llvm"]),
    "L03": dict(targets=["h_llvm"]),
    "L04": dict(targets=["h_llvm"]),
    "C07": dict(targets=["h_jobs"]),
    "C08": dict(targets=["h_jobs"]),
    "R01": dict(targets=["h_samples"]),
    "R02": dict(targets=["h_samples"]),
    "R03": dict(targets=["h_perf"]),
    "R04": dict(targets=["h_perf"]),
    "R05": dict(targets=["h_perf"]),
    "R06": dict(targets=["h_perf"]),
    "R07": dict(targets=["h_perf"]),
    "P01": dict(targets=["h_create", "h_llvm_create"]),
    "P03": dict(targets=["h_tools", "h_llvm_tools"], tools=["t_create_gcov", "t_sample_merger", "t_profile_merger", "t_dump_gcov", "t_llvm_profile_merger", "t_profile_diff", "t_create_llvm_prof"]),
    "P02": dict(targets=["h_llvm"]),
    "S01": dict(targets=["h_bytes"]),
    "S02": dict(targets=["h_lines"]),
    "S03": dict(targets=["h_ranges"]),
    "S04": dict(targets=["h_inline"]),
    "S05": dict(targets=["h_rangemap"]),
    "C10": dict(targets=["h_llvm_inline"]),
    "S07": dict(targets=["h_split"]),
    "S08": dict(targets=["h_llvm_inline"]),
    "S06": dict(targets=["h_elf"]),
    "G01": dict(targets=["h_profile"]),
    "G02": dict(targets=["h_profile"]),
    "G03": dict(targets=["h_profile"]),
    "G04": dict(targets=["h_profile"]),
    "M01": dict(targets=["h_symmap"]),
    "M02": dict(targets=["h_symmap"]),
    "M03": dict(targets=["h_symmap"]),
    "M04": dict(targets=["h_symmap"]),
    "M05": dict(targets=["h_symmap"]),
    "M06": dict(targets=["h_symmap"]),
}
