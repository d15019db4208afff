// C13: Propeller from the binary and the perf data to its files.
#include "base/logging.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
#include <csignal>
#include <functional>
#include "mc.h"
#include "dwarfgen.h"
#include "elfgen.h"
#include "exec.h"
#include "isolate.h"
#include "perfgen.h"
#include "propgen.h"
#include "addr2cu.h"
#include "frequencies_branch_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_formatting.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_statistics.h"
#include "llvm_propeller_telemetry_reporter.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
using mc::Ctx;
using namespace pg;
using perfgen::Data;
namespace {
constexpr uint64_t kText = 0x300201000, kLoad = 0x555500001000;
const char kProg[] = "/usr/bin/prog";
const std::string kId("\x12\xab\x00\xff\x34", 5);
Blk B(uint32_t off, uint32_t size, int flags, int id) { return {off, size, flags, id}; }
struct World {
  bool arm = false, dwarf = true, id = true, map = true, pie = true;
  std::vector<Fn> Fns() const {
    std::vector<Fn> v(4);
    v[0].addr = kText, v[0].names = {"f", "f_alias"};
    v[0].blks = {B(0, 4, kFall, 0), B(4, 4, kFall, 1), B(8, 0x300, kFall, 2), B(0x308, 4, kRet, 4), B(0x30c, 4, kPad | kRet, 3)};
    v[1].addr = kText + 0x400, v[1].names = {"g"};
    v[1].blks = {B(0, 8, kFall, 0), B(8, 0x200, kFall, 1), B(0x208, 4, kRet, 2)};
    v[2].addr = kText + 0x700, v[2].names = {"h"};
    v[2].blks = {B(0, 4, kFall, 0), B(4, 4, kRet | kTail, 1)};
    v[3].addr = kText + 0x800, v[3].names = {"cold"}, v[3].section = ".init";
    v[3].blks = {B(0, 4, kFall, 0), B(4, 4, kRet, 1)};
    return v;
  }
  std::string Elf() const {
    ElfGen g;
    g.etype = pie ? 3 : 2;
    g.machine = arm ? 183 : 62;
    ElfSegment s;
    s.offset = 0x1000, s.vaddr = kText, s.filesz = s.memsz = 0x1000;
    g.segs = {s};
    std::string code;
    if (arm) {
      Buf b(false);
      for (int i = 0; i < 0x200; ++i) b.u32(i % 2 ? 0x54000040 : 0xd503201f);
      code = b.s;
    } else {
      code = std::string(0x800, '\x90');
      auto at = [&](int o, const std::string& x) { code.replace(o, x.size(), x); };
      at(3, "\x75\x02");
      at(7, std::string("\xe8\0\0\0\0", 5));
      at(0x307, "\xeb\x02");
      at(0x407, "\x75\x02");
      at(0x60b, "\xc3");
      at(0x707, "\x06");
    }
    int text = g.Add(".text", code);
    g.secs.back().flags = 6, g.secs.back().addr = kText, g.secs.back().align = 0x1000;
    int init = g.Add(".init", std::string(0x100, '\x90'));
    g.secs.back().flags = 6, g.secs.back().addr = kText + 0x800;
    if (id) {
      Buf n(false);
      n.u32(4).u32(kId.size()).u32(3).raw(std::string("GNU\0", 4)).raw(kId);
      while (n.size() % 4) n.u8(0);
      g.Add(".note.gnu.build-id", n.s, 7);
      g.secs.back().flags = 2, g.secs.back().align = 4;
    }
    std::vector<ElfSym> syms;
    auto fns = Fns();
    for (int k = 0; k < 2; ++k) {
      Buf m(false);
      for (auto& f : fns) {
        if ((f.section == ".text") != (k == 0)) continue;
        m.u8(2).u8(0).u64(f.addr).uleb(f.blks.size());
        uint32_t end = 0;
        for (auto& b : f.blks) {
          m.uleb(b.id).uleb(b.off - end).uleb(b.size).uleb(Md(b.flags).encode());
          end = b.off + b.size;
        }
        for (auto& n : f.names) {
          ElfSym e;
          e.name = n, e.value = f.addr, e.size = end, e.shndx = k ? init : text;
          syms.push_back(e);
        }
      }
      if (!map) continue;
      g.Add(".llvm_bb_addr_map", m.s, 0x6fff4c0a);
      g.secs.back().link = k ? init : text;
    }
    g.AddSymtab(".symtab", 2, ".strtab", syms);
    if (dwarf) {
      dw::File f;
      for (int k = 0; k < 2; ++k) {
        dw::Unit u(&f, 4);
        u.String(u.root, dw::AT_name, dw::F_string, k ? "b.cc" : "dir/a.cc");
        u.Addr(u.root, dw::AT_low_pc, dw::F_addr, fns[k].addr);
        u.Unsigned(u.root, dw::AT_high_pc, dw::F_data8, 0x310);
        u.Finish();
      }
      dw::PatchRefs(&f);
      g.Add(".debug_abbrev", f.abbrev.s);
      g.Add(".debug_info", f.info.s);
      g.Add(".debug_str", f.str.s);
    }
    return g.Build();
  }
};
// What was sampled: a list of traces with weights.
struct Loc2 {
  int f, b;
  bool last;
};
struct Trace {
  std::vector<std::pair<Loc2, Loc2>> hops;  // oldest first
};
const std::vector<Trace>& Traces() {
  static const std::vector<Trace> t = {
      {{{{0, 0, true}, {0, 2, false}}, {{0, 2, true}, {0, 0, false}}}},                          // loop in f
      {{{{0, 1, true}, {1, 0, false}}, {{1, 2, true}, {0, 2, false}}}},                          // f calls g, g returns
      {{{{1, 0, true}, {1, 2, false}}}},                                                         // branch in g
      {{{{2, 0, true}, {2, 0, false}}, {{2, 1, true}, {2, 0, false}}, {{2, 1, true}, {1, 0, false}}}},  // h loops and calls g
      {{{{0, 1, true}, {0, 4, false}}}},                                                         // exception in f
      {{{{-1, 0, false}, {0, 0, false}}, {{0, 3, true}, {-1, 0, false}}}},                       // straight through f
      {{{{3, 0, true}, {3, 1, false}}, {{3, 1, true}, {1, 0, false}}}},                          // a function outside .text
      {{{{0, 2, true}, {1, 1, false}}, {{1, 1, true}, {0, 3, false}}}},                          // into the middle of g
  };
  return t;
}
uint64_t Vaddr(const Loc2& l) {
  if (l.f < 0) return 0;
  static const std::vector<Fn> fns = World().Fns();
  return l.last ? fns[l.f].End(l.b) - 1 : fns[l.f].Start(l.b);
}
uint64_t Run(const Loc2& l, bool arm) {
  if (l.f < 0) return 0x123;
  uint64_t a = Vaddr(l) - kText + kLoad;
  return arm && l.last ? a - 3 : a;
}
struct Weighted {
  int trace, times;
};
// The mapped file: the program; another with no build id; the program under
// another name; the file at `self` when it had another build id.
std::string Perf(const std::vector<Weighted>& w, bool spe, int naming = 0, const std::string& self = "") {
  Data d;
  const std::string name = naming == 3 ? self : std::vector<std::string>{kProg, "/usr/bin/other", "/usr/bin/renamed"}[naming];
  d.MMap(1, kLoad, 0x1000, 0x1000, name);
  if (naming != 1) d.BuildId(naming == 3 ? "\x77\x78" : kId, name);
  for (auto& x : w)
    for (int k = 0; k < x.times; ++k) {
      auto& hops = Traces()[x.trace].hops;
      if (spe) {
        std::string tr;
        for (auto& [from, to] : hops) {
          quipper::ArmSpeDecoder::Record r;
          r.event.retired = r.op.is_br_eret = true;
          r.context.el1 = true;
          r.context.id = 1;
          r.ip.addr = Run(from, true);
          r.tgt_br_ip.addr = Run(to, true);
          tr += quipper::EncodeSpeRecord(r);
        }
        d.Aux(tr);
        continue;
      }
      auto* s = d.Sample(1, kLoad, 1);
      for (auto h = hops.rbegin(); h != hops.rend(); ++h) Data::Branch(s, Run(h->first, false), Run(h->second, false));
    }
  return d.Ser();
}
// ---------------------------------------------------------------- the model
struct Out {
  bool ok = true;
  std::string err, stats;
  std::map<std::string, std::string> files;
  std::string Show() const {
    if (!ok) return "fails: " + err;
    std::string s;
    for (auto& [n, t] : files) s += "[" + n + "]\n" + t;
    return s;
  }
};
// The edges of a graph are in no particular order.
std::string Sorted(const std::string& name, const std::string& text) {
  if (name.find(".dot") == std::string::npos) return text;
  std::istringstream in(text);
  std::vector<std::string> v;
  std::string l, o;
  while (std::getline(in, l)) v.push_back(l);
  std::stable_sort(v.begin(), v.end(), [](const std::string& a, const std::string& b) {
    bool ea = a.find("->") != std::string::npos, eb = b.find("->") != std::string::npos;
    return ea && eb && a < b;
  });
  for (auto& x : v) o += x + "\n";
  return o;
}
void Collect(const std::string& dir, const std::string& prefix, std::map<std::string, std::string>* out) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (auto* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    struct stat st;
    if (stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) Collect(p, prefix + n + "/", out);
    else (*out)[prefix + n] = Sorted(n, ReadFile(p));
  }
  closedir(d);
}
// The stages one after the other, each checked by a property of its own.
Out Stages(PropellerOptions o, const std::vector<std::string>& names, ProfileType type, const std::string& dir) {
  Out r;
  auto fail = [&](const std::string& e) {
    r.ok = false;
    r.err = e;
    return r;
  };
  if (names.empty()) return fail("no profile");
  auto content = GetBinaryContent(o.binary_name());
  if (!content.ok()) return fail(content.status().ToString());
  PropellerStats stats;
  absl::flat_hash_set<uint64_t> ends;
  auto provider = std::make_unique<GenericFilePerfDataProvider>(names);
  std::function<absl::StatusOr<BranchAggregation>(const BinaryAddressMapper&)> aggregate;
  if (type == PERF_LBR) {
    auto a = PerfLbrAggregator(std::move(provider)).AggregateLbrData(o, **content, stats);
    if (!a.ok()) return fail(a.status().ToString());
    for (auto& [b, n] : a->branch_counters) ends.insert(b.from), ends.insert(b.to);
    for (auto& [b, n] : a->fallthrough_counters) ends.insert(b.from), ends.insert(b.to);
    aggregate = [a](const BinaryAddressMapper&) -> absl::StatusOr<BranchAggregation> {
      return BranchAggregation{.branch_counters = a->branch_counters, .fallthrough_counters = a->fallthrough_counters};
    };
  } else {
    auto a = PerfBranchFrequenciesAggregator(std::move(provider)).AggregateBranchFrequencies(o, **content, stats);
    if (!a.ok()) return fail(a.status().ToString());
    for (auto& [b, n] : a->taken_branch_counters) ends.insert(b.from), ends.insert(b.to);
    for (auto& [b, n] : a->not_taken_branch_counters) ends.insert(b.address);
    bool arm = (*content)->object_file->getArch() == llvm::Triple::aarch64;
    aggregate = [a, arm](const BinaryAddressMapper& m) {
      PropellerStats none;
      return FrequenciesBranchAggregator(*a, PropellerStats(), arm ? std::optional<int>(4) : std::nullopt).Aggregate(m, none);
    };
  }
  auto mapper = BuildBinaryAddressMapper(o, **content, stats, &ends);
  if (!mapper.ok()) return fail(mapper.status().ToString());
  auto agg = aggregate(**mapper);
  if (!agg.ok()) return fail(agg.status().ToString());
  std::unique_ptr<Addr2Cu> cu;
  if (o.output_module_name()) {
    if (!(*content)->dwarf_context) return fail("no debug information");
    cu = std::make_unique<Addr2Cu>(*(*content)->dwarf_context);
  }
  auto cfg = ProgramCfgBuilder(mapper->get(), stats).Build(*agg, std::move((*content)->file_content), cu.get());
  if (!cfg.ok()) return fail(cfg.status().ToString());
  auto layout = GenerateLayoutBySection(**cfg, o.code_layout_params(), stats.code_layout_stats);
  PropellerProfile p{.program_cfg = std::move(*cfg), .functions_cluster_info_by_section_name = std::move(layout)};
  std::string to = dir + "/model";
  if (mkdir(to.c_str(), 0755)) abort();
  o.set_cluster_out_name(to + "/cluster");
  if (!o.symbol_order_out_name().empty()) o.set_symbol_order_out_name(to + "/order");
  if (o.has_cfg_dump_dir_name()) o.set_cfg_dump_dir_name(to + "/dump");
  PropellerProfileWriter(o).Write(p);
  Collect(to, "", &r.files);
  r.stats = stats.DebugString();
  return r;
}
// Defaults a user of create_llvm_prof gets.
PropellerOptions FlagDefaults() {
  PropellerOptions o;
  auto* p = o.mutable_code_layout_params();
  p->set_chain_split(true);
  p->set_chain_split_threshold(0);
  p->set_backward_jump_distance(680);
  p->set_forward_jump_distance(1024);
  p->set_call_chain_clustering(false);
  p->set_reorder_hot_blocks(true);
  p->set_split_functions(true);
  p->set_inter_function_reordering(false);
  return o;
}
std::vector<Weighted> PickTraces(Ctx& c, int most, bool few) {
  std::vector<Weighted> w;
  int n = c.pick(most + 1), from = 0;
  for (int i = 0; i < n; ++i) {
    int left = Traces().size() - from;
    if (left <= 0) break;
    from += c.pick(left);
    w.push_back({from, few ? 3 : c.of({1, 7})});
    ++from;
  }
  return w;
}
std::string Show(const std::vector<Weighted>& w) {
  std::string s = "traces";
  for (auto& x : w) s += " " + std::to_string(x.trace) + "x" + std::to_string(x.times);
  return s;
}
struct Setting {
  const char* name;
  std::vector<std::string> args;
  std::function<void(PropellerOptions*)> set;
};
// D stands for the scratch directory.
const std::vector<Setting>& Settings() {
  static const std::vector<Setting> v = {
      {"nothing", {}, [](PropellerOptions*) {}},
      {"symbol order", {"--propeller_symorder=D/order"}, [](PropellerOptions* o) { o->set_symbol_order_out_name("D/order"); }},
      {"graphs", {"--propeller_cfg_dump_dir=D/dump"}, [](PropellerOptions* o) { o->set_cfg_dump_dir_name("D/dump"); }},
      {"no chain split", {"--nopropeller_chain_split"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_chain_split(false); }},
      {"split threshold", {"--propeller_chain_split_threshold=16"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_chain_split_threshold(16); }},
      {"verbose", {"--propeller_verbose_cluster_output"}, [](PropellerOptions* o) { o->set_verbose_cluster_output(true); }},
      {"call chains", {"--propeller_call_chain_clustering"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_call_chain_clustering(true); }},
      {"between functions", {"--propeller_inter_function_ordering"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_inter_function_reordering(true); }},
      {"forward distance", {"--propeller_forward_jump_distance=900"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_forward_jump_distance(900); }},
      {"backward distance", {"--propeller_backward_jump_distance=900"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_backward_jump_distance(900); }},
      {"profiled name", {"--profiled_binary_name=other"}, [](PropellerOptions* o) { o->set_profiled_binary_name("other"); }},
      {"no build id", {"--ignore_build_id"}, [](PropellerOptions* o) { o->set_ignore_build_id(true); }},
      {"split only", {"--propeller_split_only"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_reorder_hot_blocks(false); }},
      {"layout only", {"--propeller_layout_only"}, [](PropellerOptions* o) { o->mutable_code_layout_params()->set_split_functions(false); }},
      {"modules", {"--propeller_output_module_name"}, [](PropellerOptions* o) { o->set_output_module_name(true); }},
      {"version 0", {"--propeller_cluster_encoding_version=1"}, [](PropellerOptions* o) { o->set_cluster_out_version(VERSION_0); }},
      {"http", {"--http"}, [](PropellerOptions* o) { o->set_http(true); }},
      {"symbol list", {"--prof_sym_list"}, [](PropellerOptions*) {}},
      {"name given twice", {"--gcov=D/cluster"}, [](PropellerOptions*) {}},
  };
  return v;
}
std::string In(std::string s, const std::string& dir) {
  size_t at = s.find("D/");
  return at == std::string::npos ? s : s.replace(at, 1, dir);
}
void Place(PropellerOptions* o, const std::string& dir) {
  if (o->has_symbol_order_out_name()) o->set_symbol_order_out_name(In(o->symbol_order_out_name(), dir));
  if (o->has_cfg_dump_dir_name()) o->set_cfg_dump_dir_name(In(o->cfg_dump_dir_name(), dir));
}
// ---------------------------------------------------------------- flags
void Flags(Ctx& c) {
  auto& all = Settings();
  size_t i = c.pick(all.size()), j = i + c.pick(all.size() - i);
  World w;
  int type = c.pick(3);  // perf, perf_spe, the default
  w.arm = type == 1;
  std::vector<std::vector<Weighted>> in = {{{0, 3}, {1, 2}, {2, 1}, {3, 2}, {4, 1}, {6, 1}}};
  if (i == 4 && j == 7) in = {{{0, 1}, {1, 5}, {2, 30}}};  // splitting pays off
  int how = 0, naming = 0;
  if (i == j && i) c.prune();
  if (i == 0 || mc::thorough()) {
    how = j == 0 || mc::thorough() ? c.pick(9) : 0;
    naming = c.pick(4);
    w.dwarf = c.flip();
    w.id = c.flip();
    if (how) in.push_back({{2, 9}, {7, 2}, {5, 4}});
  } else if (i == 11 || j == 11 || i == 10 || j == 10) {
    naming = c.pick(4);
  }
  c.say(std::string(all[i].name) + ", " + all[j].name + " type " + std::to_string(type) + " profiles " + std::to_string(how) + " naming " + std::to_string(naming) + " dwarf " + std::to_string(w.dwarf) + " id " + std::to_string(w.id));
  TempDir t;
  std::string dir = t.path;
  WriteFile(dir + "/prog", w.Elf());
  std::vector<std::string> names, args = {"--format=propeller", "--binary=" + dir + "/prog"};
  for (size_t k = 0; k < in.size(); ++k) {
    names.push_back(dir + "/p" + std::to_string(k));
    WriteFile(names.back(), Perf(in[k], type == 1, naming, dir + "/prog"));
  }
  if (type != 2) args.push_back(type ? "--profiler=perf_spe" : "--profiler=perf");
  std::string prof = names[0], list;
  switch (how) {
    case 1: prof = names[0] + ";" + names[1]; break;
    case 2: prof = ";" + names[0] + ";;" + names[1] + ";"; break;
    case 3: list = names[0] + "\n" + names[1] + "\n"; break;
    case 4: list = "# all\n\n" + names[0] + "\n#" + names[0] + "\n\n" + names[1]; break;
    case 5: list = "# " + names[0] + "\n"; names.clear(); break;
    case 6: prof = "@" + dir + "/no-such-list"; names.clear(); break;
    case 7: prof = ""; names.clear(); break;
    case 8: names.insert(names.begin() + 1, dir + "/missing"); prof = names[0] + ";" + names[1] + ";" + names[2]; break;
  }
  if (!list.empty()) {
    WriteFile(dir + "/list", list);
    prof = "@" + dir + "/list";
  }
  args.push_back("--profile=" + prof);
  args.push_back("--out=" + dir + "/cluster");
  PropellerOptions o = FlagDefaults();
  o.set_binary_name(dir + "/prog");
  for (size_t k : {i, j}) {
    for (auto& a : all[k].args) args.push_back(In(a, dir));
    all[k].set(&o);
    if (i == j) break;
  }
  Place(&o, dir);
  bool both = all[i].name == std::string("split only") && all[j].name == std::string("layout only");
  Out want;
  if (both) want.ok = false;
  else want = Stages(o, names, type == 1 ? PERF_SPE : PERF_LBR, dir);
  WriteFile(dir + "/cluster", "old");
  auto r = RunTool("t_create_llvm_prof", args, dir);
  c.check(r.how.empty() || !want.ok, "tool", r.Show() + "\nexpected " + want.Show());
  c.eq(r.ok(), want.ok, "tool-status", r.Show() + " " + want.err);
  if (!want.ok) {
    c.eq(ReadFile(dir + "/cluster"), "old", "failed-run-writes");
    c.outcome("fails");
    return;
  }
  auto files = [&](const char* n) -> std::map<std::string, std::string> {
    std::map<std::string, std::string> f;
    if (std::string(n) == "dump") Collect(dir + "/dump", "dump/", &f);
    else if (access((dir + "/" + n).c_str(), F_OK) == 0) f[n] = ReadFile(dir + "/" + n);
    return f;
  };
  Out got;
  for (auto* n : {"cluster", "order", "dump"})
    for (auto& x : files(n)) got.files.insert(x);
  c.check(got.files == want.files, "files", "got\n" + got.Show() + "expected\n" + want.Show());
  c.nontrivial();
  c.outcome(want.Show().substr(0, 4000));
}
// ---------------------------------------------------------------- library
std::vector<std::string>* the_log = nullptr;
struct Watch : StatusConsumer {
  StatusProvider* p = nullptr;
  static void To(std::vector<std::string>* l) {
    if (static bool once = true; once) {
      once = false;
      StatusConsumerRegistry::GetInstance().Register(std::make_unique<Watch>());
    }
    the_log = l;
  }
  void Start(StatusProvider& s) override {
    p = &s;
    the_log->push_back("start " + s.GetJob() + " " + std::to_string(s.GetProgress()));
  }
  void Stop() override { the_log->push_back("stop " + p->GetJob() + " " + std::to_string(p->GetProgress()) + (p->IsDone() ? " done" : "")); }
};
void Library(Ctx& c) {
  auto w = PickTraces(c, mc::tier(2, 3), false);
  auto& all = Settings();
  bool many = w.size() > 1;
  size_t k = many ? c.of({0, 5, 7, 13}) : c.pick(all.size());
  bool verbose = !many && c.flip();
  World wd;
  int type = c.pick(3);  // perf, spe, unspecified
  wd.arm = type == 1 && !c.flip();
  int files = w.empty() ? 1 : 1 + c.pick(2);
  int extra = many ? 0 : c.pick(3);
  c.say(Show(w) + " " + all[k].name + " verbose " + std::to_string(verbose) + " type " + std::to_string(type) + " arm " + std::to_string(wd.arm) + " files " + std::to_string(files) + " extra " + std::to_string(extra));
  TempDir t;
  std::string dir = t.path;
  WriteFile(dir + "/prog", wd.Elf());
  PropellerOptions o;
  if (extra == 1) o.set_filter_non_text_functions(false);
  if (extra == 2) {
    auto* p = o.mutable_code_layout_params();
    p->set_fallthrough_weight(3);
    p->set_forward_jump_weight(2);
    p->set_backward_jump_weight(5);
    p->set_cluster_merge_size_threshold(700);
    p->set_call_chain_clustering(true);
  }
  o.set_binary_name(dir + "/prog");
  o.set_verbose_cluster_output(verbose);
  o.set_http(true);
  all[k].set(&o);
  o.set_symbol_order_out_name(dir + "/order");
  Place(&o, dir);
  std::vector<std::string> names;
  for (int f = 0; f < files; ++f) {
    std::vector<Weighted> part;
    for (auto x : w)
      if (files == 1) part.push_back(x);
      else if (f == 1) part.push_back({x.trace, 1});
      else if (x.times > 1) part.push_back({x.trace, x.times - 1});
    names.push_back(dir + "/p" + std::to_string(f));
    WriteFile(names.back(), Perf(part, type == 1, 0));
    auto* ip = o.add_input_profiles();
    ip->set_name(names.back());
    if (type == 0 || (type == 2 && f == 1)) ip->set_type(PERF_LBR);
    if (type == 1) ip->set_type(PERF_SPE);
  }
  Out want = Stages(o, names, type == 1 ? PERF_SPE : PERF_LBR, dir);
  std::string out = dir + "/out";
  if (mkdir(out.c_str(), 0755)) abort();
  o.set_cluster_out_name(out + "/cluster");
  o.set_symbol_order_out_name(out + "/order");
  if (o.has_cfg_dump_dir_name()) o.set_cfg_dump_dir_name(out + "/dump");
  std::vector<std::string> log;
  Watch::To(&log);
  UnregisterAllPropellerTelemetryReportersForTest();
  for (int n = 0; n < 2; ++n)
    RegisterPropellerTelemetryReporter([&, n](const BinaryContent& b, const PropellerStats& s) {
      log.push_back("report " + std::to_string(n) + " " + (b.file_name == o.binary_name() ? "" : b.file_name) + "\n" + s.DebugString());
      log.push_back(access((out + "/cluster").c_str(), F_OK) ? "nothing written" : "written");
    });
  auto st = GeneratePropellerProfiles(o);
  UnregisterAllPropellerTelemetryReportersForTest();
  c.eq(st.ok(), want.ok, "status", st.ToString() + " " + want.err);
  Out got;
  Collect(out, "", &got.files);
  std::vector<std::string> wlog;
  if (o.http()) wlog.push_back("start " + log.front().substr(6));
  if (want.ok)
    for (int n = 0; n < 2; ++n) {
      wlog.push_back("report " + std::to_string(n) + " \n" + want.stats);
      wlog.push_back("written");
    }
  if (want.ok) wlog.push_back("stop " + log.back().substr(5));
  else wlog.push_back(log.back());
  // Kinds and orders are listed in no particular order.
  auto str = [](const std::vector<std::string>& v) {
    std::string all, l, s;
    for (auto& x : v) all += x + "\n";
    std::istringstream in(all);
    while (std::getline(in, l)) {
      if (l.find_first_of("{[") != std::string::npos) {
        for (char& ch : l)
          if (strchr("{}[],", ch)) ch = ' ';
        std::istringstream w(l);
        std::vector<std::string> words;
        while (w >> l) words.push_back(l);
        std::sort(words.begin(), words.end());
        l.clear();
        for (auto& x : words) l += x + " ";
      }
      s += l + "\n";
    }
    return s;
  };
  c.eq(str(log), str(wlog), "telemetry");
  c.check(log.front().size() > 2 && log.front().substr(log.front().size() - 2) == " 0", "progress", log.front());
  c.check(!want.ok || (log.back().find(" 100 done") != std::string::npos), "progress", log.back());
  c.check(got.files == want.files, "files", "got\n" + got.Show() + "expected\n" + want.Show());
  if (want.ok && !w.empty()) c.nontrivial();
  c.transition();
  c.outcome(want.Show().substr(0, 4000));
}
// Requests that cannot be met.
void Errors(Ctx& c) {
  int what = c.pick(13);
  bool computer = what >= 9;
  bool http = c.flip();
  World w;
  TempDir t;
  std::string dir = t.path;
  if (what == 5) w.map = false;
  WriteFile(dir + "/prog", what == 4 ? "not a program" : w.Elf());
  if (what == 3) unlink((dir + "/prog").c_str());
  WriteFile(dir + "/p", Perf({{0, 2}}, false));
  WriteFile(dir + "/q", "garbage");
  PropellerOptions o = FlagDefaults();
  o.set_http(http);
  o.set_binary_name(dir + "/prog");
  o.set_cluster_out_name(dir + "/cluster");
  auto add = [&](const std::string& n, int type) {
    auto* p = o.add_input_profiles();
    p->set_name(dir + "/" + n);
    if (type >= 0) p->set_type(static_cast<ProfileType>(type));
  };
  bool fine = false;
  switch (what) {
    case 0: break;  // no profile
    case 1: o.add_profile_names(dir + "/p"); if (c.flip()) add("p", PERF_LBR); break;
    case 2: add("p", c.of<int>({PERF_LBR, PERF_SPE, FREQUENCIES_PROTO, -1})); {
        int k = c.of<int>({PERF_LBR, PERF_SPE, FREQUENCIES_PROTO, -1});
        add("p", k);
        auto ty = [&](int n) { auto x = o.input_profiles(n).type(); return x == PROFILE_TYPE_UNSPECIFIED ? PERF_LBR : x; };
        if (ty(0) == PERF_SPE && ty(1) == PERF_SPE) c.prune();
        fine = ty(0) == PERF_LBR && ty(1) == PERF_LBR;
      }
      break;
    case 3: case 4: case 5: add("p", PERF_LBR); break;
    case 6: add("missing", PERF_LBR); break;
    case 7: add("q", PERF_LBR); break;
    case 8: add("p", FREQUENCIES_PROTO); break;
    case 9: add("p", PERF_SPE); break;
    case 10: add("p", PERF_LBR); add("p", FREQUENCIES_PROTO); break;
    case 11: add("p", -1); add("p", PERF_LBR); fine = true; break;
    case 12: o.add_profile_names(dir + "/p"); fine = true; break;
  }
  c.say("case " + std::to_string(what) + " http " + std::to_string(http));
  std::vector<std::string> log;
  Watch::To(&log);
  int reports = 0;
  UnregisterAllPropellerTelemetryReportersForTest();
  RegisterPropellerTelemetryReporter([&](const BinaryContent&, const PropellerStats&) { ++reports; });
  bool ok;
  std::string msg;
  if (computer) {
    auto pc = PropellerProfileComputer::Create(o);
    ok = pc.ok();
    msg = pc.status().ToString();
    if (ok) {
      DefaultStatusProvider map("m"), lay("l");
      bool with = c.flip();
      auto p = (*pc)->ComputeProfile(with ? &map : nullptr, with ? &lay : nullptr);
      c.check(p.ok(), "compute", p.status().ToString());
      c.check(!with || (map.IsDone() && lay.IsDone()), "compute-status", msg);
      c.check(p->program_cfg->GetCfgByIndex(0) != nullptr, "compute", msg);
      c.eq(p->functions_cluster_info_by_section_name.size(), 1, "compute");
      PropellerStats st;
      auto m = what == 12 ? std::string() : (*pc)->stats().DebugString();
      c.eq((*pc)->stats().profile_stats.perf_file_parsed, what == 12 ? 1 : 2, "compute-stats");
      c.eq((*pc)->binary_content().file_name, o.binary_name(), "compute-binary");
    }
  } else {
    auto s = GeneratePropellerProfiles(o);
    ok = s.ok();
    msg = s.ToString();
    c.eq(reports, fine ? 1 : 0, "telemetry");
    c.eq(access((dir + "/cluster").c_str(), F_OK) == 0, fine, "failed-run-writes");
    // Consumers are told of the end of whatever they were told of the start.
    c.eq(log.size() % 2, 0, "stopped");
    c.check(http || log.empty(), "stopped", msg);
    for (size_t i = 0; i < log.size(); ++i) c.eq(log[i].substr(0, 4), i % 2 ? "stop" : "star", "stopped");
    c.check(log.empty() || fine || log.back().find("done") == std::string::npos, "progress", msg);
  }
  UnregisterAllPropellerTelemetryReportersForTest();
  c.eq(ok, fine, "errors", msg);
  c.nontrivial();
  c.outcome(std::to_string(what) + msg.substr(0, 20));
}
// Files that cannot be written completely.
void Full(Ctx& c) {
  World w;
  TempDir t;
  std::string dir = t.path;
  WriteFile(dir + "/prog", w.Elf());
  WriteFile(dir + "/p", Perf({{0, 3}, {1, 2}, {3, 2}}, false));
  PropellerOptions o = FlagDefaults();
  o.set_binary_name(dir + "/prog");
  o.set_cluster_out_name(dir + "/cluster");
  auto* p = o.add_input_profiles();
  p->set_name(dir + "/p");
  bool order = c.flip(), dump = c.flip(), verbose = c.flip();
  if (order) o.set_symbol_order_out_name(dir + "/order");
  if (dump) o.set_cfg_dump_dir_name(dir + "/dump");
  o.set_verbose_cluster_output(verbose);
  Out want = Stages(o, {dir + "/p"}, PERF_LBR, dir);
  size_t most = 0;
  for (auto& f : want.files) most = std::max(most, f.second.size());
  int mode = c.pick(4);
  size_t limit = 0;
  if (mode == 0) {
    limit = c.pick(most + 1);
  } else {
    if (mode > 1 && !order && !dump) c.prune();
    std::string bad = mode == 1 ? dir + "/no/such/file" : "/dev/full";
    int which = c.pick(3);
    if (which == 0) o.set_cluster_out_name(mode == 3 ? dir : bad);
    else if (which == 1 && order) o.set_symbol_order_out_name(mode == 3 ? dir : bad);
    else if (which == 2 && dump) o.set_cfg_dump_dir_name(mode == 2 ? dir + "/prog" : dir + "/no/such/dir");
    else c.prune();
  }
  c.say("mode " + std::to_string(mode) + " limit " + std::to_string(limit) + " of " + std::to_string(most));
  auto r = Isolate([&]() -> std::string {
    if (mode == 0) {
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit l = {limit, limit};
      setrlimit(RLIMIT_FSIZE, &l);
    }
    return GeneratePropellerProfiles(o).ok() ? "ok" : "error";
  });
  bool enough = mode == 0 && limit == most;
  if (enough) {
    c.eq(r.out, "ok", "files");
    Out got;
    for (auto* n : {"cluster", "order"})
      if (access((dir + "/" + n).c_str(), F_OK) == 0) got.files[n] = ReadFile(dir + "/" + n);
    Collect(dir + "/dump", "dump/", &got.files);
    c.check(got.files == want.files, "files", "got\n" + got.Show() + "expected\n" + want.Show());
  } else {
    c.check(r.out != "ok", "unwritten-profile", "reported as written");
    c.check(r.how.empty() || r.how == "abort", "unwritten-profile", r.how);
  }
  c.nontrivial();
  c.outcome(std::to_string(enough));
}
// ---------------------------------------------------------------- statistics
struct Field {
  const char* name;
  std::function<void(PropellerStats*, int)> set;
  std::function<double(const PropellerStats&)> get;
};
#define F_(x) {#x, [](PropellerStats* s, int v) { s->x = v; }, [](const PropellerStats& s) -> double { return s.x; }}
#define K_(m, k) {#m #k, [](PropellerStats* s, int v) { if (v) s->m[k] = v; }, [](const PropellerStats& s) -> double { auto i = s.m.find(k); return i == s.m.end() ? 0 : i->second; }}
const std::vector<Field>& Fields() {
  static const std::vector<Field> v = {
      F_(bbaddrmap_stats.duplicate_symbols), F_(bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry), F_(bbaddrmap_stats.hot_functions),
      F_(profile_stats.binary_mmap_num), F_(profile_stats.perf_file_parsed), F_(profile_stats.br_counters_accumulated),
      F_(disassembly_stats.could_not_disassemble.absolute), F_(disassembly_stats.could_not_disassemble.weighted), F_(disassembly_stats.may_affect_control_flow.absolute),
      F_(disassembly_stats.may_affect_control_flow.weighted), F_(disassembly_stats.cant_affect_control_flow.absolute), F_(disassembly_stats.cant_affect_control_flow.weighted),
      F_(cfg_stats.edges_with_same_src_sink_but_different_type), F_(cfg_stats.cfgs_created), F_(cfg_stats.cfgs_with_hot_landing_pads), F_(cfg_stats.nodes_created),
      K_(cfg_stats.edges_created_by_kind, CFGEdge::Kind::kCall), K_(cfg_stats.edges_created_by_kind, CFGEdge::Kind::kRet), K_(cfg_stats.edges_created_by_kind, CFGEdge::Kind::kBranchOrFallthough),
      K_(cfg_stats.total_edge_weight_by_kind, CFGEdge::Kind::kCall), K_(cfg_stats.total_edge_weight_by_kind, CFGEdge::Kind::kRet), K_(cfg_stats.total_edge_weight_by_kind, CFGEdge::Kind::kBranchOrFallthough),
      F_(cfg_stats.hot_basic_blocks), F_(cfg_stats.hot_empty_basic_blocks),
      F_(code_layout_stats.original_intra_score), F_(code_layout_stats.optimized_intra_score), F_(code_layout_stats.original_inter_score), F_(code_layout_stats.optimized_inter_score),
      F_(code_layout_stats.n_single_node_chains), F_(code_layout_stats.n_multi_node_chains),
      K_(code_layout_stats.n_assemblies_by_merge_order, ChainMergeOrder::kSU), K_(code_layout_stats.n_assemblies_by_merge_order, ChainMergeOrder::kS2S1U), K_(code_layout_stats.n_assemblies_by_merge_order, ChainMergeOrder::kUS2S1),
      F_(cloning_stats.paths_cloned), F_(cloning_stats.bbs_cloned), F_(cloning_stats.bytes_cloned), F_(cloning_stats.score_gain)};
  return v;
}
// Adding statistics adds every counter and nothing else.
void Sums(Ctx& c) {
  auto& f = Fields();
  size_t i = c.pick(f.size()), j = c.pick(f.size());
  int a = c.of({0, 1, 5}), b = c.of({0, 2, 7});
  PropellerStats x, y;
  f[i].set(&x, a);
  f[j].set(&y, b);
  c.say(std::string(f[i].name) + " " + std::to_string(a) + " plus " + f[j].name + " " + std::to_string(b));
  x += y;
  for (size_t k = 0; k < f.size(); ++k) c.eq(f[k].get(x), (k == i ? a : 0) + (k == j ? b : 0), "sum", f[k].name);
  for (size_t k = 0; k < f.size(); ++k) c.eq(f[k].get(y), k == j ? b : 0, "sum-source", f[k].name);
  int64_t e = 0, w = 0;
  for (size_t k = 16; k < 19; ++k) e += f[k].get(x);
  for (size_t k = 19; k < 22; ++k) w += f[k].get(x);
  c.eq(x.cfg_stats.total_edges_created(), e, "sum-edges");
  c.eq(x.cfg_stats.total_edge_weight_created(), w, "sum-weights");
  c.nontrivial();
  c.outcome(std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(a) + "," + std::to_string(b));
}
bool Has(const std::string& text, const std::string& line) { return ("\n" + text + "\n").find("\n" + line + "\n") != std::string::npos; }
// The text says what the counters say.
void Texts(Ctx& c) {
  auto& f = Fields();
  PropellerStats s;
  size_t i = c.pick(f.size()), j = c.pick(f.size());
  for (size_t k = 0; k < f.size(); ++k) f[k].set(&s, k == i ? c.of({0, 1, 1234567}) : k == j ? 300 : 10 + k);
  std::string t = s.DebugString();
  auto n = [&](int k) { return std::to_string(static_cast<int64_t>(f[k].get(s))); };
  std::vector<std::string> lines = {
      "Parsed " + n(4) + " profiles.", "Total " + n(3) + " binary mmaps.", "Total " + n(5) + " br entries accumulated.",
      n(2) + " hot functions (alias included) found in profiles.",
      "Could not disassemble: absolute: " + n(6) + " / weighted: " + n(7), "May affect control flow: absolute: " + n(8) + " / weighted: " + n(9), "Can not affect control flow: absolute: " + n(10) + " / weighted: " + n(11),
      n(22) + " hot basic blocks found in profiles.", "Created " + n(13) + " cfgs.", "Created " + n(15) + " nodes.", n(14) + " cfgs have hot landing pads.", n(23) + " hot blocks have zero size.",
      "Initial chains stats: single-node chains: [" + n(28) + "] multi-node chains: [" + n(29) + "]",
      "Cloned " + n(33) + " paths.", "Added " + n(34) + " cloned basic blocks.", "Increased code size by " + n(35) + " bytes with cloning."};
  auto opt = [&](int k, const std::string& l) {
    if (f[k].get(s)) lines.push_back(l);
    else c.check(!Has(t, l), "text", l);
  };
  opt(0, "Duplicate symbols: " + n(0) + " symbols.");
  opt(1, "Dropped " + n(1) + " bbaddrmap entries, because they do not have corresponding symbols in binary symtab.");
  opt(12, "Found edges with same source and sink but different type " + n(12));
  for (auto& l : lines) c.check(Has(t, l), "text", "no line '" + l + "' in\n" + t);
  auto part = [&](const std::string& a, const std::string& l) {
    size_t at = t.find(a);
    c.check(at != std::string::npos && t.substr(at, t.find('\n', at) - at).find(l) != std::string::npos, "text", "no '" + l + "' after '" + a + "' in\n" + t);
  };
  char b[200];
  static const char* kKind[] = {"call", "return", "branch_or_fallthrough"};
  (void)kKind;
  for (int g = 16; g < 22; g += 3) {
    double sum = f[g].get(s) + f[g + 1].get(s) + f[g + 2].get(s);
    std::string head = g == 16 ? "Created " + std::to_string(static_cast<int64_t>(sum)) + " edges: {" : "Profiled " + std::to_string(static_cast<int64_t>(sum)) + " total edge weight: {";
    CFGEdge::Kind kinds[] = {CFGEdge::Kind::kCall, CFGEdge::Kind::kRet, CFGEdge::Kind::kBranchOrFallthough};
    for (int k = 0; k < 3; ++k) {
      if (f[g + k].get(s) == 0) continue;
      snprintf(b, sizeof b, "%s: %.2f%%", CFGEdge::GetCfgEdgeKindString(kinds[k]).c_str(), f[g + k].get(s) * 100.0 / sum);
      part(head, b);
    }
  }
  for (int g = 0; g < 2; ++g) {
    double o = f[24 + 2 * g].get(s), p = f[25 + 2 * g].get(s);
    snprintf(b, sizeof b, "Changed %s-function (ext-tsp) score by %+.1f%% from %f to %f", g ? "inter" : "intra", 100 * (p / o - 1), o, p);
    if (o) part(std::string("Changed ") + (g ? "inter" : "intra"), b);
  }
  ChainMergeOrder orders[] = {ChainMergeOrder::kSU, ChainMergeOrder::kS2S1U, ChainMergeOrder::kUS2S1};
  for (int k = 0; k < 3; ++k)
    if (f[30 + k].get(s)) part("Merge order stats: ", "[" + std::string(GetMergeOrderName(orders[k])) + ":" + n(30 + k) + "]");
  c.nontrivial();
  c.outcome(t);
}
// Numbers grouped by thousands, addresses in hexadecimal.
void Numbers(Ctx& c) {
  uint64_t v = 0;
  int digits = 1 + c.pick(mc::tier(7, 9));
  for (int i = 0; i < digits; ++i) v = v * 10 + c.of(i ? std::vector<int>{0, 1, 9} : std::vector<int>{0, 4});
  for (int z = c.pick(3); z > 0; --z) v *= 1000;
  std::string s = std::to_string(v), g;
  for (size_t i = 0; i < s.size(); ++i) {
    if (i && (s.size() - i) % 3 == 0) g += ",";
    g += s[i];
  }
  std::ostringstream o;
  o << CommaStyleNumberFormatter(v) << " " << 7;
  c.eq(o.str(), g + " 7", "number");
  std::ostringstream h;
  char b[40];
  snprintf(b, sizeof b, v ? "0x%llx|12" : "0|12", static_cast<unsigned long long>(v));
  h << AddressFormatter(v) << "|" << 12;
  c.eq(h.str(), b, "address");
  c.nontrivial();
  c.outcome(g);
}
}  // namespace
int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  return mc::Main(argc, argv, {
                                  {"C13/flags", Flags, 2},
                                  {"C13/library", Library, 4},
                                  {"C13/errors", Errors, 1},
                                  {"C13/unwritten", Full, 3},
                                  {"C13/sums", Sums, 1},
                                  {"C13/texts", Texts, 1},
                                  {"C13/numbers", Numbers, 2},
                              });
}
