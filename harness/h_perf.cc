// R03-R07: perf data read for Propeller and for Arm SPE, and the binary.
#include <sys/stat.h>
#include <algorithm>
#include <fstream>
#include "mc.h"
#include "elfgen.h"
#include "isolate.h"
#include "perfgen.h"
#include "base/logging.h"
#include "branch_frequencies.h"
#include "branch_frequencies_autofdo_sample.h"
#include "lbr_aggregation.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_statistics.h"
#include "perfdata_reader.h"
#include "simple_spe_sample_reader.h"
#include "spe_sample_reader.h"
#include "spe_tid_pid_provider.h"
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
using perfgen::Data;
using quipper::ArmSpeDecoder;
namespace {
constexpr uint64_t kBad = kInvalidBinaryAddress;
constexpr uint32_t kKernel = 0xffffffff;
constexpr uint64_t kBase = 0x300201000;  // link-time address of the code
std::string H(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v));
  return b;
}
PerfDataProvider::BufferHandle Handle(const std::string& data) {
  return {.description = "verif", .buffer = llvm::MemoryBuffer::getMemBufferCopy(llvm::StringRef(data.data(), data.size()))};
}
using Counts = std::map<std::pair<uint64_t, uint64_t>, int64_t>;
template <class M>
Counts Map(const M& m) {
  Counts o;
  for (auto& [k, v] : m) o[{k.from, k.to}] += v;
  return o;
}
std::string Str(const Counts& m) {
  std::string o = "{";
  for (auto& [k, v] : m) o += " " + H(k.first) + "->" + H(k.second) + ":" + std::to_string(v);
  return o + " }";
}
using Addrs = std::map<uint64_t, int64_t>;
Addrs NotTaken(const BranchFrequencies& f) {
  Addrs o;
  for (auto& [k, v] : f.not_taken_branch_counters) o[k.address] += v;
  return o;
}
std::string Str(const Addrs& m) {
  std::string o = "{";
  for (auto& [k, v] : m) o += " " + H(k) + ":" + std::to_string(v);
  return o + " }";
}
void Same(Ctx& c, const Counts& got, const Counts& want, const char* key) { c.check(got == want, key, "got " + Str(got) + " expected " + Str(want)); }
void Same(Ctx& c, const Addrs& got, const Addrs& want, const char* key) { c.check(got == want, key, "got " + Str(got) + " expected " + Str(want)); }
const std::string kId("\x12\xab\x00\xff\x34", 5);
const char kIdHex[] = "12ab00ff34";
const char kProg[] = "/usr/bin/prog";
// ---------------------------------------------------------------- R04
struct Ev {
  uint32_t pid;
  uint64_t start, len, pgoff;
  std::string name;
  int missing = 0;  // 1 pid, 2 start, 3 len, 4 name, 5 pgoff
};
void Put(Data* d, const Ev& e) {
  auto* m = d->MMap(e.pid, e.start, e.len, e.pgoff, e.name);
  if (e.missing == 1) m->clear_pid();
  if (e.missing == 2) m->clear_start();
  if (e.missing == 3) m->clear_len();
  if (e.missing == 4) m->clear_filename();
  if (e.missing == 5) m->clear_pgoff();
}
using Rows = std::map<uint32_t, std::set<std::tuple<uint64_t, uint64_t, uint64_t, std::string>>>;
std::string Str(const std::optional<Rows>& r) {
  if (!r) return "error";
  std::string o;
  for (auto& [p, s] : *r)
    for (auto& [a, l, g, n] : s) o += " pid " + std::to_string(static_cast<int>(p)) + " " + H(a) + "+" + H(l) + "@" + H(g) + " " + n + ";";
  return o;
}
std::string Base(const std::string& n) { return n.substr(n.rfind('/') == std::string::npos ? 0 : n.rfind('/') + 1); }
std::optional<Rows> Select(const std::vector<Ev>& evs, const std::vector<std::string>& names) {
  Rows rows;
  bool kernel = names.size() == 1 && names[0] == "[kernel.kallsyms]";
  bool absolute = names[0][0] == '/';
  for (auto& e : evs) {
    if (e.missing && e.missing != 5) continue;
    bool in = false;
    for (auto& n : names)
      in |= kernel ? e.name == n || e.name == n + "_text" || e.name == n + "_stext" : absolute ? e.name == n : Base(e.name) == Base(n);
    if (!in) continue;
    uint64_t pgoff = e.missing == 5 ? 0 : e.pgoff;
    bool dup = false;
    for (auto& [a, l, g, n] : rows[e.pid]) {
      if (a == e.start && l == e.len && g == pgoff) dup = true;
      else if (static_cast<unsigned __int128>(a) + l > e.start && static_cast<unsigned __int128>(e.start) + e.len > a) return std::nullopt;
    }
    if (!dup) rows[e.pid].insert({e.start, e.len, pgoff, e.name});
  }
  if (rows.empty()) return std::nullopt;
  return rows;
}
std::optional<Rows> Real(const absl::StatusOr<BinaryMMaps>& m) {
  if (!m.ok()) return std::nullopt;
  Rows rows;
  for (auto& [pid, set] : *m)
    for (auto& e : set) rows[pid].insert({e.load_addr, e.load_size, e.page_offset, e.file_name});
  return rows;
}
void R04Select(Ctx& c) {
  static const std::vector<std::vector<std::string>> kNames = {
      {"/usr/bin/prog"}, {"prog"}, {"/opt/prog"}, {"bin/prog"}, {"[kernel.kallsyms]"}, {"/usr/bin/prog", "/opt/prog"}, {"absent"}};
  auto& names = kNames[c.pick(kNames.size())];
  int n = c.pick(mc::tier(3, 4));
  std::vector<Ev> evs;
  std::string say = "names";
  for (auto& s : names) say += " " + s;
  for (int i = 0; i < n; ++i) {
    Ev e;
    e.pid = c.of<uint32_t>({1, 2, kKernel});
    int where = c.pick(n < 3 ? 7 : 4);
    static const uint64_t kStart[] = {0x1000, 0x2000, 0x1800, 0x3000, 0, 0xfffffffffffff000, 0xffffffffffffe800}, kLen[] = {0x1000, 0x1000, 0x1000, 0x800, 0xffffffffffffffff, 0x1000, 0x1000};
    e.start = kStart[where];
    e.len = kLen[where];
    e.pgoff = c.of<uint64_t>({0, 0x1000});
    e.name = c.of<const char*>({"/usr/bin/prog", "/opt/prog", "[kernel.kallsyms]_text", "/usr/bin/prog2", "/usr/prog/x"});
    if (n == 1) e.missing = c.pick(6);
    if (n == 1 && c.flip()) e.name = c.of<const char*>({"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "prog", ""});
    say += "\npid " + std::to_string(e.pid) + " " + H(e.start) + "+" + H(e.len) + "@" + H(e.pgoff) + " " + e.name + " missing " + std::to_string(e.missing);
    evs.push_back(e);
  }
  c.say(say);
  Data d;
  for (auto& e : evs) {
    Put(&d, e);
    d.Sample(e.pid, 1, 1);
  }
  // An empty name is no name.
  for (auto& e : evs)
    if (e.name.empty()) e.missing = 4;
  auto want = Select(evs, names);
  BinaryContent bc;
  bc.file_name = "binary";
  auto h = Handle(d.Ser());
  std::vector<absl::string_view> match(names.begin(), names.end());
  auto got = Real(SelectMMaps(h, match, bc));
  c.check(got == want, "mmaps", "got" + Str(got) + "\nexpected" + Str(want));
  if (want) c.nontrivial();
  c.outcome(Str(want));
}
void R04BuildId(Ctx& c) {  // the names come from the build id
  Data d;
  int n = c.pick(4);
  std::vector<std::string> names;
  std::string say;
  for (int i = 0; i < n; ++i) {
    std::string name = c.of<const char*>({"/usr/bin/prog", "/opt/prog", "[anon:heap]", "/anon_hugepage (deleted)", "", "/anon"});
    int kind = c.pick(5);
    std::string hash = kind == 0 ? kId : kind == 1 ? kId.substr(0, 4) : kind == 2 ? kId + std::string(15, '\0') : kId;
    d.BuildId(hash, name);
    if (kind == 3) d.p.mutable_build_ids(i)->clear_filename();
    if (kind == 4) d.p.mutable_build_ids(i)->clear_build_id_hash();
    say += "'" + name + "' kind " + std::to_string(kind) + "; ";
    if (kind == 0 && !name.empty() && name[0] != '[' && name.compare(0, 14, "/anon_hugepage")) names.push_back(name);
  }
  bool kernel = n < 2 && c.flip();
  if (kernel) {
    if (n == 0) d.BuildId(kId, "[kernel.kallsyms]"), names.push_back("[kernel.kallsyms]");
  }
  std::string id = c.of<const char*>({kIdHex, "", "12AB00FF34", "12ab00ff3", "00"});
  std::vector<Ev> evs;
  evs.push_back({1, 0x1000, 0x1000, 0, "/usr/bin/prog"});
  evs.push_back({1, 0x2000, 0x1000, 0x1000, "/opt/prog"});
  evs.push_back({1, 0x3000, 0x1000, 0, "/anon"});
  evs.push_back({2, 0x3000, 0x1000, 0, "[anon:heap]"});
  evs.push_back({2, 0x5000, 0x1000, 0, "/anon_hugepage (deleted)"});
  evs.push_back({kKernel, 0xffffffff81000000, 0x1000, 0, "[kernel.kallsyms]_text"});
  for (auto& e : evs) Put(&d, e);
  c.say(say + " id " + id);
  std::set<std::string> want_names(names.begin(), names.end());
  bool match = id == kIdHex && !want_names.empty();
  quipper::PerfReader reader;
  reader.ReadFromString(d.Ser());
  auto got_names = GetBuildIdNames(reader, id);
  if (!id.empty()) {
    c.eq(got_names.ok(), match, "build-id-names-ok");
    if (match) c.check(std::set<std::string>(got_names->begin(), got_names->end()) == want_names, "build-id-names", "wrong names");
  }
  BinaryContent bc;
  bc.file_name = "binary";
  bc.build_id = id;
  auto h = Handle(d.Ser());
  auto got = Real(SelectMMaps(h, {}, bc));
  std::optional<Rows> want;
  if (match) want = Select(evs, std::vector<std::string>(want_names.begin(), want_names.end()));
  c.check(got == want, "mmaps-by-build-id", "got" + Str(got) + "\nexpected" + Str(want));
  // With a name given, the build id plays no part.
  auto r = BuildPerfDataReader(Handle(d.Ser()), &bc, "/opt/prog");
  c.check(r.ok() && r->binary_mmaps().size() == 1 && r->binary_mmaps().begin()->second.size() == 1 && r->binary_mmaps().begin()->second.begin()->file_name == "/opt/prog" && !r->IsKernelMode(), "mmaps-by-name",
          "BuildPerfDataReader with a name");
  if (want) c.nontrivial();
  c.outcome(Str(want));
}
// Addresses at and around every border.
void R04Translate(Ctx& c) {
  int mode = c.pick(3);  // position independent, fixed, kernel
  BinaryContent bc;
  bc.file_name = "binary";
  bc.is_pie = mode == 0;
  struct Seg { uint64_t off, va, size; };
  std::vector<Seg> segs;
  static const Seg kSegs[] = {{0x1000, 0x201000, 0x1000}, {0x3000, 0x205000, 0x800}, {0, 0, 0x1000}, {0x2000, 0xffffffff81000000, 0x1800}, {0x1000, 0x1000, 0x2000}, {0x500001000, 0x700000201000, 0x1000}};
  int ns = 1 + c.pick(2), s0 = c.pick(6);
  segs.push_back(kSegs[s0]);
  if (ns == 2) {
    int s1 = c.pick(6);
    auto& a = kSegs[s0];
    auto& b = kSegs[s1];
    if (b.off < a.off + a.size) c.prune();  // in file order, not overlapping
    segs.push_back(b);
  }
  for (auto& s : segs) bc.segments.push_back({s.off, s.va, s.size});
  int nm = 1 + c.pick(2);
  std::vector<Ev> maps;
  static const Ev kMaps[] = {{1, 0x555500001000, 0x1000, 0x1000, kProg}, {1, 0x555500003000, 0x1000, 0x3000, kProg}, {1, 0x555500000000, 0x1000, 0, kProg}, {2, 0x7f0000001000, 0x2000, 0x1000, kProg},
                             {1, 0xfffffffffffff000, 0x1000, 0x1000, kProg}, {1, 0x555500005000, 0x3000, 0x800, kProg}, {1, 0x455500005000, 0x3000, 0x500000800, kProg}};
  for (int i = 0; i < nm; ++i) {
    Ev e = kMaps[c.pick(7)];
    if (mode == 2) e.pid = kKernel;
    maps.push_back(e);
  }
  if (nm == 2 && maps[0].start == maps[1].start) c.prune();
  Data d;
  for (auto& e : maps) Put(&d, e);
  auto r = BuildPerfDataReader(Handle(d.Ser()), &bc, kProg);
  c.check(r.ok(), "reader", r.status().ToString());
  c.eq(r->IsKernelMode(), mode == 2, "kernel-mode");
  std::set<uint64_t> probe{0, 1, kBase, kBad};
  for (auto& m : maps) {
    for (uint64_t a : {m.start, m.start + m.len}) probe.insert({a - 1, a, a + 1});
    for (auto& s : segs)
      for (uint64_t o : {s.off, s.off + s.size}) {
        uint64_t base = mode == 2 ? m.start - segs[0].off : m.start - m.pgoff;
        probe.insert({base + o - 1, base + o, base + o + 1});
      }
  }
  for (uint32_t pid : {1u, 2u, kKernel, 7u})
    for (uint64_t a : probe) {
      uint64_t want = kBad;
      for (auto& m : maps) {
        if (m.pid != pid || a < m.start || a - m.start >= m.len) continue;
        if (mode == 1) {
          want = a;
          continue;
        }
        uint64_t off = a - m.start + (mode == 2 ? segs[0].off : m.pgoff);
        for (auto& s : segs)
          if (off >= s.off && off - s.off < s.size && want == kBad) want = s.va + (off - s.off);
      }
      c.eq(H(r->RuntimeAddressToBinaryAddress(pid, a)), H(want), "translate", "pid " + std::to_string(static_cast<int>(pid)) + " address " + H(a));
    }
  c.nontrivial();
}
void R04Unreadable(Ctx& c) {
  int k = c.pick(3);
  BinaryContent bc;
  bc.file_name = "binary";
  auto r = BuildPerfDataReader(Handle(k == 0 ? "\xff\xff\xffgarbage" : k == 1 ? "" : Data().Ser()), &bc, c.of<const char*>({"", "prog"}));
  c.check(!r.ok(), "unreadable", "perf data without the binary is accepted");
  c.nontrivial();
}
// ---------------------------------------------------------------- R03
// Code of the binary at kBase (offset 0x1000): +0 jmp, +0x10 nop, +0x20 an
// invalid byte, +0x30 ret, +0x40 a call, +0x50 jne.
std::string X86Code() {
  std::string s(0x100, '\x90');
  auto at = [&](int o, const std::string& b) { s.replace(o, b.size(), b); };
  at(0, "\xeb\x0e");
  at(0x20, "\x06");
  at(0x30, "\xc3");
  at(0x40, std::string("\xe8\0\0\0\0", 5));
  at(0x50, "\x75\x0e");
  return s;
}
std::string X86Elf(bool pie = true) {
  ElfGen g;
  g.etype = pie ? 3 : 2;
  g.machine = 62;
  ElfSegment s;
  s.offset = 0x1000;
  s.vaddr = kBase;
  s.filesz = s.memsz = 0x1000;
  g.segs = {s};
  g.Add(".text", X86Code());
  g.secs.back().flags = 6;
  g.secs.back().addr = kBase;
  g.secs.back().align = 0x1000;
  return g.Build();
}
struct LbrModel {
  Counts br, ft;
};
struct LbrSample {
  int pid;  // 0: no pid
  std::vector<std::pair<int, int>> stack;  // newest first; index of a location
};
// Location k: 0..5 code at 16*k, 6 outside the binary.
uint64_t Runtime(int k, uint64_t base) { return k == 6 ? 0x123 : base + 0x10 * k; }
uint64_t Binary(int k) { return k == 6 ? kBad : kBase + 0x10 * k; }
void ExpectLbr(const LbrSample& s, bool known, LbrModel* m) {
  if (!known) return;
  for (size_t i = 0; i < s.stack.size(); ++i) ++m->br[{Binary(s.stack[i].first), Binary(s.stack[i].second)}];
  for (size_t i = 0; i + 1 < s.stack.size(); ++i) {
    uint64_t to = Binary(s.stack[i + 1].second), from = Binary(s.stack[i].first);
    if (to != kBad && from != kBad && to <= from) ++m->ft[{to, from}];
  }
}
// Ranges whose end is unknown carry no information.
Counts Known(const Counts& m) {
  Counts o;
  for (auto& [k, v] : m)
    if (k.first != kBad && k.second != kBad) o[k] = v;
  return o;
}
void R03Aggregate(Ctx& c) {
  int mode = c.pick(3);
  BinaryContent bc;
  bc.file_name = "binary";
  bc.is_pie = mode == 0;
  bc.segments.push_back({0x1000, kBase, 0x1000});
  Data d;
  uint64_t base[4] = {0x999999, mode == 1 ? kBase : 0x555500001000, mode == 1 ? kBase : 0x7f0000001000, mode == 1 ? kBase : 0x555500001000};
  if (mode == 2) {
    d.MMap(kKernel, 0xffffffff81000000, 0x1000, 0, kProg);
    for (auto& b : base) b = 0xffffffff81000000;
  } else {
    d.MMap(1, base[1], 0x1000, 0x1000, kProg);
    d.MMap(2, base[2], 0x1000, 0x1000, kProg);
    d.MMap(3, base[1], 0x1000, 0x1000, "/usr/bin/other");
  }
  LbrModel m;
  int n = 1 + c.pick(2);
  std::string say = "mode " + std::to_string(mode);
  for (int i = 0; i < n; ++i) {
    LbrSample s;
    s.pid = n == 1 ? c.pick(4) : c.of({1, 2});
    int k = n == 1 ? c.pick(4) : c.pick(3);
    static const int kFew[] = {1, 3, 6};
    for (int j = 0; j < k; ++j) {
      auto loc = [&] { return n == 1 && (k < 3 || mc::tier(0, 1)) ? c.of({0, 1, 3, 4, 6}) : k == 3 ? c.of({1, 3, 6, 4}) : kFew[c.pick(mc::tier(2, 3))]; };
      int from = loc();
      s.stack.push_back({from, loc()});
    }
    auto* e = d.Sample(s.pid ? s.pid : 1, 0, 1);
    if (!s.pid) e->clear_pid();
    say += "\npid " + std::to_string(s.pid);
    for (auto& [f, t] : s.stack) {
      Data::Branch(e, Runtime(f, base[s.pid]), Runtime(t, base[s.pid]));
      say += " " + std::to_string(f) + "->" + std::to_string(t);
    }
    ExpectLbr(s, mode == 2 || s.pid == 1 || s.pid == 2, &m);
  }
  c.say(say);
  auto r = BuildPerfDataReader(Handle(d.Ser()), &bc, kProg);
  c.check(r.ok(), "reader", r.status().ToString());
  LbrAggregation got;
  r->AggregateLBR(&got);
  Same(c, Map(got.branch_counters), m.br, "branch-counters");
  Same(c, Known(Map(got.fallthrough_counters)), m.ft, "fallthrough-counters");
  int64_t total = 0;
  for (auto& [k, v] : m.br) total += v;
  c.eq(got.GetNumberOfBranchCounters(), total, "branch-total");
  r->AggregateLBR(&got);  // accumulates
  for (auto& [k, v] : m.br) v *= 2;
  for (auto& [k, v] : m.ft) v *= 2;
  Same(c, Map(got.branch_counters), m.br, "branch-counters");
  Same(c, Known(Map(got.fallthrough_counters)), m.ft, "fallthrough-counters");
  if (!m.ft.empty()) c.nontrivial();
  c.outcome(Str(m.br) + Str(m.ft));
}
struct Input {
  std::string data;
  bool exists = true, readable = true;
  std::vector<std::string> names;  // of the program in this file
  std::string id;
};
// Several profiles: which of them are used, and the sums.
void R03Files(Ctx& c) {
  MemFile elf(X86Elf());
  auto bc = GetBinaryContent(elf.path());
  c.check(bc.ok(), "binary", bc.status().ToString());
  (*bc)->build_id = c.of<const char*>({kIdHex, ""});
  PropellerOptions opt;
  opt.set_binary_name(c.of<const char*>({"/usr/bin/prog", "/tmp/elsewhere"}));
  int naming = c.pick(4);
  if (naming & 1) opt.set_profiled_binary_name("prog");
  if (naming & 2) opt.set_ignore_build_id(true);
  bool spe = c.flip();
  int n = c.pick(mc::tier(4, 5));
  std::vector<std::unique_ptr<MemFile>> files;
  std::vector<std::string> paths;
  LbrModel m;
  Addrs nt;
  int parsed = 0, mmaps = 0;
  bool broken = false;
  std::string say;
  for (int i = 0; i < n; ++i) {
    int kind = c.pick(mc::tier(5, 6));
    say += std::to_string(kind) + " ";
    Data d;
    bool has_id = kind == 0 || kind == 1, usable = false;
    if (kind == 0 || kind == 1 || kind == 5) {
      d.MMap(1, 0x555500001000, 0x1000, 0x1000, kProg);
      if (kind == 1) d.MMap(2, 0x7f0000001000, 0x1000, 0x1000, kProg);
      if (has_id) d.BuildId(kId, kProg);
      if (naming & 1) usable = true;
      else if (naming & 2) usable = opt.binary_name() == kProg;
      else usable = has_id && !(*bc)->build_id.empty();
    } else if (kind == 2) {
      d.MMap(1, 0x555500001000, 0x1000, 0x1000, "/usr/bin/other");
      d.BuildId("\x77", "/usr/bin/other");
    }
    LbrSample s;
    s.pid = 1;
    s.stack = {{3, 0}, {0, 1}, {2, 4}};
    if (kind == 1) s.stack = {{5, 1}, {1, 1}, {6, 0}};
    if (!spe) {
      auto* e = d.Sample(1, 0, 1);
      for (auto& [f, t] : s.stack) Data::Branch(e, Runtime(f, 0x555500001000), Runtime(t, 0x555500001000));
      if (usable) ExpectLbr(s, true, &m);
    } else {
      std::string trace;
      for (auto& [f, t] : s.stack) {
        ArmSpeDecoder::Record r;
        r.event.retired = r.op.is_br_eret = true;
        r.context.el1 = true;
        r.context.id = 1;
        r.ip.addr = Runtime(f, 0x555500001000);
        r.tgt_br_ip.addr = Runtime(t, 0x555500001000);
        trace += quipper::EncodeSpeRecord(r);
        if (usable) ++m.br[{Binary(f), Binary(t)}];
      }
      ArmSpeDecoder::Record r;
      r.event.retired = r.op.is_br_eret = r.event.cond_not_taken = r.op.br_eret.br_cond = true;
      r.context.el1 = true;
      r.context.id = 1;
      r.ip.addr = Runtime(5, 0x555500001000);
      trace += quipper::EncodeSpeRecord(r);
      if (usable) ++nt[Binary(5)];
      d.Aux(trace);
    }
    if (usable) ++parsed, mmaps += kind == 1 ? 2 : 1;
    if (kind == 4) {
      paths.push_back("/nonexistent-verif/x");
      broken = true;
    } else {
      files.push_back(std::make_unique<MemFile>(kind == 3 ? "\xff\xff\xff\xffgarbage" : d.Ser()));
      paths.push_back(files.back()->path());
    }
  }
  c.say("files " + say + " naming " + std::to_string(naming) + " binary " + opt.binary_name() + " id '" + (*bc)->build_id + "' spe " + std::to_string(spe));
  PropellerStats stats;
  auto provider = std::make_unique<GenericFilePerfDataProvider>(paths);
  bool want_ok = parsed > 0 && !broken;
  int64_t total = 0;
  for (auto& [k, v] : m.br) total += v;
  if (spe) {
    PerfBranchFrequenciesAggregator agg(std::move(provider));
    auto got = agg.AggregateBranchFrequencies(opt, **bc, stats);
    c.eq(got.ok(), want_ok, "files-ok", got.status().ToString());
    if (got.ok()) {
      Same(c, Map(got->taken_branch_counters), m.br, "files-taken");
      Same(c, NotTaken(*got), nt, "files-not-taken");
      c.eq(got->GetNumberOfTakenBranchCounters(), total, "branch-total");
    }
  } else {
    PerfLbrAggregator agg(std::move(provider));
    auto got = agg.AggregateLbrData(opt, **bc, stats);
    c.eq(got.ok(), want_ok, "files-ok", got.status().ToString());
    if (got.ok()) {
      Same(c, Map(got->branch_counters), m.br, "files-branches");
      Same(c, Known(Map(got->fallthrough_counters)), m.ft, "files-fallthroughs");
      // Every source that is an address: a branch, another instruction, or
      // none at all; each counted once and with its weight.
      std::map<uint64_t, int64_t> src;
      for (auto& [k, v] : m.br)
        if (k.first != kBad) src[k.first] += v;
      int64_t abs[3] = {}, wt[3] = {};
      for (auto& [a, v] : src) {
        int k = a == Binary(2) ? 0 : a == Binary(1) ? 1 : 2;
        ++abs[k];
        wt[k] += v;
      }
      auto& ds = stats.disassembly_stats;
      const PropellerStats::DisassemblyStats::Stat* st[3] = {&ds.could_not_disassemble, &ds.cant_affect_control_flow, &ds.may_affect_control_flow};
      for (int k = 0; k < 3; ++k) {
        c.eq(st[k]->absolute, abs[k], "disassembly-absolute", std::to_string(k));
        c.eq(st[k]->weighted, wt[k], "disassembly-weighted", std::to_string(k));
      }
    }
  }
  if (want_ok) {
    c.eq(stats.profile_stats.perf_file_parsed, parsed, "stats-files");
    c.eq(stats.profile_stats.binary_mmap_num, mmaps, "stats-mmaps");
    c.eq(stats.profile_stats.br_counters_accumulated, static_cast<uint64_t>(total), "stats-branches");
    c.nontrivial();
  }
  c.outcome(Str(m.br) + Str(m.ft));
}
// The source addresses of branches, checked against the code.
void R03Disassembly(Ctx& c) {
  bool pie = c.flip();
  MemFile elf(X86Elf(pie));
  auto bc = GetBinaryContent(elf.path());
  c.check(bc.ok(), "binary", bc.status().ToString());
  Data d;
  d.MMap(1, pie ? 0x555500001000 : kBase, 0x1000, 0x1000, kProg);
  uint64_t base = pie ? 0x555500001000 : kBase;
  // Offsets, and what is there: 0 nothing, 1 not a branch, 2 a branch.
  static const std::pair<int, int> kAt[] = {{0, 2}, {0x10, 1}, {0x20, 0}, {0x30, 2}, {0x40, 2}, {0x50, 2}, {0xff, 1}, {0x100, 0}, {0xfff, 0}};
  int n = c.pick(mc::tier(4, 5));
  std::map<int, int64_t> src;
  std::map<int, int> what;
  auto* s = d.Sample(1, 0, 1);
  std::string say;
  for (int i = 0; i < n; ++i) {
    auto& [o, k] = kAt[c.pick(9)];
    ++src[o];
    what[o] = k;
    Data::Branch(s, base + o, base + 0x10 * c.pick(2));
    say += H(o) + " ";
  }
  c.say(say);
  MemFile f(d.Ser());
  PropellerOptions opt;
  opt.set_profiled_binary_name(kProg);
  PropellerStats stats;
  PerfLbrAggregator agg(std::make_unique<GenericFilePerfDataProvider>(std::vector<std::string>{f.path()}));
  auto got = agg.AggregateLbrData(opt, **bc, stats);
  c.check(got.ok(), "files-ok", got.status().ToString());
  int64_t abs[3] = {}, wt[3] = {};
  for (auto& [o, v] : src) ++abs[what[o]], wt[what[o]] += v;
  auto& ds = stats.disassembly_stats;
  const PropellerStats::DisassemblyStats::Stat* st[3] = {&ds.could_not_disassemble, &ds.cant_affect_control_flow, &ds.may_affect_control_flow};
  for (int k = 0; k < 3; ++k) {
    c.eq(st[k]->absolute, abs[k], "disassembly-absolute", std::to_string(k));
    c.eq(st[k]->weighted, wt[k], "disassembly-weighted", std::to_string(k));
  }
  c.nontrivial();
  c.outcome(say);
}
// The files are handed out one after another, or all at once.
void R03Provider(Ctx& c) {
  int n = c.pick(5);
  std::vector<std::unique_ptr<MemFile>> files;
  std::vector<std::string> paths, data;
  std::vector<bool> there;
  for (int i = 0; i < n; ++i) {
    bool ok = c.flip();
    there.push_back(ok);
    data.push_back(c.flip() ? std::string(c.of({0, 1, 4096, 16384}), 'a' + i) : "data" + std::to_string(i));
    files.push_back(std::make_unique<MemFile>(data.back()));
    paths.push_back(ok ? files.back()->path() : "/nonexistent-verif/" + std::to_string(i));
  }
  GenericFilePerfDataProvider p(paths);
  int at = 0;
  int first = c.pick(n + 1);  // calls of GetNext, then all the rest
  auto one = [&] {
    auto r = p.GetNext();
    if (at >= n) {
      c.check(r.ok() && !r->has_value(), "provider-end", "not at the end");
    } else if (!there[at]) {
      c.check(!r.ok(), "provider-missing", "a missing file is handed out");
    } else {
      c.check(r.ok() && r->has_value(), "provider-next", "a file is not handed out");
      c.check(std::string((*r)->buffer->getBufferStart(), (*r)->buffer->getBufferSize()) == data[at], "provider-data", "wrong contents");
      c.check((*r)->description.find(paths[at]) != std::string::npos, "provider-description", (*r)->description);
      ++at;
    }
  };
  for (int i = 0; i < first; ++i) one();
  auto all = p.GetAllAvailableOrNext();
  bool ok = true;
  for (int i = at; i < n; ++i) ok = ok && there[i];
  c.eq(all.ok(), ok, "provider-all-ok");
  if (ok) {
    c.eq(all->size(), static_cast<size_t>(n - at), "provider-all");
    for (auto& h : *all) {
      c.check(std::string(h.buffer->getBufferStart(), h.buffer->getBufferSize()) == data[at], "provider-data", "wrong contents");
      ++at;
    }
    one();
    auto again = p.GetAllAvailableOrNext();
    c.check(again.ok() && again->empty(), "provider-end", "not at the end");
  }
  c.nontrivial();
}
// ---------------------------------------------------------------- R05
ArmSpeDecoder::Record Query(uint32_t id, uint64_t time, int el) {
  ArmSpeDecoder::Record r;
  r.context.id = id;
  r.context.el1 = el & 1;
  r.context.el2 = el & 2;
  r.timestamp = time;
  return r;
}
void R05Tids(Ctx& c) {
  int n = c.pick(mc::tier(5, 6));
  google::protobuf::RepeatedPtrField<quipper::PerfDataProto_PerfEvent> evs;
  struct Rec { int pid, tid; uint64_t time; };
  std::vector<Rec> recs;
  auto* conv = evs.Add()->mutable_time_conv_event();
  conv->set_time_mult(1);
  std::string say;
  for (int i = 0; i < n; ++i) {
    Rec r;
    r.tid = c.of({5, 6});
    r.pid = c.of({5, 1, 2});
    r.time = c.of<uint64_t>({20, 10, 30});
    int kind = n <= 3 ? c.pick(5) : i % 3;
    auto* e = evs.Add();
    if (kind == 0) {
      auto* s = e->mutable_sample_event();
      s->set_pid(r.pid), s->set_tid(r.tid), s->set_sample_time_ns(r.time);
    } else if (kind == 1) {
      auto* s = e->mutable_fork_event();
      s->set_pid(r.pid), s->set_tid(r.tid), s->set_fork_time_ns(r.time);
    } else {
      auto* s = kind == 2 ? e->mutable_mmap_event()->mutable_sample_info() : kind == 3 ? e->mutable_comm_event()->mutable_sample_info() : e->mutable_exit_event()->mutable_sample_info();
      s->set_pid(r.pid), s->set_tid(r.tid), s->set_sample_time_ns(r.time);
    }
    say += "[" + std::to_string(kind) + " tid " + std::to_string(r.tid) + " pid " + std::to_string(r.pid) + " at " + std::to_string(r.time) + "] ";
    recs.push_back(r);
  }
  if (n <= 3 && c.flip()) {  // what carries no time, or is of the idle task
    auto* s = evs.Add()->mutable_sample_event();
    s->set_pid(9), s->set_tid(5);
    auto* t = evs.Add()->mutable_sample_event();
    t->set_pid(0), t->set_tid(0), t->set_sample_time_ns(10);
    auto* u = evs.Add()->mutable_comm_event()->mutable_sample_info();
    u->set_pid(-1), u->set_tid(5), u->set_sample_time_ns(15);
    say += "junk";
  }
  c.say(say);
  SpeTidPidProvider p(evs);
  for (int tid : {5, 6, 7})
    for (uint64_t t : {0, 9, 10, 19, 20, 25, 30, 1000}) {
      std::set<int> want;
      uint64_t best = 0;
      for (auto& r : recs)
        if (r.tid == tid && r.time <= t && r.time >= best) {
          if (r.time > best) want.clear();
          best = r.time;
          want.insert(r.pid);
        }
      if (want.empty()) want.insert(tid);
      auto got = p.GetPid(Query(tid, t, 1 + (t & 1)));
      c.check(got.ok() && want.count(*got), "pid-of-tid",
              "thread " + std::to_string(tid) + " at " + std::to_string(t) + ": " + (got.ok() ? std::to_string(*got) : got.status().ToString()) + ", expected " + std::to_string(*want.begin()));
    }
  // Without a context: the process, if there is only one.
  std::set<int> pids;
  for (auto& r : recs) pids.insert(r.pid);
  auto got = p.GetPid(Query(5, 20, 0));
  if (pids.size() == 1) c.check(got.ok() && *got == *pids.begin(), "no-context", "the only process");
  else c.check(!got.ok(), "no-context", "a record without context is attributed to one of several processes");
  c.nontrivial();
  c.outcome(say);
}
void R05Time(Ctx& c) {  // counter ticks to nanoseconds
  google::protobuf::RepeatedPtrField<quipper::PerfDataProto_PerfEvent> evs;
  bool early = c.flip();
  uint64_t shift = c.of<uint64_t>({0, 1, 10, 31}), mult = c.of<uint64_t>({1, 3, 1000, 0x80000001}), zero = c.of<uint64_t>({0, 5, 0x100000000});
  uint64_t cyc0 = c.of<uint64_t>({0, 0x1000, 0xfffffff0}), mask = c.of<uint64_t>({0xff, 0xffffffff, 0xffffffffffffffff});
  bool sh = c.flip();
  uint64_t t = c.of<uint64_t>({0, 1, 0x7f, 0x100, 0xfff, 0x1000, 0x1001, 0x12345, 0xfffffff0, 0x100000005, 0x123456789});
  uint64_t cyc = sh ? cyc0 + ((t - cyc0) & mask) : t;
  unsigned __int128 want = zero + ((static_cast<unsigned __int128>(cyc) * mult) >> shift);
  if (want >> 62 || (static_cast<unsigned __int128>(cyc >> shift) * mult) >> 62) c.prune();
  uint64_t w = want;
  auto conv = [&] {
    auto* e = evs.Add()->mutable_time_conv_event();
    e->set_time_shift(shift), e->set_time_mult(mult), e->set_time_zero(zero), e->set_time_cycles(cyc0), e->set_time_mask(mask), e->set_cap_user_time_short(sh);
  };
  if (early) conv();
  auto rec = [&](int pid, uint64_t at) {
    auto* s = evs.Add()->mutable_sample_event();
    s->set_pid(pid), s->set_tid(5), s->set_sample_time_ns(at);
  };
  if (w) rec(1, w);
  rec(2, w + 1);
  if (!early) conv();
  SpeTidPidProvider p(evs);
  auto got = p.GetPid(Query(5, t, 1));
  c.check(got.ok(), "pid-of-tid", got.status().ToString());
  c.eq(*got, w ? 1 : 5, "time-conversion", "ticks " + H(t) + " are " + H(w) + " ns");
  c.nontrivial();
}
// ---------------------------------------------------------------- R06
struct Spe {
  int kind;  // 0 taken, 1 conditional not taken, 2 unconditional marked not taken, 3 no branch, 4 not retired, 5 conditional taken
  int from, to, tid;
};
std::string Trace(const Spe& s, const std::function<uint64_t(int, int)>& addr) {
  ArmSpeDecoder::Record r;
  r.event.retired = s.kind != 4;
  r.op.is_br_eret = s.kind != 3;
  r.op.br_eret.br_cond = s.kind == 1 || s.kind == 5;
  r.event.cond_not_taken = s.kind == 1 || s.kind == 2;
  r.context.el1 = true;
  r.context.id = s.tid;
  r.ip.addr = addr(s.from, s.tid);
  r.tgt_br_ip.addr = addr(s.to, s.tid);
  r.timestamp = 100;
  return quipper::EncodeSpeRecord(r);
}
void R06Aggregate(Ctx& c) {
  int mode = c.pick(3);
  BinaryContent bc;
  bc.file_name = "binary";
  bc.is_pie = mode == 0;
  bc.segments.push_back({0x1000, kBase, 0x1000});
  Data d;
  auto base = [&](int tid) -> uint64_t { return mode == 2 ? 0xffffffff81000000 : mode == 1 ? kBase : tid == 2 ? 0x7f0000001000 : 0x555500001000; };
  if (mode == 2) d.MMap(kKernel, base(0), 0x1000, 0, kProg);
  else d.MMap(1, base(1), 0x1000, 0x1000, kProg), d.MMap(2, base(2), 0x1000, 0x1000, kProg), d.MMap(3, base(1), 0x1000, 0x1000, "/usr/bin/other");
  // Thread 4 belongs to process 1.
  auto* s = d.Sample(1, 0, 1);
  s->set_tid(4);
  auto* tc = d.Ev(quipper::PERF_RECORD_TIME_CONV)->mutable_time_conv_event();
  tc->set_time_mult(1);
  Counts taken;
  Addrs nt;
  int n = c.pick(4);
  std::string say = "mode " + std::to_string(mode), trace;
  bool split = n > 1 && c.flip();
  for (int i = 0; i < n; ++i) {
    Spe e;
    e.kind = c.pick(n < 3 ? 6 : 2);
    e.from = c.of({1, 3, 6});
    e.to = c.of({2, 6});
    e.tid = n == 1 ? c.of({1, 2, 3, 4, 5}) : n == 2 ? c.of({1, 3, 4, 5}) : c.of({1, 5});  // nothing is known about thread 5
    trace += Trace(e, [&](int k, int tid) { return Runtime(k, base(tid)); });
    if (split) d.Aux(trace), trace.clear();
    say += " [" + std::to_string(e.kind) + " " + std::to_string(e.from) + "->" + std::to_string(e.to) + " tid " + std::to_string(e.tid) + "]";
    if (e.kind == 3 || e.kind == 4 || (mode != 2 && (e.tid == 3 || e.tid == 5))) continue;
    if (e.kind == 1) ++nt[Binary(e.from)];
    else ++taken[{Binary(e.from), Binary(e.to)}];
  }
  if (!trace.empty()) d.Aux(trace);
  c.say(say);
  auto r = BuildPerfDataReader(Handle(d.Ser()), &bc, kProg);
  c.check(r.ok(), "reader", r.status().ToString());
  BranchFrequencies got;
  c.check(r->AggregateSpe(got).ok(), "spe-ok", "AggregateSpe failed");
  Same(c, Map(got.taken_branch_counters), taken, "spe-taken");
  Same(c, NotTaken(got), nt, "spe-not-taken");
  if (!taken.empty() || !nt.empty()) c.nontrivial();
  c.outcome(Str(taken) + Str(nt));
}
// Execution counts of straight-line code from branch counts, one instruction
// at a time.  Ranges start at targets and after branches.
struct Flow {
  RangeCountMap ranges;
};
RangeCountMap Ranges(const std::map<uint64_t, uint64_t>& in, const std::map<uint64_t, uint64_t>& not_taken, const std::function<bool(uint64_t)>& branch, uint64_t step) {
  RangeCountMap out;
  if (in.empty()) return out;
  uint64_t w = 0, start = 0, end = in.rbegin()->first + 0x1000;
  for (uint64_t a = in.begin()->first; a < end; a += step) {
    auto it = in.find(a);
    if (it != in.end()) {
      if (w && start < a) out[{start, a - step}] += w;
      w += it->second;
      start = a;
    }
    if (w && branch(a)) {
      out[{start, a}] += w;
      auto nt = not_taken.find(a);
      w = nt == not_taken.end() ? 0 : nt->second;
      start = a + step;
    }
  }
  if (w) out[{start, end - step}] += w;
  return out;
}
std::string Str(const RangeCountMap& m) {
  std::string o = "{";
  for (auto& [k, v] : m) o += " " + H(k.first) + "-" + H(k.second) + ":" + std::to_string(v);
  return o + " }";
}
// Code as a row of instructions, every subset of which may be branches.
void R06Ranges(Ctx& c) {
  bool wide = c.flip();  // addresses and counts of more than 32 bits
  int len = wide ? 3 : mc::tier(5, 6);
  const int64_t big = wide ? (1LL << 33) + 1 : 1;
  const uint64_t org = wide ? 0x7ffffffff000 : 0x1000;
  int step = c.of({4, 1});
  int bits = c.pick(1 << len);
  bool errors = c.flip();  // an address that cannot be disassembled may be a branch
  BranchFrequencies f;
  std::map<uint64_t, uint64_t> in, nt;
  Counts taken;
  std::string say = "branches";
  for (int i = 0; i < len; ++i)
    if (bits >> i & 1) say += " " + std::to_string(i);
  auto at = [&](int i) -> uint64_t { return org + i * step; };
  for (int i = 0; i < len; ++i) {
    int64_t w = c.of({0, 3}) * big;
    if (!w) continue;
    // From somewhere else, or from nowhere.
    uint64_t from = i & 1 ? kBad : 0x100000 + i;
    f.taken_branch_counters[{.from = from, .to = at(i)}] += w;
    in[at(i)] += w;
    if (from != kBad) taken[{from + 7, at(i) + 7}] += w;
    say += " in" + std::to_string(i);
  }
  for (int i = 0; i < len; ++i) {
    if (!(bits >> i & 1)) continue;
    int64_t w = c.of({0, 2}) * big;
    if (!w) continue;
    f.not_taken_branch_counters[{.address = at(i)}] += w;
    nt[at(i)] += w;
    say += " not-taken" + std::to_string(i);
  }
  if (c.flip()) {
    f.taken_branch_counters[{.from = at(0), .to = kBad}] += 9;
    f.not_taken_branch_counters[{.address = kBad}] += 9;
  }
  c.say(say);
  uint64_t last = at(len);
  auto branch = [&](uint64_t a) { return a >= last ? a == last + 8 * step : a >= org && (bits >> ((a - org) / step) & 1); };
  auto got = ConvertBranchFrequenciesToAutofdoRangeSample(
      f,
      [&](int64_t a) -> absl::StatusOr<bool> {
        bool b = branch(a);
        if (errors && b) return absl::InternalError("unknown");
        return b;
      },
      [](int64_t a) -> int64_t { return a + 7; }, step);
  c.check(got.ok(), "ranges-ok", got.status().ToString());
  RangeCountMap want;
  for (auto& [k, v] : Ranges(in, nt, branch, step)) want[{k.first + 7, k.second + 7}] += v;
  c.check(got->range_counts == want, "ranges", "got " + Str(got->range_counts) + " expected " + Str(want));
  Counts br;
  for (auto& [k, v] : got->branch_counts) br[k] += v;
  Same(c, br, taken, "range-branches");
  if (!want.empty()) c.nontrivial();
  c.outcome(Str(want));
}
// AArch64 code at 0x401000 (offset 0x1000): 0 nop, 1 b.eq, 2 nop, 3 b, 4 cbz,
// 5 nop, 6 bl, 7 ret, then nops.
std::string ArmElf(int machine, const std::string& id, bool data = false) {
  ElfGen g;
  g.machine = machine;
  g.etype = 2;
  ElfSegment s;
  s.offset = 0x1000;
  s.vaddr = 0x401000;
  s.filesz = s.memsz = 0x3000;
  g.segs = {s};
  Buf b(false);
  for (uint32_t w : {0xd503201fu, 0x54000040u, data ? 0xffffffffu : 0xd503201fu, 0x14000001u, 0xb4000040u, 0xd503201fu, 0x94000001u, 0xd65f03c0u}) b.u32(w);
  for (int i = 8; i < 0x3000 / 4; ++i) b.u32(0xd503201f);
  g.Add(".text", b.s);
  g.secs.back().flags = 6;
  g.secs.back().addr = 0x401000;
  g.secs.back().align = 0x1000;
  if (!id.empty()) {
    Buf n(false);
    n.u32(4).u32(id.size()).u32(3).raw(std::string("GNU\0", 4)).raw(id);
    while (n.size() % 4) n.u8(0);
    g.Add(".note.gnu.build-id", n.s, 7);
    g.secs.back().flags = 2;
    g.secs.back().align = 4;
  }
  ElfSym f;
  f.name = "f";
  f.value = 0x401000;
  f.size = 0x40;
  g.AddSymtab(".symtab", 2, ".strtab", {f});
  return g.Build();
}
bool ArmBranch(uint64_t off) {
  if (off < 0x1000) return false;
  uint64_t i = (off - 0x1000) / 4;
  return i == 1 || i == 3 || i == 4 || i == 6 || i == 7;
}
void R06Reader(Ctx& c) {
  bool simple = c.flip();
  bool disasm = !simple && c.flip();
  bool data = disasm && c.flip();  // instruction 2 cannot be decoded, and may be a branch
  int naming = simple ? 0 : c.pick(4);  // build id; no build id: by regex; neither
  std::string id = naming == 0 ? kId : naming == 3 ? std::string("\x55\x66") : "";
  static std::map<std::string, std::string>* cache = new std::map<std::string, std::string>;
  std::string dir = ScratchFile("R06");
  mkdir(dir.c_str(), 0700);
  std::string elf = dir + "/prog";
  WriteFile(elf, ArmElf(183, id, data));
  // The simple reader goes by the mapping alone.
  const uint64_t base = simple && c.flip() ? 0x7f5555001000 : 0x401000;
  int files = 1 + c.pick(2);
  RangeCountMap ranges;
  AddressCountMap addrs;
  BranchCountMap branches;
  std::string say = std::string(simple ? "simple" : disasm ? "disassembly" : "sampling") + " naming " + std::to_string(naming);
  std::vector<std::unique_ptr<MemFile>> fs;
  bool usable = naming < 2, ok = true;
  for (int k = 0; k < files; ++k) {
    Data d;
    d.MMap(9, 0x700000, 0x1000, 0, "/usr/bin/other");
    d.MMap(1, base, 0x3000, 0x1000, kProg);
    d.BuildId(kId, kProg);
    auto* s = d.Sample(1, 0, 1);
    s->set_tid(1);
    int n = files == 1 ? 1 + c.pick(mc::tier(2, 3)) : 1;
    std::string trace;
    std::map<uint64_t, uint64_t> in, nt;
    std::set<uint64_t> sampled;
    int used = 0, branchy = 0;
    for (int i = 0; i < n; ++i) {
      Spe e;
      e.kind = c.pick(n < 3 ? 5 : 2);
      e.tid = 1;
      e.from = n < 3 ? c.of({1, 4, 3, 7, 20}) : c.of({1, 4, 7});
      e.to = e.kind == 0 || e.kind == 2 ? (n < 3 ? c.of({0, 2, 5, 4, 20}) : c.of({0, 2, 5})) : 0;
      if (e.kind == 1 && (e.from == 3 || e.from == 7)) e.from = 1;
      auto addr = [&](int i, int) -> uint64_t { return i == 20 ? 0x900000 : base + 4 * i; };
      trace += Trace(e, addr);
      say += " [" + std::to_string(e.kind) + " " + std::to_string(e.from) + "->" + std::to_string(e.to) + "]";
      if (e.kind >= 3) continue;
      ++branchy;
      bool fin = e.from != 20, tin = e.to != 20;
      uint64_t fo = 0x1000 + 4 * e.from, to = 0x1000 + 4 * e.to;
      if (e.kind == 1) {
        if (fin) {
          ++nt[fo], ++used;
          sampled.insert(fo);
          if (simple) ++addrs[fo];
        }
        continue;
      }
      if (simple) {
        if (!fin || !tin) continue;
      }
      if (fin) sampled.insert(fo);
      if (fin && tin) ++branches[{fo, to}], ++used;
      if (tin) ++in[to];
    }
    d.Aux(trace);
    if (usable)
      for (auto& [r, v] : Ranges(in, nt, [&](uint64_t a) { return disasm ? ArmBranch(a) || (data && a == 0x1008) : sampled.count(a) > 0; }, 4)) ranges[r] += v;
    if (simple && !used) ok = false;
    fs.push_back(std::make_unique<MemFile>(d.Ser()));
    say += ";";
  }
  if (!usable) ok = false;
  c.say(say);
  std::unique_ptr<FileSampleReader> r;
  if (simple) r = std::make_unique<SimpleSpeDataSampleReader>(fs[0]->path(), elf);
  else
    r = std::make_unique<PerfSpeDataSampleReader>(disasm ? PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly : PerfSpeDataSampleReader::BranchIdStrategy::kSampling, fs[0]->path(),
                                                  naming == 2 ? "nothing" : "bin/prog$", elf);
  bool got = true;
  if (files == 1) {
    got = r->ReadAndSetTotalCount();
  } else {
    for (auto& f : fs) got = r->Append(f->path()) && got;
  }
  unlink(elf.c_str());
  rmdir(dir.c_str());
  c.eq(got, ok, "spe-read", "the result of reading");
  if (!ok) return;
  c.check(r->branch_count_map() == branches, "spe-branches", "wrong branches");
  c.check(r->range_count_map() == ranges, "spe-ranges", "got " + Str(r->range_count_map()) + " expected " + Str(ranges));
  c.check(r->address_count_map() == addrs, "spe-addresses", "wrong addresses");
  if (files == 1) {
    uint64_t total = 0;
    for (auto& [k, v] : ranges) total += v * (k.second - k.first + 1);
    if (ranges.empty())
      for (auto& [k, v] : addrs) total += v;
    c.eq(r->GetTotalCount(), total, "spe-total");
  }
  if (!ranges.empty()) c.nontrivial();
  c.outcome(Str(ranges));
}
void R06Refuse(Ctx& c) {  // binaries and profiles that do not fit
  int kind = c.pick(5);
  std::string dir = ScratchFile("R06");
  mkdir(dir.c_str(), 0700);
  std::string elf = dir + "/prog";
  if (kind != 1) WriteFile(elf, kind == 0 ? ArmElf(62, "") : kind == 2 ? "not an elf file" : ArmElf(183, ""));
  Data d;
  if (kind != 3) d.MMap(1, 0x401000, 0x3000, 0x1000, kProg);
  MemFile f(d.Ser());
  bool simple = c.flip();
  bool got;
  std::string path = kind == 4 ? "/nonexistent-verif/x" : f.path();
  if (simple) {
    SimpleSpeDataSampleReader r(path, elf);
    got = r.ReadAndSetTotalCount();  // no trace at all
  } else {
    PerfSpeDataSampleReader r(PerfSpeDataSampleReader::BranchIdStrategy::kSampling, path, "prog", elf);
    got = r.ReadAndSetTotalCount();
  }
  unlink(elf.c_str());
  rmdir(dir.c_str());
  c.check(!got, "spe-refuse", "case " + std::to_string(kind) + " is accepted");
  c.nontrivial();
}
// ---------------------------------------------------------------- R07
void R07Binary(Ctx& c) {
  ElfGen g;
  g.bits = c.of({64, 32});
  g.big = c.flip();
  g.etype = c.of({2, 3});
  g.machine = g.bits == 64 ? (g.big ? 22 : 62) : (g.big ? 20 : 3);
  std::vector<BinaryContent::Segment> want;
  int n = c.pick(mc::tier(3, 4));
  std::string say = std::to_string(g.bits) + (g.big ? " big" : "");
  for (int i = 0; i < n; ++i) {
    ElfSegment s;
    s.type = c.of({1, 6, 1});
    s.flags = c.of({5, 4, 7, 1});
    s.offset = 0x1000 * i;
    s.vaddr = 0x10000 + 0x2000 * i;
    s.filesz = 0x200 + i;
    s.memsz = 0x800 + i;
    if (s.type == 1 && s.flags & 1) want.push_back({s.offset, s.vaddr, s.memsz});
    g.segs.push_back(s);
    say += " seg " + std::to_string(s.type) + "/" + std::to_string(s.flags);
  }
  int note = c.pick(6);
  std::string id;
  auto put = [&](Buf* b, const char* name, uint32_t type, const std::string& desc) {
    b->u32(strlen(name) + 1).u32(desc.size()).u32(type).str(name);
    while (b->size() % 4) b->u8(0);
    b->raw(desc);
    while (b->size() % 4) b->u8(0);
  };
  Buf b(g.big);
  const char* sec = ".note.gnu.build-id";
  if (note == 1) put(&b, "GNU", 3, kId), id = kIdHex;
  if (note == 2) sec = ".notes", put(&b, "Linux", 0x101, "abcd"), put(&b, "GNU", 3, kId), id = kIdHex;
  if (note == 3) sec = ".notes", put(&b, "GNU", 1, std::string(16, '\1')), put(&b, "GNU", 3, kId), id = kIdHex;  // an ABI tag comes first
  if (note == 4) sec = ".note.other", put(&b, "GNU", 3, kId);
  if (note == 5) put(&b, "GNU", 3, kId), put(&b, "GNU", 3, "zzzz"), id = kIdHex;
  if (note) {
    g.Add(sec, b.s, 7);
    g.secs.back().align = 4;
    g.secs.back().flags = 2;
  }
  g.Add(".text", std::string(32, '\x90'));
  g.secs.back().flags = 6;
  c.say(say + " note " + std::to_string(note));
  MemFile f(g.Build());
  auto bc = GetBinaryContent(f.path());
  c.eq(bc.ok(), !want.empty(), "binary-ok", bc.status().ToString());
  if (!bc.ok()) return;
  auto& x = **bc;
  c.eq(x.is_pie, g.etype == 3, "binary-pie");
  c.eq(x.is_relocatable, false, "binary-relocatable");
  c.eq(x.build_id, id, "binary-build-id");
  c.eq(x.file_name, f.path(), "binary-name");
  c.eq(x.segments.size(), want.size(), "binary-segments");
  for (size_t i = 0; i < want.size(); ++i) {
    c.eq(x.segments[i].offset, want[i].offset, "segment-offset");
    c.eq(x.segments[i].vaddr, want[i].vaddr, "segment-vaddr");
    c.eq(x.segments[i].memsz, want[i].memsz, "segment-memsz");
  }
  c.check(x.object_file && !x.kernel_module, "binary-object", "object file");
  c.nontrivial();
  c.outcome(say + id);
}
void R07Package(Ctx& c) {  // the .dwp file beside a binary
  ElfGen g;
  g.etype = c.of({2, 3});
  ElfSegment s;
  s.type = 1, s.flags = 5, s.offset = 0x1000, s.vaddr = 0x10000, s.filesz = s.memsz = 0x100;
  g.segs.push_back(s);
  int dwp = c.pick(4);
  c.say("dwp " + std::to_string(dwp));
  std::string dir = ScratchFile("R07"), path = dir + "/" + (c.flip() ? "b" : "b.dwp");
  mkdir(dir.c_str(), 0700);
  std::string image = g.Build();
  WriteFile(path, image);
  std::string name = dwp == 1 ? dir + "/other.dwp" : path + ".dwp";
  if (dwp) WriteFile(name, dwp == 3 ? "no object file" : image);
  auto bc = GetBinaryContent(path);
  unlink(path.c_str());
  unlink(name.c_str());
  rmdir(dir.c_str());
  c.check(bc.ok(), "binary-ok", bc.status().ToString());
  c.eq((*bc)->dwp_file_name, dwp >= 2 ? path + ".dwp" : "", "dwp-name");
  c.nontrivial();
}
void R07Module(Ctx& c) {  // kernel modules
  ElfGen g;
  g.etype = 1;
  bool ko = c.flip(), this_module = c.flip(), modinfo = c.flip();
  int text = c.pick(4);
  g.Add(".data", "abc");
  if (this_module) g.Add(".gnu.linkonce.this_module", std::string(16, '\0'));
  int text_index = -1;
  if (text) {
    text_index = g.Add(text == 1 ? ".text.other" : ".text", std::string(0x30, '\x90'));
    g.secs.back().flags = text == 2 ? 2 : 6;
    g.secs.back().addr = 0x40;
    g.secs.back().align = 16;
  }
  std::string info = std::string("name=mod\0license=GPL v2\0", 24);
  if (modinfo) g.Add(".modinfo", info);
  std::string dir = ScratchFile("R07");
  mkdir(dir.c_str(), 0700);
  std::string path = dir + (ko ? "/m.ko" : "/m.o");
  std::string image = g.Build();
  WriteFile(path, image);
  auto bc = GetBinaryContent(path);
  unlink(path.c_str());
  rmdir(dir.c_str());
  bool want = ko && this_module && modinfo && text == 3;
  c.eq(bc.ok(), want, "module-ok", bc.status().ToString());
  if (!want) return;
  auto& x = **bc;
  c.check(x.is_relocatable && !x.is_pie && x.kernel_module.has_value(), "module-flags", "flags");
  c.eq(x.kernel_module->text_section_index, text_index, "module-text-index");
  c.eq(x.segments.size(), size_t{1}, "module-segments");
  c.eq(x.segments[0].vaddr, uint64_t{0x40}, "segment-vaddr");
  c.eq(x.segments[0].memsz, uint64_t{0x30}, "segment-memsz");
  c.eq(image.substr(x.segments[0].offset, 0x30), std::string(0x30, '\x90'), "segment-offset");
  c.check(x.kernel_module->modinfo.at("name") == "mod" && x.kernel_module->modinfo.at("license") == "GPL v2" && x.kernel_module->modinfo.size() == 2, "module-info", "modinfo");
  c.nontrivial();
}
// Every short string over {k, v, =, \0}.
void R07ModInfo(Ctx& c) {
  int n = c.pick(mc::tier(9, 11));
  std::string s;
  for (int i = 0; i < n; ++i) s += "k=\0v"[c.pick(4)];
  std::string buf = s;  // exact allocation
  std::unique_ptr<char[]> exact(new char[n ? n : 1]);
  memcpy(exact.get(), s.data(), n);
  std::string show;
  for (char ch : s) show += ch ? ch : '.';
  c.say(show);
  // Entries end in \0, with further \0 after them allowed; each is key=value
  // with neither empty; a key keeps its first value.
  std::map<std::string, std::string> want;
  bool ok = n > 0 && s.back() == '\0' && s[0] != '\0';
  for (size_t p = 0; ok && p < s.size();) {
    size_t q = s.find('\0', p);
    std::string e = s.substr(p, q - p);
    p = q;
    while (p < s.size() && s[p] == '\0') ++p;
    size_t eq = e.find('=');
    if (eq == std::string::npos || eq == 0) ok = false;
    else want.insert({e.substr(0, eq), e.substr(eq + 1)});
  }
  auto got = ELFFileUtilBase::ParseModInfoSectionContent(absl::string_view(exact.get(), n));
  c.eq(got.ok(), ok, "modinfo-ok", got.status().ToString());
  if (!ok) return;
  std::map<std::string, std::string> g;
  for (auto& [k, v] : *got) g[std::string(k)] = std::string(v);
  c.check(g == want, "modinfo", "wrong entries");
  c.nontrivial();
  c.outcome(show);
}
void R07Refuse(Ctx& c) {
  static const std::string elf = X86Elf();
  size_t n = c.of<size_t>({0, 1, 4, 16, 40, 63, 64, 80, 120, 0x1000});
  bool missing = c.flip();
  std::string data = elf.substr(0, n);
  MemFile f(data);
  auto r = Isolate([&] {
    auto bc = GetBinaryContent(missing ? "/nonexistent-verif/x" : f.path());
    return std::string(bc.ok() ? "ok" : "refused");
  });
  c.check(r.ok, "binary-crash", "a file of " + std::to_string(n) + " bytes: " + r.how);
  if (missing || n < 64) c.eq(r.out, "refused", "binary-refuse", std::to_string(n) + " bytes");
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  return mc::Main(argc, argv,
                  {{"R03/aggregate", R03Aggregate, 4},
                   {"R03/files", R03Files, 5},
                   {"R03/disassembly", R03Disassembly, 3},
                   {"R03/provider", R03Provider, 4},
                   {"R04/select", R04Select, 5},
                   {"R04/build-id", R04BuildId, 4},
                   {"R04/translate", R04Translate, 4},
                   {"R04/unreadable", R04Unreadable, 1},
                   {"R05/tids", R05Tids, 5},
                   {"R05/time", R05Time, 4},
                   {"R06/aggregate", R06Aggregate, 5},
                   {"R06/ranges", R06Ranges, 6},
                   {"R06/reader", R06Reader, 5},
                   {"R06/refuse", R06Refuse, 1},
                   {"R07/binary", R07Binary, 5},
                   {"R07/package", R07Package, 2},
                   {"R07/module", R07Module, 3},
                   {"R07/modinfo", R07ModInfo, 4},
                   {"R07/refuse", R07Refuse, 1}});
}
