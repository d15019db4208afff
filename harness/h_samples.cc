// R01, R02: the text sample file, and LBR perf data read for AutoFDO.
#include <signal.h>
#include <algorithm>
#include <climits>
#include "mc.h"
#include "elfgen.h"
#include "isolate.h"
#include "perfgen.h"
#include "base/logging.h"
#include "sample_reader.h"
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
using perfgen::Data;
namespace {
std::string H(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(v));
  return b;
}
struct Model {
  RangeCountMap r;
  AddressCountMap a;
  BranchCountMap b;
  AddressTimestampMap t;
  bool operator==(const Model& o) const { return r == o.r && a == o.a && b == o.b; }
  void Add(const Model& o) {
    for (auto& [k, v] : o.r) r[k] += v;
    for (auto& [k, v] : o.a) a[k] += v;
    for (auto& [k, v] : o.b) b[k] += v;
  }
  std::string Text() const {
    std::string s = std::to_string(r.size()) + "\n";
    for (auto& [k, v] : r) s += H(k.first) + "-" + H(k.second) + ":" + std::to_string(v) + "\n";
    s += std::to_string(a.size()) + "\n";
    for (auto& [k, v] : a) s += H(k) + ":" + std::to_string(v) + "\n";
    s += std::to_string(b.size()) + "\n";
    for (auto& [k, v] : b) s += H(k.first) + "->" + H(k.second) + ":" + std::to_string(v) + "\n";
    return s;
  }
  uint64_t Total() const {  // sample counts
    uint64_t n = 0;
    for (auto& [k, v] : r) n += v;
    if (r.empty())
      for (auto& [k, v] : a) n += v;
    return n;
  }
  uint64_t Weight() const {  // counts weighted with the range's length
    uint64_t n = 0;
    for (auto& [k, v] : r) n += v * (k.second - k.first + 1);
    if (r.empty())
      for (auto& [k, v] : a) n += v;
    return n;
  }
};
Model Of(const SampleReader& s) { return Model{s.range_count_map(), s.address_count_map(), s.branch_count_map(), s.address_timestamp_map()}; }
const uint64_t kA[] = {0x10, 0x11, 0, 0xffffffff81000000, 0xffffffffffffffff};
const uint64_t kN[] = {1, 7, 0, 0x100000000, 0x8000000000000000};
Model PickModel(Ctx& c, int most, int naddr, int ncount) {
  Model m;
  auto count = [&] { return kN[c.pick(ncount)]; };
  // Each map gets an ascending selection of keys.
  std::vector<Range> pairs;
  for (int i = 0; i < naddr; ++i)
    for (int j = 0; j < naddr; ++j) pairs.push_back({kA[i], kA[j]});
  int at = 0;
  for (int k = c.pick(most + 1); k-- && at < static_cast<int>(pairs.size());) {
    at += c.pick(pairs.size() - at);
    m.r[pairs[at++]] = count();
  }
  at = 0;
  for (int k = c.pick(most + 1); k-- && at < naddr;) {
    at += c.pick(naddr - at);
    m.a[kA[at++]] = count();
  }
  at = 0;
  for (int k = c.pick(most + 1); k-- && at < static_cast<int>(pairs.size());) {
    at += c.pick(pairs.size() - at);
    m.b[pairs[at++]] = count();
  }
  return m;
}
void Fill(TextSampleReaderWriter* w, const Model& m) {
  for (auto& [k, v] : m.r) w->IncRange(k.first, k.second, v);
  for (auto& [k, v] : m.a) w->IncAddress(k, v);
  for (auto& [k, v] : m.b) w->IncBranch(k.first, k.second, v);
}
void Same(Ctx& c, const SampleReader& got, const Model& want, const char* key, const std::string& what) {
  c.check(Of(got) == want, key, what + ": got\n" + Of(got).Text() + "expected\n" + want.Text());
}
// The queries that every reader offers.
void Queries(Ctx& c, const SampleReader& r, const Model& m) {
  c.eq(r.GetTotalSampleCount(), m.Total(), "query-total");
  std::set<uint64_t> want;
  for (auto& [k, v] : m.r) want.insert(k.first);
  if (m.r.empty())
    for (auto& [k, v] : m.a) want.insert(k);
  c.check(r.GetSampledAddresses() == want, "query-addresses", "sampled addresses");
  for (uint64_t a : {0x10ul, 0x11ul, 0ul, 0x12ul, 0xffffffff81000000ul}) {
    auto it = m.a.find(a);
    c.eq(r.GetSampleCountOrZero(a), it == m.a.end() ? 0 : it->second, "query-count", H(a));
  }
}
// ---------------------------------------------------------------- R01
void R01RoundTrip(Ctx& c) {
  Model m = PickModel(c, 2, 3, mc::tier(2, 3));
  c.say(m.Text());
  MemFile f("");
  TextSampleReaderWriter w(f.path());
  Fill(&w, m);
  const char* aux = c.of<const char*>({nullptr, "", "# made by verif\n", "3\n10-20:5\n"});
  c.check(w.Write(aux), "write-fails", "Write returned false");
  std::string text = ReadFile(f.path());
  c.eq(text, m.Text() + (aux ? aux : ""), "written-text");
  TextSampleReaderWriter r(f.path());
  c.check(r.ReadAndSetTotalCount(), "read-fails", "cannot read back what was written");
  Same(c, r, m, "round-trip", "written and read back");
  c.eq(r.GetTotalCount(), m.Weight(), "total-count");
  Queries(c, r, m);
  c.nontrivial();
  c.outcome(text);
}
void R01Counts(Ctx& c) {  // the extremes of addresses and counts
  Model m;
  uint64_t a = c.of<uint64_t>({0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff});
  uint64_t b = c.of<uint64_t>({0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff});
  uint64_t n = c.of<uint64_t>({0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff});
  int k = c.pick(3);
  if (k == 0) m.r[{a, b}] = n;
  else if (k == 1) m.a[a] = n, m.a[b] = n;
  else m.b[{a, b}] = n;
  c.say(m.Text());
  MemFile f("");
  TextSampleReaderWriter w(f.path());
  if (k == 0) w.IncRange(a, b, n);
  else if (k == 2) w.IncBranch(a, b, n);
  else w.SetAddressCountMap(m.a);
  c.check(w.Write(nullptr), "write-fails", "Write returned false");
  c.eq(ReadFile(f.path()), m.Text(), "written-text");
  TextSampleReaderWriter r(f.path());
  c.check(r.ReadAndSetTotalCount(), "read-fails", "cannot read back what was written");
  Same(c, r, m, "round-trip", "written and read back");
  c.eq(r.GetTotalCount(), m.Weight(), "total-count");
  c.nontrivial();
}
void R01Merge(Ctx& c) {  // several files: by Append, by Merge
  int n = 1 + c.pick(3);
  Model total;
  TextSampleReaderWriter by_append, by_merge;
  std::string say;
  for (int i = 0; i < n; ++i) {
    Model m = n == 3 ? PickModel(c, 1, 1, 2) : PickModel(c, 1, 2, mc::tier(2, 3));
    if (c.flip()) m.a[0x10] += 3;
    say += m.Text() + "--\n";
    MemFile f(m.Text());
    c.check(by_append.Append(f.path()), "read-fails", "Append");
    TextSampleReaderWriter one(f.path());
    c.check(one.ReadAndSetTotalCount(), "read-fails", "Read");
    by_merge.Merge(one);
    Same(c, one, m, "round-trip", "one file");
    total.Add(m);
  }
  c.say(say);
  Same(c, by_append, total, "append-sum", "appended");
  Same(c, by_merge, total, "merge-sum", "merged");
  Queries(c, by_merge, total);
  by_merge.Clear();
  Same(c, by_merge, Model(), "clear", "after Clear");
  c.nontrivial();
  c.outcome(total.Text());
}
void R01Broken(Ctx& c) {  // a file that stops early, or has a line damaged
  Model m = PickModel(c, 2, 2, 2);
  std::string text = m.Text();
  std::vector<size_t> lines{0};
  for (size_t i = 0; i + 1 < text.size(); ++i)
    if (text[i] == '\n') lines.push_back(i + 1);
  if (c.flip()) {
    size_t cut = c.pick(text.size());
    c.say(text.substr(0, cut));
    MemFile f(text.substr(0, cut));
    TextSampleReaderWriter r(f.path());
    bool ok = r.ReadAndSetTotalCount();
    // Complete up to (at least) the first digit of the last number.
    size_t last = text.find_last_of(":\n", text.size() - 2);
    bool complete = last != std::string::npos && cut > last + 1;
    c.eq(ok, complete, "truncated", "a file cut after " + std::to_string(cut) + " of " + std::to_string(text.size()) + " bytes");
    c.outcome(ok);
  } else {  // a line lost
    size_t k = c.pick(lines.size());
    size_t end = text.find('\n', lines[k]);
    std::string cut = text.substr(0, lines[k]) + text.substr(end + 1);
    c.say(cut);
    MemFile f(cut);
    TextSampleReaderWriter r(f.path());
    bool ok = r.ReadAndSetTotalCount();
    // What is left may read as some other table by accident; a missing record
    // never does.
    bool header = text.substr(lines[k], end - lines[k]).find(':') == std::string::npos;
    if (!header) c.check(!ok, "lost-line", "a file with a record missing is accepted");
    c.outcome(ok);
  }
  c.nontrivial();
}
void R01Fails(Ctx& c) {  // the file cannot be read or written
  int kind = c.pick(4);
  Model m;
  m.r[{0x10, 0x20}] = 5;
  m.a[0x10] = 7;
  m.b[{0x10, 0x30}] = 9;
  if (kind == 0) {
    TextSampleReaderWriter r("/nonexistent-verif/x");
    c.check(!r.ReadAndSetTotalCount(), "missing-file-read", "a missing file was read");
    c.check(!r.IsFileExist(), "missing-file-exists", "a missing file exists");
    Fill(&r, m);
    c.check(!r.Write(nullptr), "missing-dir-written", "a file in a missing directory was written");
  } else if (kind == 1) {
    TextSampleReaderWriter w("/dev/full");
    Fill(&w, m);
    c.check(!w.Write(c.flip() ? "aux" : nullptr), "full-device", "Write to a full device reports success");
  } else if (kind == 2) {  // every size at which the disk is full
    std::string text = m.Text();
    if (c.flip())
      for (int i = 0; i < 900; ++i) m.a[0x1000 + i] = i + 1;  // more than a stdio buffer
    text = m.Text();
    size_t limit = text.size() < 200 ? c.pick(text.size() + 1) : text.size() - std::min<size_t>(text.size(), c.pick(12) * 1000);
    std::string f = ScratchFile("R01");
    auto r = Isolate([&] {
      signal(SIGXFSZ, SIG_IGN);
      TextSampleReaderWriter w(f);
      Fill(&w, m);
      struct rlimit lim = {limit, RLIM_INFINITY};
      setrlimit(RLIMIT_FSIZE, &lim);
      return std::string(w.Write(nullptr) ? "written" : "failed");
    });
    unlink(f.c_str());
    c.check(r.ok, "write-crash", "Write ends with " + r.how);
    c.eq(r.out, limit >= text.size() ? "written" : "failed", "disk-full", "limit " + std::to_string(limit) + " of " + std::to_string(text.size()));
  } else {
    MemFile f(m.Text());
    TextSampleReaderWriter r(f.path());
    c.check(r.IsFileExist(), "file-exists", "an existing file does not exist");
    r.set_profile_file("/nonexistent-verif/x");
    c.check(!r.IsFileExist() && !r.ReadAndSetTotalCount(), "set-file", "set_profile_file has no effect");
    r.set_profile_file(f.path());
    c.check(r.IsFileExist() && r.ReadAndSetTotalCount(), "set-file", "set_profile_file has no effect");
    Same(c, r, m, "round-trip", "read");
  }
  c.nontrivial();
  c.outcome(kind);
}
// ---------------------------------------------------------------- R02
struct Loc {
  uint64_t ip;
  int dso;  // 0: the program, 1: another file, -1: not mapped
  uint64_t off;
};
// The program at 0x400000 (offset 0), the library at 0x7f0000000000 (offset 0x80).
const Loc kLoc[] = {
    {0x400100, 0, 0x100},          {0x400200, 0, 0x200}, {0x7f0000000100, 1, 0x180}, {0x402100, 0, 0x2100}, {0x10, -1, 0},
    {0x400000 + 0x100100, 0, 0x100100}, {0x400000 + 0x100101, 0, 0x100101},
};
struct Entry {
  Loc from, to;
  int spec;
};
struct Smp {
  Loc ip;
  uint64_t time;
  std::vector<Entry> stack;
};
// What the samples mean, for the file whose code is `dso`.
void Expect(const std::vector<Smp>& samples, const std::function<bool(const Loc&)>& in, Model* m, uint64_t stride = 0x1000) {
  for (auto& s : samples) {
    if (in(s.ip)) {
      ++m->a[s.ip.off];
      m->t.insert({s.ip.off, s.time});
    }
    int younger = -1;  // the entry that was executed next
    for (int i = 0; i < static_cast<int>(s.stack.size()); ++i) {
      const Entry& e = s.stack[i];
      if (e.spec == quipper::PERF_BR_SPEC_WRONG_PATH) continue;
      int y = younger;
      younger = i;
      if (y < 0) {
        if (in(e.from) && in(e.to)) ++m->b[{e.from.off, e.to.off}];
        continue;
      }
      if (!in(e.to)) continue;
      const Entry& n = s.stack[y];
      if (i == 1 && y == 0 && n.from.off == e.from.off && n.to.off == e.to.off && e.from.off - e.to.off > stride) continue;
      if (!in(n.from) || n.from.off < e.to.off || n.from.off - e.to.off > 1 << 20) continue;
      ++m->r[{e.to.off, n.from.off}];
      if (in(e.from)) ++m->b[{e.from.off, e.to.off}];
    }
  }
}
void Emit(Data* d, const std::vector<Smp>& samples, uint32_t pid = 1) {
  for (auto& s : samples) {
    auto* e = d->Sample(pid, s.ip.ip, s.time);
    for (auto& b : s.stack) Data::Branch(e, b.from.ip, b.to.ip, b.spec);
  }
}
std::string Show(const std::vector<Smp>& samples) {
  std::string o;
  auto loc = [](const Loc& l) { return std::string(l.dso == 0 ? "prog+" : l.dso == 1 ? "lib+" : "?") + H(l.off); };
  for (auto& s : samples) {
    o += "ip " + loc(s.ip) + " time " + std::to_string(s.time) + ":";
    for (auto& e : s.stack) o += " [" + loc(e.from) + "->" + loc(e.to) + (e.spec == 1 ? " wrong path" : e.spec ? " spec " + std::to_string(e.spec) : "") + "]";
    o += "\n";
  }
  return o;
}
const char kProg[] = "/usr/bin/prog";
const char kLib[] = "/usr/lib/lib.so";
const std::string kId("\x12\xab\x00\xff\x34", 5);
const char kIdHex[] = "12ab00ff34";
void Maps(Data* d, bool swapped = false) {
  if (swapped) d->MMap(1, 0x7f0000000000, 0x10000, 0x80, kLib);
  d->MMap(1, 0x400000, 0x200000, 0, kProg);
  if (!swapped) d->MMap(1, 0x7f0000000000, 0x10000, 0x80, kLib);
}
void Verify(Ctx& c, const SampleReader& r, const Model& m) {
  c.check(r.address_count_map() == m.a, "lbr-addresses", "got\n" + Of(r).Text() + "expected\n" + m.Text());
  c.check(r.range_count_map() == m.r, "lbr-ranges", "got\n" + Of(r).Text() + "expected\n" + m.Text());
  c.check(r.branch_count_map() == m.b, "lbr-branches", "got\n" + Of(r).Text() + "expected\n" + m.Text());
  c.check(r.address_timestamp_map() == m.t, "lbr-timestamps", "timestamps differ");
}
bool InProg(const Loc& l) { return l.dso == 0; }
// Every stack of up to n entries over a set of locations.
void R02Stack(Ctx& c) {
  int depth = mc::tier(3, 4);
  std::vector<Smp> ss(1);
  ss[0].ip = kLoc[c.pick(5)];
  ss[0].time = 5;
  bool ids = c.flip();
  int n = c.pick(depth + 1);
  // Longer stacks over fewer locations.
  int locs = n <= 2 ? 7 : n == 3 ? mc::tier(4, 5) : 3;
  for (int i = 0; i < n; ++i) {
    Entry e;
    e.from = kLoc[c.pick(locs)];
    e.to = kLoc[c.pick(locs)];
    e.spec = c.pick(2);
    if (!e.spec && n < 3) e.spec = c.of({0, 2, 3});
    ss[0].stack.push_back(e);
  }
  c.say(Show(ss));
  Data d;
  Maps(&d);
  Emit(&d, ss);
  d.BuildId(kId, kProg);
  MemFile f(d.Ser());
  PerfDataSampleReader r(f.path(), "bin/prog$", ids ? kIdHex : "");
  c.check(r.ReadAndSetTotalCount(), "lbr-read", "Read failed");
  Model m;
  Expect(ss, InProg, &m);
  Verify(c, r, m);
  c.eq(r.GetTotalCount(), m.Weight(), "lbr-total");
  Queries(c, r, m);
  c.check(!r.IsKernelSample(), "lbr-kernel", "not a kernel profile");
  if (!m.r.empty() || !m.b.empty()) c.nontrivial();
  c.outcome(m.Text());
}
// Several samples and several files add up; the first time stamp is kept.
void R02Several(Ctx& c) {
  int files = 1 + c.pick(3);
  bool ids = c.flip();
  MemFile empty("");
  PerfDataSampleReader r(empty.path(), "bin/prog$", ids ? kIdHex : "");
  Model m;
  std::string say;
  uint64_t time = 0;
  for (int i = 0; i < files; ++i) {
    int k = 1 + c.pick(files == 1 ? 3 : (files == 2 ? mc::tier(1, 2) : 1));
    std::vector<Smp> ss;
    for (int j = 0; j < k; ++j) {
      Smp s;
      s.ip = kLoc[c.pick(3)];
      s.time = 100 - ++time;
      int shape = c.pick(4);
      if (shape & 1) s.stack.push_back({kLoc[1], kLoc[0], 0});
      if (shape & 2) s.stack.push_back({kLoc[3], kLoc[shape & 1 ? 0 : 2], 0});
      ss.push_back(s);
    }
    // Where the files were mapped, and whether the program was there at all.
    int env = c.pick(files == 1 ? 1 : 4);
    Data d;
    Maps(&d, env == 1);
    Data with;
    bool here = true;
    if (env == 2) {  // a profile of other programs only
      with.MMap(1, 0x400000, 0x200000, 0, "/usr/bin/unrelated");
      with.MMap(1, 0x7f0000000000, 0x10000, 0x80, kLib);
      with.BuildId("\x01\x02", "/usr/bin/unrelated");
      here = false;
      d = with;
    } else if (env == 3) {  // a further file is mapped first
      with.MMap(1, 0x10000000, 0x1000, 0, "/usr/bin/unrelated");
      Maps(&with);
      with.BuildId(kId, kProg);
      d = with;
    } else {
      d.BuildId(kId, kProg);
    }
    Emit(&d, ss);
    say += "file " + std::to_string(env) + "\n" + Show(ss);
    MemFile f(d.Ser());
    c.check(r.Append(f.path()), "lbr-read", "Append failed");
    if (here) Expect(ss, InProg, &m);
  }
  c.say(say);
  Verify(c, r, m);
  c.nontrivial();
  c.outcome(m.Text());
}
// Which mapped files count as the profiled one.
void R02Match(Ctx& c) {
  static const char* const kNames[] = {"/usr/bin/prog", "/opt/copy", "[kernel.kallsyms]_text", "[kernel.kallsyms]_stext", "[kernel.kallsyms]", "/usr/bin/prog.old", "/boot/vmlinux"};
  static const char* const kIdNames[] = {"/usr/bin/prog", "/opt/copy", "[kernel.kallsyms]", "/boot/vmlinux", "vmlinux", "mlinux", "", "vmlinux.old"};
  std::string id = c.of<const char*>({"", kIdHex, "12ab00ff", "12AB00FF34"});
  const char* re = c.of<const char*>({"prog$", ".*/prog", "^/opt", "kernel", "prog"});
  Data d;
  std::string say = std::string("id '") + id + "' re '" + re + "' ids:";
  std::set<std::string> focus;
  bool kernel = false;
  int nid = c.pick(mc::tier(3, 4));
  for (int i = 0; i < nid; ++i) {
    std::string name = kIdNames[c.pick(8)];
    bool same = c.flip();
    for (auto& b : d.p.build_ids())
      if (b.filename() == name) c.prune();
    d.BuildId(same ? kId : std::string("\x99", 1), name);
    say += " '" + name + "'" + (same ? "=" : "");
    if (id.empty() || !same || id != kIdHex) continue;
    if (name == "[kernel.kallsyms]" || (name.size() >= 7 && name.substr(name.size() - 7) == "vmlinux")) {
      kernel = true;
      for (auto k : {"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text"}) focus.insert(k);
    } else {
      focus.insert(name);
    }
  }
  Model m;
  for (int i = 0; i < 7; ++i) d.MMap(1, 0x10000 * (i + 1), 0x1000, 0x100 * i, kNames[i]);
  for (int i = 0; i < 7; ++i) {
    auto* s = d.Sample(1, 0x10000 * (i + 1) + 0x10 + i, 7);
    Data::Branch(s, 0x10000 * (i + 1) + 0x30, 0x10000 * (i + 1) + 0x20);
    bool in;
    std::string n = kNames[i];
    if (id.empty()) {
      std::string e = re;
      in = e == "^/opt" ? n == "/opt/copy" : e == "kernel" ? n.find("kernel") != std::string::npos : e == "prog$" ? n == "/usr/bin/prog" : n.find("/prog") != std::string::npos;
    } else {
      in = focus.count(n);
    }
    uint64_t base = 0x100 * i;
    if (in) {
      ++m.a[base + 0x10 + i];
      m.t.insert({base + 0x10 + i, 7});
      ++m.b[{base + 0x30, base + 0x20}];
    }
  }
  // An address outside of every mapping belongs to no file.
  d.Sample(1, 0x90000, 7);
  d.Sample(2, 0x10010, 7);  // another process
  c.say(say);
  MemFile f(d.Ser());
  PerfDataSampleReader r(f.path(), re, id);
  c.check(r.ReadAndSetTotalCount(), "lbr-read", "Read failed");
  Verify(c, r, m);
  c.eq(r.IsKernelSample(), kernel, "lbr-kernel");
  if (!m.a.empty()) c.nontrivial();
  c.outcome(m.Text());
}
// Events that are not samples, and files that are no perf data.
void R02Input(Ctx& c) {
  int k = c.pick(4);
  MemFile f(k == 1 ? std::string("\xff\xff\xff not perf data") : "");
  PerfDataSampleReader r(k == 0 ? "/nonexistent-verif/x" : f.path(), "prog", "");
  if (k < 2) {
    c.check(!r.ReadAndSetTotalCount(), "lbr-bad-input", "unreadable perf data was accepted");
    Verify(c, r, Model());
    return;
  }
  Data d;
  Maps(&d);
  for (int i = 0; i < 3; ++i) {
    int e = c.pick(4);
    if (e == 0) d.Ev(quipper::PERF_RECORD_COMM, 3)->mutable_comm_event()->set_pid(1);
    else if (e == 1) d.Ev(quipper::PERF_RECORD_FORK, 3)->mutable_fork_event()->set_pid(2);
    else if (e == 2) d.MMap(2, 0x400000, 0x1000, 0, kProg);
    else d.Sample(1, 0x400100, 9);
  }
  MemFile g(d.Ser());
  Model m;
  for (auto& e : d.p.events())
    if (e.has_sample_event()) ++m.a[0x100], m.t[0x100] = 9;
  c.check(r.Append(g.path()), "lbr-read", "Append failed");
  Verify(c, r, m);
  c.nontrivial();
  c.outcome(m.Text());
}
}  // namespace
int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  return mc::Main(argc, argv,
                  {{"R01/round-trip", R01RoundTrip, 3},
                   {"R01/counts", R01Counts, 2},
                   {"R01/merge", R01Merge, 4},
                   {"R01/broken", R01Broken, 4},
                   {"R01/fails", R01Fails, 1},
                   {"R02/stack", R02Stack, 5},
                   {"R02/several", R02Several, 4},
                   {"R02/match", R02Match, 4},
                   {"R02/input", R02Input, 2}});
}
