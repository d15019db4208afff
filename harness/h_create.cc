// P01: from samples to a source profile.
#include "base/logging.h"
#include "mc.h"
#include "isolate.h"
#include "bytesbuf.h"
#include "elfgen.h"
#include "addr2line.h"
#include "gcov.h"
#include "profile.h"
#include "profile_creator.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "sample_reader.h"
#include "symbol_map.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
#if defined(HAVE_LLVM)
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "profile_symbol_list.h"
#endif
#include "creategen.h"
#include "perfgen.h"
ABSL_DECLARE_FLAG(bool, use_lbr);
ABSL_DECLARE_FLAG(bool, llc_misses);
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
ABSL_DECLARE_FLAG(double, sample_threshold_frac);
ABSL_DECLARE_FLAG(std::string, focus_binary_re);
#if defined(HAVE_LLVM)
ABSL_DECLARE_FLAG(bool, use_discriminator_encoding);
ABSL_DECLARE_FLAG(bool, use_discriminator_multiply_factor);
#endif
using mc::Ctx;
using namespace devtools_crosstool_autofdo;
namespace {
#if defined(HAVE_LLVM)
constexpr bool kLlvm = true;
uint32_t Encode(uint32_t base, uint32_t dup) { return llvm::DILocation::encodeDiscriminator(base, dup, 0).value(); }
#else
constexpr bool kLlvm = false;
uint32_t Encode(uint32_t, uint32_t) { return 0; }
#endif
class FakeLines : public Addr2line {
 public:
  explicit FakeLines(const cg::World* w) : Addr2line("fake"), w_(w) {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, SourceStack* stack) const override {
    for (auto& f : w_->Of(a)) stack->push_back(SourceInfo(f.fn, "", f.file, f.start, f.line, f.disc));
  }

 private:
  const cg::World* w_;
};
class MapReader : public SampleReader {
 public:
  explicit MapReader(const cg::Samples& s) : s_(s) {}

 protected:
  bool Read() override {
    auto off = [](uint64_t a) { return a - cg::kText + cg::kFileOff; };
    for (auto& [r, n] : s_.range) range_count_map_[{off(r.first), off(r.second)}] = n;
    for (auto& [b, n] : s_.branch) branch_count_map_[{off(b.first), off(b.second)}] = n;
    for (auto& [a, n] : s_.addr) address_count_map_[off(a)] = n;
    for (auto& [a, n] : s_.time) address_timestamp_map_[off(a)] = n;
    return true;
  }
  cg::Samples s_;
};
const char* const kPolicy[] = {"none", "selected", "all"};
// The link-time image of a world, without debug information.
const std::string& Image(const cg::World& w) {
  static std::string path;
  if (path.empty()) {
    path = ScratchFile("create.elf");
    WriteFile(path, cg::Binary(w, false));
    atexit([] { unlink(path.c_str()); });
  }
  return path;
}
const cg::World& Kind(int k) {
  static const cg::World w[] = {cg::TheWorld(0), cg::TheWorld(1), cg::TheWorld(2, Encode)};
  return w[k];
}
void SetFlags(const cg::Flags& f, int kind) {
  absl::SetFlag(&FLAGS_use_lbr, f.lbr);
  absl::SetFlag(&FLAGS_llc_misses, f.llc);
  absl::SetFlag(&FLAGS_sample_threshold_frac, f.frac);
  absl::SetFlag(&FLAGS_suffix_elision_policy, std::string(kPolicy[f.policy]));
  cg::Encoded() = kind == 2;
#if defined(HAVE_LLVM)
  absl::SetFlag(&FLAGS_use_discriminator_encoding, kind == 2);
#endif
}
void Compare(Ctx& c, cg::Samples s, const cg::Flags& f, int kind, const char* key, uint64_t by = 1) {
  const cg::World& w = Kind(kind);
  if (by > 1) {  // counts of more than 32 bits
    for (auto* m : {&s.range, &s.branch})
      for (auto& x : *m) x.second *= by;
    for (auto& x : s.addr) x.second *= by;
  }
  c.say("world " + std::to_string(kind) + " lbr=" + std::to_string(f.lbr) + " llc=" + std::to_string(f.llc) + " frac=" + std::to_string(f.frac) + " elide=" + kPolicy[f.policy] + ": " + s.Show());
  SetFlags(f, kind);
  SymbolMap map(Image(w));
  map.ReadLoadableExecSegmentInfo(false);
  map.set_addr2line(std::make_unique<FakeLines>(&w));
  MapReader reader(s);
  c.check(reader.ReadAndSetTotalCount(), key, "samples read");
  c.eq(reader.GetTotalCount(), s.Total(), key, "total count");
  Profile profile(&reader, Image(w), map.get_addr2line(), &map);
  profile.ComputeProfile();
  ShowOpt so;
  so.ts = so.file = true;
  std::string want = Show(cg::Expect(w, s, f), so), got = Show(FromMap(map), so);
  c.eq(got, want, key, "profile");
  c.eq(map.count_threshold(), cg::Threshold(s, f), key, "threshold");
  c.outcome(want);
  if (want.find("->") != std::string::npos || want.find(":1") != std::string::npos) c.nontrivial();
}
uint64_t A(int off) { return cg::kText + off; }
struct R {
  int a, b;
};
const R kRanges[] = {{0, 5}, {2, 4}, {4, 9}, {8, 11}, {8, 13}, {12, 13}, {16, 18}, {6, 9}, {3, 3}, {17, 24}};
const R kBranches[] = {{1, 8}, {4, 16}, {10, 8}, {9, 16}, {2, 12}, {5, 3}, {6, 8}, {17, 0}, {3, 8}, {5, 8}, {12, 8}, {11, 16}};
const int kAddrs[] = {0, 2, 3, 4, 7, 8, 9, 10, 12, 16, 17};
template <class T, int N, class F>
void Subset(Ctx& c, const T (&menu)[N], int most, F add) {
  int from = 0;
  for (int k = 0; k < most && from < N; ++k) {
    int x = c.pick(N - from + 1);
    if (x == 0) return;
    add(menu[from + x - 1]);
    from += x;
  }
}
void Lbr(Ctx& c) {
  cg::Samples s;
  cg::Flags f;
  int kind = c.pick(kLlvm ? 3 : 2);
  f.policy = c.pick(3);
  f.frac = c.flip() ? 0.5 : 0;
  Subset(c, kRanges, mc::tier(2, 3), [&](const R& r) { s.range[{A(r.a), A(r.b)}] = c.flip() ? 9 : 2; });
  Subset(c, kBranches, 2, [&](const R& r) { s.branch[{A(r.a), A(r.b)}] = 3 + s.branch.size() * 4; });
  if (c.flip()) s.addr[A(16)] = 50;  // says nothing when there are ranges
  Compare(c, s, f, kind, "profile/lbr", f.frac == 0 && f.policy != 1 && c.flip() ? 0x300000001ull : 1);
}
void Plain(Ctx& c) {
  cg::Samples s;
  cg::Flags f;
  f.lbr = false;
  int kind = c.pick(kLlvm ? 3 : 2);
  f.policy = c.pick(3);
  f.frac = c.flip() ? 0.5 : 0;
  Subset(c, kAddrs, mc::tier(3, 4), [&](int a) { s.addr[A(a)] = c.flip() ? 11 : 4; });
  Subset(c, kBranches, 1, [&](const R& r) { s.branch[{A(r.a), A(r.b)}] = 5; });
  Compare(c, s, f, kind, "profile/addresses", f.frac == 0 && f.policy != 1 && c.flip() ? 0x300000001ull : 1);
}
void Misses(Ctx& c) {
  cg::Samples s;
  cg::Flags f;
  f.lbr = c.flip();
  f.llc = true;
  int kind = c.pick(kLlvm ? 3 : 2);
  f.policy = c.pick(3);
  Subset(c, kAddrs, mc::tier(4, 6), [&](int a) { s.addr[A(a)] = 3 + a; });
  Compare(c, s, f, kind, "profile/misses", c.flip() ? 0x300000001ull : 1);
}
void Times(Ctx& c) {
  cg::Samples s;
  cg::Flags f;
  f.lbr = c.flip();
  f.policy = c.pick(3);
  for (auto& p : Kind(0).parts) {
    int x = c.pick(3);
    if (x && f.lbr) s.range[{p.start, p.end() - 1}] = x == 1 ? 20 : 1;
    if (x && !f.lbr) s.addr[p.start] = x == 1 ? 50 : 1;
  }
  static const int at[] = {0, 3, 8, 9, 12, 13, 16};
  static const uint64_t t[] = {70, 20, 90, 30, 50};
  Subset(c, at, mc::tier(2, 4), [&](int a) { s.time[A(a)] = t[c.pick(mc::tier(3, 5))]; });
  Compare(c, s, f, 0, "profile/time");
}
// ---------------------------------------------------------------- whole files
// The profile as a file holds it: emitted functions, totals from their bodies.
MProf InFile(const MProf& m, int64_t thr, bool ts) {
  MProf o;
  for (auto& f : m)
    if (static_cast<int64_t>(f.second.total) > thr) {
      o[f.first] = f.second;
      if (!ts) o[f.first].ts = 0;
      Retotal(o[f.first]);
    }
  return o;
}
std::string Text(const cg::Samples& s) {
  std::ostringstream o;
  auto off = [](uint64_t a) { return a - cg::kText + cg::kFileOff; };
  o << std::hex << s.range.size() << "\n";
  for (auto& [r, n] : s.range) o << off(r.first) << "-" << off(r.second) << ":" << std::dec << n << std::hex << "\n";
  o << std::dec << s.addr.size() << std::hex << "\n";
  for (auto& [a, n] : s.addr) o << off(a) << ":" << std::dec << n << std::hex << "\n";
  o << std::dec << s.branch.size() << std::hex << "\n";
  for (auto& [b, n] : s.branch) o << off(b.first) << "->" << off(b.second) << ":" << std::dec << n << std::hex << "\n";
  return o.str();
}
// Writes `map` like the product does and reads it back, or hands over bytes.
enum Format { kGcov2, kGcov3, kLlvmText, kLlvmBinary, kLlvmExt };
std::unique_ptr<ProfileWriter> Writer(Format f) {
  if (f == kGcov2 || f == kGcov3) {
    absl::SetFlag(&FLAGS_gcov_version, f == kGcov2 ? 2 : 3);
    return std::make_unique<AutoFDOProfileWriter>(f == kGcov2 ? 2 : 3);
  }
#if defined(HAVE_LLVM)
  return std::make_unique<LLVMProfileWriter>(f == kLlvmText ? llvm::sampleprof::SPF_Text : f == kLlvmBinary ? llvm::sampleprof::SPF_Binary : llvm::sampleprof::SPF_Ext_Binary);
#else
  abort();
#endif
}
[[maybe_unused]] const char* const kListed[] = {"main", "foo", "foo.cold", "bar", "bar.llvm.9", "baz", "inl"};
std::string Content(Ctx& c, const std::string& file, Format f, std::string* list = nullptr) {
  SymbolMap got;
  got.set_suffix_elision_policy("none");
  ShowOpt so;
  so.ts = f <= kGcov3;
  if (f <= kGcov3) {
    AutoFDOProfileReader r(&got, true);
    c.check(r.ReadFromFile(file), "files/readable", "the profile cannot be read");
    return Show(FromMap(got), so);
  }
#if defined(HAVE_LLVM)
  absl::node_hash_set<std::string> names;
  if (f == kLlvmText && ReadFile(file).empty()) return "";  // no function at all
  LLVMProfileReader r(&got, names);
  c.check(r.ReadFromFile(file), "files/readable", "the profile cannot be read");
  if (list) {
    llvm::LLVMContext ctx;
    auto fs = llvm::vfs::getRealFileSystem();
    auto reader = llvm::sampleprof::SampleProfileReader::create(file, ctx, *fs);
    if (reader && !(*reader)->read()) {
      std::set<std::string> all;
      if (auto l = (*reader)->getProfileSymbolList())
        for (auto n : kListed)
          if (l->contains(n)) all.insert(n);
      for (auto& n : all) *list += n + " ";
    }
  }
  return Show(FromMap(got), so);
#endif
  return "";
}
constexpr uint64_t kLoad = 0x7f0000400000;  // where the perf files map the segment
void Files(Ctx& c) {
  const cg::World& w = [&]() -> const cg::World& {
    static const cg::World w0 = cg::TheWorld(0), w3 = cg::TheWorld(3);
    return c.flip() ? w3 : w0;
  }();
  cg::Flags f;
  f.policy = c.pick(3);
  f.lbr = c.pick(2) == 0;
  Format fmt = kLlvm ? c.of<Format>({kLlvmText, kLlvmBinary, kLlvmExt}) : c.of<Format>({kGcov3, kGcov2});
  TempDir dir;
  const bool perf = c.flip();
  bool list = fmt == kLlvmExt && c.flip();
  cg::Samples s;
  std::string name = "prog", id, focus, in = dir.path + "/samples";
  if (!perf) {
    int n = c.pick(4);
    if (n & 1) s.range[{A(0), A(5)}] = 9, s.branch[{A(5), A(8)}] = 4, s.branch[{A(0x100), A(8)}] = 7;  // and from where no code is
    if (n & 2) s.range[{A(8), A(13)}] = 5, s.branch[{A(11), A(16)}] = 6, s.branch[{A(10), A(0)}] = 2;
    if (c.flip()) s.addr[A(16)] = 30, s.addr[A(2)] = 12;
    WriteFile(in, Text(s));
    s.time.clear();
  } else {
    id = c.of<const char*>({"", "\x12\x34\xab\x01\x02\x03\x04\x05"});
    int named_as = c.pick(3);
    if (named_as == 1) name = "prog.unstripped";
    if (named_as == 2) name = "p.og++";  // nothing special
    if (c.flip()) focus = "^/opt/copy$";
    absl::SetFlag(&FLAGS_focus_binary_re, focus);
    perfgen::Data d;
    const char* const kNames[] = {name == "p.og++" ? "/usr/bin/p.og++" : "/usr/bin/prog", "/opt/copy", name == "p.og++" ? "/usr/bin/prog" : "/usr/bin/prog.unstripped", "/prog/lib"};
    for (int i = 0; i < 4; ++i) d.MMap(1, kLoad + i * 0x10000, 0x1000, cg::kFileOff, kNames[i]);
    // The build id names another file; padded like quipper pads it.
    int named = id.empty() ? 0 : c.pick(3);
    if (named) d.BuildId(named == 1 ? id + std::string(20 - id.size(), '\0') : std::string(20, 'x'), "/opt/copy");
    for (int i = 0; i < 4; ++i) {
      bool in_prog;
      std::string n = kNames[i];
      if (!focus.empty()) in_prog = n == "/opt/copy";
      else if (!id.empty()) in_prog = named == 1 && n == "/opt/copy";
      else in_prog = i == 0;
      auto at = [&](int off) { return kLoad + i * 0x10000 + off; };
      for (int k = 0; k < 4 + i; ++k) {
        auto* x = d.Sample(1, at(8 + k % 2), 100 * (i + 1) + 7 * (k ^ 2));
        perfgen::Data::Branch(x, at(11), at(16));
        perfgen::Data::Branch(x, at(5), at(8));
        perfgen::Data::Branch(x, at(19), at(0));
        if (!in_prog) continue;
        ++s.addr[A(8 + k % 2)];
        s.time.insert({A(8 + k % 2), 100 * (i + 1) + 7 * (k ^ 2)});
        ++s.branch[{A(11), A(16)}];
        ++s.branch[{A(5), A(8)}];
        ++s.branch[{A(19), A(0)}];
        ++s.range[{A(8), A(11)}];
        ++s.range[{A(0), A(5)}];
      }
    }
    WriteFile(in, d.Ser());
  }
  std::string bin = dir.path + "/" + name, out = dir.path + "/out";
  WriteFile(bin, cg::Binary(w, true, id));
  c.say(std::string(perf ? "perf" : "text") + " format " + std::to_string(fmt) + " binary " + name + " id " + std::to_string(id.size()) + " focus '" + focus + "' lbr=" + std::to_string(f.lbr) + " elide=" + kPolicy[f.policy] + ": " + s.Show());
  SetFlags(f, 0);
  auto writer = Writer(fmt);
  ProfileCreator creator(bin);
  bool ok = creator.CreateProfile(in, perf ? "perf" : "text", writer.get(), out, list, kLlvm);
  absl::SetFlag(&FLAGS_focus_binary_re, "");
  c.check(ok, "files/created", "CreateProfile fails");
  writer.reset();
  uint64_t seen = 0;
  for (auto& x : s.range.empty() ? s.addr : std::map<uint64_t, uint64_t>()) seen += x.second;
  for (auto& x : s.range) seen += x.second;
  c.eq(creator.TotalSamples(), seen, "files/total", "samples seen");
  c.check(!creator.IsKernelSample(), "files/kernel", "not a kernel");
  MProf all = cg::Expect(w, s, f);
  std::string got_list, got = Content(c, out, fmt, list ? &got_list : nullptr), want;
  if (fmt <= kGcov3) {
    ShowOpt so;
    so.ts = true;
    want = Show(InFile(all, cg::Threshold(s, f), fmt == kGcov3), so);
  } else {
    // The same samples through the parts, which the other scenarios decide.
    SymbolMap map(bin);
    map.ReadLoadableExecSegmentInfo(false);
    map.set_addr2line(std::make_unique<FakeLines>(&w));
    MapReader reader(s);
    reader.ReadAndSetTotalCount();
    Profile profile(&reader, bin, map.get_addr2line(), &map);
    profile.ComputeProfile();
    auto again = Writer(fmt);
    again->setSymbolMap(&map);
    c.check(again->WriteToFile(dir.path + "/again"), "files/written", "cannot write");
    again.reset();
    want = Content(c, dir.path + "/again", fmt);
  }
  c.eq(got, want, "files/profile", "profile in the file");
#if defined(HAVE_LLVM)
  if (list) {
    SymbolMap map(bin);
    map.ReadLoadableExecSegmentInfo(false);
    map.set_addr2line(std::make_unique<FakeLines>(&w));
    MapReader reader(s);
    reader.ReadAndSetTotalCount();
    Profile profile(&reader, bin, map.get_addr2line(), &map);
    profile.ComputeProfile();
    llvm::sampleprof::ProfileSymbolList l;
    fillProfileSymbolList(&l, map.collectNamesForProfSymList(), &map, 1.0);
    std::set<std::string> all;
    std::string exp;
    for (auto n : kListed)
      if (l.contains(n)) all.insert(n);
    for (auto& n : all) exp += n + " ";
    c.eq(got_list, exp, "files/symbol-list", "functions without samples");
  }
#endif
  c.outcome(got + got_list);
  c.nontrivial();
}
// Prefetch hints.
void Hints(Ctx& c) {
  static const cg::World w = cg::TheWorld(3);
  static const int at[] = {0, 2, 3, 4, 6, 9, 13, 16, 30};
  static const int64_t deltas[] = {64, -128, INT64_MAX, INT64_MIN, 0};
  static const char* const kTypes[] = {"NTA", "T0", "T2", "ANUNUSUALLYLONGTYPEOFHINTWITHMANYMORELETTERSTHANALLOTHERS"};
  cg::Flags f;
  f.policy = c.pick(3);
  Format fmt = kLlvm ? kLlvmText : kGcov3;
  TempDir dir;
  std::string text;
  std::map<std::string, MSym> m;
  std::map<uint64_t, int> seen;
  std::set<std::pair<int, std::string>> lines;
  int n = 1 + c.pick(mc::tier(2, 3));
  bool eol = c.flip();
  for (int i = 0; i < n; ++i) {
    int a = at[c.pick(9)];
    const int64_t delta = deltas[i == 0 ? c.pick(5) : i];
    std::string type = kTypes[i == 0 ? c.pick(4) : i - 1];
    char b[100];
    snprintf(b, 100, "%lx,%ld,%s", A(a), delta, type.c_str());
    text += b;
    if (i + 1 < n || eol) text += "\n";
    auto* p = w.At(A(a));
    if (!p) continue;
    int k = seen[A(a)]++;
    auto st = w.Of(A(a));
    if (!m.count(p->name)) cg::Walk(&m[p->name], st, 1, false);
    if (MSym* leaf = cg::Walk(&m[p->name], st, 0, false)) {
      std::string t = "__prefetch_" + type + "_" + std::to_string(k);
      // Two instructions of one source line with the same hint name: one of them.
      if (leaf->pos[cg::Off(st[0])].targets.count(t)) c.prune();
      leaf->pos[cg::Off(st[0])].targets[t] = static_cast<uint64_t>(delta);
    }
  }
  c.say("hints:\n" + text + "elide=" + kPolicy[f.policy]);
  std::string bin = dir.path + "/prog", out = dir.path + "/out", in = dir.path + "/hints";
  WriteFile(bin, cg::Binary(w, true));
  WriteFile(in, text);
  SetFlags(f, 0);
  auto writer = Writer(fmt);
  ProfileCreator creator(bin);
  c.check(creator.CreateProfile(in, "prefetch", writer.get(), out), "hints/created", "CreateProfile fails");
  writer.reset();
  MProf want = cg::Elide(w, m, f.policy);
  std::function<void(MSym*)> zero = [&](MSym* s) {  // the bogus sample is in no position
    s->total = 0;
    for (auto& x : s->calls) zero(&x.second);
  };
  for (auto& x : want) zero(&x.second);
  ShowOpt so;
  so.total = false;
  std::string got = Content(c, out, fmt);
  SymbolMap map;
  c.outcome(got);
  if (fmt == kGcov3) {
    ShowOpt st;
    st.ts = true;
    c.eq(got, Show(want, st), "hints/profile", "profile");
  } else {
    for (auto& x : want)
      for (auto& p : x.second.pos)
        for (auto& t : p.second.targets)
          c.check(got.find("->" + t.first + "*" + std::to_string(t.second)) != std::string::npos, "hints/profile", "no " + t.first + " in " + got);
  }
  c.nontrivial();
}
// What must not be reported as a profile.
void Refused(Ctx& c) {
  static const cg::World w = cg::TheWorld(3);
  TempDir dir;
  std::string bin = dir.path + "/prog", in = dir.path + "/in", out = dir.path + "/out", profiler = c.of<const char*>({"text", "perf", "prefetch", "bogus", ""});
  char hex[2][20];
  snprintf(hex[0], 20, "%llx", static_cast<unsigned long long>(A(0)));
  snprintf(hex[1], 20, "%llx", static_cast<unsigned long long>(A(8)));
  std::string hint = std::string(hex[0]) + ",64,NTA\n" + hex[1] + ",64,T0\n", text = "1\n1000-1005:20\n1\n1001:40\n0\n";
  cg::Flags f;
  f.lbr = c.flip();
  SetFlags(f, 0);
  Format fmt = kLlvm ? kLlvmText : kGcov3;
  perfgen::Data d;
  d.MMap(1, kLoad, 0x1000, cg::kFileOff, "/usr/bin/prog");
  for (int i = 0; i < 20; ++i) {
    auto* x = d.Sample(1, kLoad + 1);
    perfgen::Data::Branch(x, kLoad + 5, kLoad + 8);
    perfgen::Data::Branch(x, kLoad + 9, kLoad + 1);
  }
  std::string good = profiler == "perf" ? d.Ser() : profiler == "prefetch" ? hint : text;
  bool well = profiler == "text" || profiler == "perf" || profiler == "prefetch";
  std::string say = "profiler '" + profiler + "'";
  int damage = c.pick(4);
  if (damage == 0) WriteFile(bin, cg::Binary(w, true));
  if (damage == 1) say += ", no binary", well = false;
  if (damage == 2) WriteFile(bin, "#!/bin/sh\nexit 1\n"), say += ", not a binary", well = false;
  if (damage == 3) WriteFile(bin, ""), say += ", an empty binary", well = false;
  int input = c.pick(4 + (profiler == "prefetch" ? 7 : profiler == "text" ? 3 : profiler == "perf" ? 1 : 0));
  if (input == 0) WriteFile(in, good);
  if (input == 1) say += ", no input", well = false;
  if ((input == 2 || input == 3) && profiler == "perf") c.prune();  // quipper's
  if (input == 2) in = dir.path, say += ", the input is a directory", well = false;
  if (input == 3) {
    WriteFile(in, "");
    say += ", an empty input";
    if (profiler != "prefetch") well = false;
  }
  if (input >= 4) {
    const std::string at(hex[0]);
    const std::string kBadHints[] = {"hello\n", at + ",64\n", at + ",64,NTA\n" + hex[1] + "\n", at + ",64,NTA\nxyz\n", at + " 64 NTA\n", at + ",,NTA\n", ",64,NTA\n"};
    static const char* const kBadText[] = {"hello\n", "1\n1000-1005\n0\n0\n", "2\n1000-1005:20\n"};
    std::string bad = profiler == "prefetch" ? kBadHints[input - 4] : profiler == "text" ? kBadText[input - 4] : "PERFILE";
    WriteFile(in, bad);
    say += ", input " + bad;
    well = false;
  }
  int output = c.pick(4);
  if (output == 1) out = dir.path + "/none/out", say += ", no output directory", well = false;
  if (output == 2) out = dir.path, say += ", the output is a directory", well = false;
  if (output == 3 && input == 3 && fmt == kLlvmText) c.prune();  // nothing to write
  if (output == 3 && access("/dev/full", W_OK)) c.prune();
  if (output == 3) out = "/dev/full", say += ", no space", well = false;
  c.say(say);
  auto r = Isolate([&] {
    auto writer = Writer(fmt);
    ProfileCreator creator(bin);
    return std::string(creator.CreateProfile(in, profiler, writer.get(), out) ? "created" : "refused");
  });
  if (well && input != 3) {
    c.check(r.ok && r.out == "created", "refused/well", "a good run ended with " + r.how + r.out);
    c.check(!ReadFile(out).empty() && Content(c, out, fmt).find("main") != std::string::npos, "refused/well", "no profile");
  } else if (well) {
    c.check(r.ok && r.out == "created", "refused/empty", "no hints ended with " + r.how + r.out);
  } else {
    // A fatal error message is a refusal; a crash is not.
    c.check(r.ok ? r.out == "refused" : r.how == "abort" || r.how == "exit 1", "refused/reported", "ended with " + r.how + r.out);
  }
  c.outcome(say + r.out + r.how);
  c.nontrivial();
}
// Merging sample files.
void MergeFiles(Ctx& c) {
  TempDir dir;
  static const cg::World w = cg::TheWorld(0);
  std::string bin = dir.path + "/prog", out = dir.path + "/merged";
  WriteFile(bin, cg::Binary(w, false));
  cg::Samples sum;
  auto add = [&](cg::Samples& s, int kind, uint64_t n) {
    if (kind & 1) s.range[{A(0), A(5)}] += n, s.branch[{A(5), A(8)}] += 1;
    if (kind & 2) s.addr[A(8)] += n * 2, s.range[{A(8), A(9)}] += 3;
    if (kind == 3) s.branch[{A(9), A(0)}] += 7 * n, s.addr[A(2)] += 1;
  };
  bool ok = true, perf = c.flip();
  std::string say = perf ? "perf" : "text";
  int have = c.pick(4);  // a previous result: 0 none, 1/2 good, 3 damaged
  if (have == 1 || have == 2) {
    cg::Samples s;
    add(s, have, 100);
    add(sum, have, 100);
    WriteFile(out, Text(s));
  }
  if (have == 3) WriteFile(out, "7\n"), ok = false;
  say += " previous " + std::to_string(have) + " inputs:";
  std::vector<std::string> ins;
  int n = c.pick(mc::tier(4, 5));
  for (int i = 0; i < n; ++i) {
    int kind = c.pick(6);
    say += " " + std::to_string(kind);
    std::string f = dir.path + "/in" + std::to_string(i);
    if (kind == 4) f = "";            // a trailing comma
    else if (kind == 5) ok = false;   // not there
    else if (perf) {
      perfgen::Data d;
      d.MMap(1, kLoad, 0x1000, cg::kFileOff, "/usr/bin/prog");
      d.MMap(1, kLoad + 0x10000, 0x1000, cg::kFileOff, "/usr/bin/other");
      for (int k = 0; k < kind; ++k) {
        auto* s = d.Sample(1, kLoad + 3);
        perfgen::Data::Branch(s, kLoad + 5, kLoad + 8);
        perfgen::Data::Branch(s, kLoad + 9, kLoad + 1);
        d.Sample(1, kLoad + 0x10003);
        ++sum.addr[A(3)];
        ++sum.range[{A(1), A(5)}];
        ++sum.branch[{A(5), A(8)}];
        ++sum.branch[{A(9), A(1)}];
      }
      WriteFile(f, d.Ser());
    } else {
      cg::Samples s;
      add(s, kind, i + 1);
      add(sum, kind, i + 1);
      WriteFile(f, Text(s));
    }
    ins.push_back(f);
  }
  c.say(say);
  auto r = Isolate([&] { return std::string(MergeSample(ins, perf ? "perf" : "text", bin, out) ? "merged" : "refused"); });
  if (!ok) {
    c.check(r.ok && r.out == "refused", "merge/reported", "ended with " + r.how + r.out);
  } else {
    c.check(r.ok && r.out == "merged", "merge/done", "ended with " + r.how + r.out);
    TextSampleReaderWriter got(out);
    c.check(got.ReadAndSetTotalCount(), "merge/readable", "the merged file cannot be read");
    cg::Samples s;
    auto back = [](uint64_t a) { return a + cg::kText - cg::kFileOff; };
    for (auto& [x, k] : got.range_count_map()) s.range[{back(x.first), back(x.second)}] = k;
    for (auto& [x, k] : got.branch_count_map()) s.branch[{back(x.first), back(x.second)}] = k;
    for (auto& [x, k] : got.address_count_map()) s.addr[back(x)] = k;
    c.eq(s.Show(), sum.Show(), "merge/sum", "merged samples");
    uint64_t seen = 0;
    for (auto& x : sum.range.empty() ? sum.addr : std::map<uint64_t, uint64_t>()) seen += x.second;
    for (auto& x : sum.range) seen += x.second;
    c.eq(ProfileCreator::GetTotalCountFromTextProfile(out), seen, "merge/total", "total of the merged file");
  }
  c.outcome(say);
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  return mc::Main(argc, argv, {
      {"P01/lbr", Lbr, 5},
      {"P01/addresses", Plain, 5},
      {"P01/misses", Misses, 5},
      {"P01/time", Times, 5},
      {"P01/files", Files, 5},
      {"P01/hints", Hints, 5},
      {"P01/refused", Refused, 3},
      {"P01/merge", MergeFiles, 4},
  });
}
