// L01-L04, P02: the LLVM side: sample profile files, symbol lists, source
// offsets, special functions when merging, and per-function instruction maps.
#include <algorithm>
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProf.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "mc.h"
#include "isolate.h"
#include "addr2line.h"
#include "instruction_map.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "profile_symbol_list.h"
#include "source_info.h"
#include "elfgen.h"
#include "profgen.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
ABSL_DECLARE_FLAG(bool, use_discriminator_multiply_factor);
using mc::Ctx;
namespace sp = llvm::sampleprof;
namespace {
// ---------------------------------------------------------------- L01
uint64_t Stored(uint64_t l) { return Loc((l >> 32) & 0xffff, l & 0xffffffff); }
MSym StoredSym(const MSym& s) {
  MSym o;
  o.total = s.total;
  o.head = s.head;
  for (auto& p : s.pos) {
    MPos& q = o.pos[Stored(p.first)];
    q.count += p.second.count;
    for (auto& t : p.second.targets) q.targets[t.first] += t.second;
  }
  for (auto& c : s.calls) MMerge(o.calls[{Stored(c.first.first), c.first.second}], StoredSym(c.second));
  return o;
}
MSym FromSamples(const sp::FunctionSamples& fs) {
  MSym m;
  m.total = fs.getTotalSamples();
  m.head = fs.getHeadSamples();
  for (auto& b : fs.getBodySamples()) {
    MPos& p = m.pos[Loc(b.first.LineOffset, b.first.Discriminator)];
    p.count += b.second.getSamples();
    for (auto& t : b.second.getCallTargets()) p.targets[t.first.stringRef().str()] += t.second;
  }
  for (auto& c : fs.getCallsiteSamples())
    for (auto& f : c.second) m.calls[{Loc(c.first.LineOffset, c.first.Discriminator), f.first.stringRef().str()}] = FromSamples(f.second);
  return m;
}
std::string LlvmRead(const std::string& file, MProf* out, bool* fs_disc) {
  llvm::LLVMContext ctx;
  sp::FunctionSamples::ProfileIsFS = false;
  auto r = sp::SampleProfileReader::create(file, ctx, *llvm::vfs::getRealFileSystem(), sp::FSDiscriminatorPass::PassLast);
  if (!r) return "no reader: " + r.getError().message();
  if (std::error_code ec = (*r)->read()) return "read: " + ec.message();
  for (auto& f : (*r)->getProfiles()) (*out)[f.second.getFuncName().str()] = FromSamples(f.second);
  *fs_disc = sp::FunctionSamples::ProfileIsFS;
  return "";
}
Prof PickLlvm(Ctx& c, int level) {
  static const std::vector<uint64_t> locs = {Loc(0, 0), Loc(1, 0), Loc(1, 3), Loc(65535, 0x12345678), Loc(65537, 0), Loc(0xfffffff0u, 1)};
  static const std::vector<uint64_t> counts = {11, 0xffffffffffull, 0};
  static const std::vector<std::string> names = {"main", "_ZN1fEv", "a b"};
  Prof p;
  std::string t0 = names[c.pick(2)];
  std::vector<std::string> tops = {t0};
  if (c.flip()) tops.push_back("zeta");
  std::string callee = c.flip() ? "inl" : tops.back();
  for (size_t i = 0; i < tops.size(); ++i) {
    const std::string& t = tops[i];
    uint64_t l = i == 0 ? c.of(locs) : locs[1];
    if (i == 0 || !c.flip()) p.recs.push_back({{{t, l}}, i == 0 ? c.of(counts) : 12});
    p.head[t] = {i == 0 ? c.of<uint64_t>({0, 0x123456789aull}) : 1, 0};
    if (i) continue;
    switch (c.pick(6)) {
      case 1: p.recs.push_back({{{callee, locs[2]}, {t, locs[1]}}, 6}); break;
      case 2:
        p.recs.push_back({{{callee, locs[2]}, {t, l}}, 6});
        p.recs.push_back({{{"leaf", locs[0]}, {callee, locs[3]}, {t, l}}, 9});
        p.recs.push_back({{{"zz", locs[0]}, {t, locs[5]}}, 2});
        break;
      case 3:
        p.recs.push_back({{{callee, locs[2]}, {t, locs[1]}}, 6});
        p.recs.push_back({{{"leaf", locs[4]}, {t, locs[1]}}, 8});
        p.recs.push_back({{{callee, locs[1]}, {t, locs[4]}}, 4});
        break;
      case 4: p.recs.push_back({{{"leaf", locs[0]}, {callee, locs[3]}, {t, locs[0]}}, 0}); break;
      case 5:  // three deep, then back at depth one
        p.recs.push_back({{{"d3", locs[1]}, {"d2", locs[2]}, {"d1", locs[1]}, {t, locs[0]}}, 5});
        p.recs.push_back({{{"e1", locs[1]}, {t, locs[1]}}, 7});
        p.recs.push_back({{{"d3", locs[0]}, {"e1", locs[2]}, {t, locs[1]}}, 3});
        break;
    }
    int tg = c.pick(4);
    if (tg & 1) p.targets.push_back({{{{t, l}}, 5}, callee});
    if (tg & 2) p.targets.push_back({{{{"in2", locs[1]}, {t, locs[1]}}, 0x300000000ull}, "_ZN1CD4Ev"});
    if (tg == 3) p.targets.push_back({{{{t, l}}, 6}, "other"});
  }
  return p;
}
const std::vector<std::pair<sp::SampleProfileFormat, const char*>>& Formats() {
  static const std::vector<std::pair<sp::SampleProfileFormat, const char*>> f = {{sp::SPF_Text, "text"}, {sp::SPF_Binary, "binary"}, {sp::SPF_Ext_Binary, "extbinary"}};
  return f;
}
std::string WriteLlvm(const Prof& p, int64_t threshold, sp::SampleProfileFormat f, const std::string& file, const std::set<std::string>& with_total) {
  SymbolMap sm;
  Build(p, &sm);
  for (auto& n : with_total) sm.AddSymbolEntryCount(n, 0, 100);  // samples without debug information
  sm.set_count_threshold(threshold);
  LLVMProfileWriter w(f);
  w.setSymbolMap(&sm);
  return w.WriteToFile(file) ? "" : "write failed";
}
void L01(Ctx& c, bool back, bool large = false) {
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  auto& f = Formats()[c.pick(3)];
  int64_t threshold = back ? 0 : c.of<int64_t>({0, 11, 13, -1});
  bool fs = !back && c.flip();
  Prof p;
  if (large) {
    int shape = c.pick(6), n = c.of(LargeSizes(shape));
    c.say("large shape " + std::to_string(shape) + " of " + std::to_string(n));
    p = LargeProfile(shape, n);
    p.files.clear();
  } else {
    p = PickLlvm(c, 0);
  }
  MProf m = Model(p);
  for (auto& x : m) x.second.ts = 0;
  std::set<std::string> nodebug;
  if (c.flip()) nodebug.insert(m.begin()->first);
  for (auto& n : nodebug) m[n].total += 100;
  MProf want;
  for (auto& x : m)
    if (static_cast<int64_t>(x.second.total) > threshold) want[x.first] = StoredSym(x.second);
  c.say(std::string(f.second) + " threshold " + std::to_string(threshold) + "\n" + Show(m));
  const std::string file = ScratchFile("llvmprof");
  SourceInfo::use_fs_discriminator = fs;
  std::string err = WriteLlvm(p, threshold, f.first, file, nodebug);
  SourceInfo::use_fs_discriminator = false;
  c.check(err.empty(), "write", err);
  if (f.first == sp::SPF_Text && want.empty()) {  // LLVM cannot tell the format of an empty file
    c.eq(ReadFile(file), std::string(), "llvm-empty", "an empty text profile");
    c.prune();
  }
  MProf got;
  bool isfs = false;
  err = LlvmRead(file, &got, &isfs);
  c.check(err.empty(), "llvm-read", err);
  c.eq(Show(got), Show(want), "llvm-content", "profile as LLVM reads it");
  if (f.first == sp::SPF_Ext_Binary) c.eq(isfs, fs, "llvm-fs", "profile marked as flow-sensitive");
  c.transition(2);
  if (back) {
    // the reader recomputes totals from the body counts
    int twice = c.pick(2);
    SymbolMap sm;
    absl::node_hash_set<std::string> names;
    MProf sum;
    for (int i = 0; i <= twice; ++i) {
      LLVMProfileReader r(&sm, names);
      c.check(r.ReadFromFile(file, sp::FSDiscriminatorPass::PassLast), "read", "the reader refuses the file");
      c.eq(r.ProfileIsFS(), false, "read-fs", "flow-sensitive mark");
    }
    for (auto& x : want) {
      MSym s = x.second;
      uint64_t t = s.total;
      Retotal(s);
      if (s.total == 0) s.total = t;
      MMerge(sum[x.first], s);
      if (twice) MMerge(sum[x.first], s);
    }
    c.eq(Show(FromMap(sm)), Show(sum), "read-content", std::string("profile read back") + (twice ? " twice" : ""));
  }
  c.outcome(Show(want) + f.second);
  c.nontrivial();
}
// Files that are cut short or are not profiles are refused.
void L01Damaged(Ctx& c) {
  auto& f = Formats()[1 + c.pick(2)];
  Prof p;
  p.recs.push_back({{{"main", Loc(1, 0)}}, 300});
  p.recs.push_back({{{"leaf", Loc(1, 2)}, {"main", Loc(2, 0)}}, 5});
  p.targets.push_back({{{{"main", Loc(1, 0)}}, 5}, "t"});
  const std::string file = ScratchFile("llvmcut");
  c.check(WriteLlvm(p, 0, f.first, file, {}).empty(), "write", "write failed");
  std::string good = ReadFile(file);
  int cut = c.pick(static_cast<int>(good.size()));
  c.say(std::string(f.second) + " cut to " + std::to_string(cut) + " of " + std::to_string(good.size()));
  WriteFile(file, good.substr(0, cut));
  Isolated r = Isolate([&] {
    SymbolMap sm;
    absl::node_hash_set<std::string> names;
    LLVMProfileReader rd(&sm, names);
    return rd.ReadFromFile(file, sp::FSDiscriminatorPass::PassLast) ? "accepted " + Show(FromMap(sm), {false}) : std::string("refused");
  });
  Isolated want = Isolate([&] {  // LLVM's own verdict
    MProf m;
    bool fs;
    return LlvmRead(file, &m, &fs).empty() ? "accepted " + Show(m, {false}) : std::string("refused");
  });
  unlink(file.c_str());
  if (want.ok) {
    c.check(r.ok, "cut-crash", "reading ends with " + r.how);
    c.eq(r.out, want.out, "cut-accepted", "reading a cut file");
  } else {  // LLVM ends the process itself
    c.eq(r.ok ? r.out : r.how, want.how, "cut-ends", "reading a file LLVM does not survive");
  }
  c.outcome(want.out + want.how + std::to_string(cut));
  c.nontrivial();
}
// The disk fills up at any point of the writing: never reported as written.
void L01Full(Ctx& c) {
  auto& f = c.of(Formats());
  Prof p;
  p.recs.push_back({{{"main", Loc(1, 0)}}, 300});
  p.recs.push_back({{{"leaf", Loc(1, 2)}, {"main", Loc(2, 0)}}, 5});
  p.targets.push_back({{{{"main", Loc(1, 0)}}, 5}, "t"});
  const std::string file = ScratchFile("llvmfull"), whole = ScratchFile("llvmwhole");
  c.check(WriteLlvm(p, 0, f.first, whole, {}).empty(), "write", "write failed");
  std::string good = ReadFile(whole);
  unlink(whole.c_str());
  int limit = c.pick(static_cast<int>(good.size()) + 1);
  c.say(std::string(f.second) + " limit " + std::to_string(limit) + " of " + std::to_string(good.size()));
  Isolated r = Isolate([&] {
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit l = {static_cast<rlim_t>(limit), RLIM_INFINITY};
    setrlimit(RLIMIT_FSIZE, &l);
    return WriteLlvm(p, 0, f.first, file, {}).empty() ? std::string("written") : std::string("failed");
  });
  std::string got = ReadFile(file);
  unlink(file.c_str());
  if (limit == static_cast<int>(good.size())) {
    c.eq(r.ok ? r.out : r.how, std::string("written"), "full-alarm", "writing with just enough room");
    c.check(got == good, "full-content", "the file differs");
  } else {
    c.check(!(r.ok && r.out == "written"), "full-accepted", "an incomplete file is reported as written");
    c.check(r.ok || r.how == "abort" || r.how == "exit 1", "full-crash", "writing ends with " + r.how);
  }
  c.outcome(r.out + r.how + std::to_string(limit) + f.second);
  c.nontrivial();
}
// ---------------------------------------------------------------- L02
void L02List(Ctx& c) {
  static const std::vector<std::string> names = {"a", "b.llvm.12", "c.cold", "d.x.y", "b"};
  static const std::vector<uint64_t> sizes = {0, 1, 2, 3, 6, 0x4000000000ull};
  int n = c.pick(mc::tier(4, 5) + 1);
  NameSizeList l;
  std::string d;
  for (int i = 0; i < n; ++i) {
    l.emplace_back(names[i], c.of(sizes));
    d += names[i] + "=" + std::to_string(l.back().second) + " ";
  }
  double ratio = c.of<double>({1.0, 0.5, 0.0, 0.75, 0.34, 0.001});
  std::string policy = c.of<std::string>({"selected", "all", "none"});
  c.say(d + "ratio " + std::to_string(ratio) + " " + policy);
  SymbolMap sm;
  sm.set_suffix_elision_policy(policy);
  sp::ProfileSymbolList got;
  fillProfileSymbolList(&got, l, &sm, ratio);
  // reference: the largest functions first until they cover the share of the total size
  std::vector<uint64_t> s;
  uint64_t total = 0;
  for (auto& x : l) { s.push_back(x.second); total += x.second; }
  std::sort(s.rbegin(), s.rend());
  uint64_t need = static_cast<uint64_t>(total * ratio);
  std::set<std::string> want;
  if (n && ratio > 0 && s[0] <= need) {
    uint64_t acc = 0, cut = 0;
    for (uint64_t x : s) {
      acc += x;
      cut = x;
      if (acc >= need) break;
    }
    for (auto& x : l)
      if (x.second >= cut) {
        std::string nm = x.first.str();
        if (policy == "all") nm = nm.substr(0, nm.find('.'));
        if (policy == "selected" && nm != "d.x.y") nm = nm.substr(0, nm.find('.'));
        want.insert(nm);
      }
  }
  std::string w, o;
  for (auto& x : want) w += x + " ";
  std::set<std::string> universe(names.begin(), names.end());
  for (auto& x : names) universe.insert(x.substr(0, x.find('.')));
  for (auto& x : universe)
    if (got.contains(x)) o += x + " ";
  c.eq(o, w, "list", "symbols listed");
  c.eq<uint64_t, uint64_t>(got.size(), want.size(), "list-size", "number of symbols listed");
  c.outcome(w + d);
  c.nontrivial();
}
// Names offered for the list: every function of the binary that the profile does not mention.
void L02Names(Ctx& c) {
  static const std::vector<std::string> fn = {"aa.llvm.5", "bbbb", "tttt", "iiii", "kkkk"};
  ElfGen e;
  std::vector<ElfSym> syms;
  std::string where;
  int have = c.pick(1 << fn.size());
  for (size_t i = 0; i < fn.size(); ++i)
    if (have >> i & 1) {
      ElfSym y;
      y.name = fn[i];
      y.value = 0x1000 + 0x100 * i;
      y.size = 10 + i;
      syms.push_back(y);
      where += fn[i] + " ";
    }
  ElfSym al = {};
  bool alias = (have & 2) && c.flip();
  if (alias) {  // a second name of the same function
    al.name = "balias";
    al.value = 0x1100;
    al.size = 11;
    syms.push_back(al);
    where += "balias";
  }
  ElfSection text;
  text.name = ".text";
  text.data = std::string(0x600, '\x90');
  text.flags = 6;
  text.addr = 0x1000;
  e.secs.push_back(text);
  e.AddSymtab(".symtab", 2, ".strtab", syms);
  const std::string file = ScratchFile("names");
  WriteFile(file, e.Build());
  SymbolMap sm(file);
  // With suffixes elided the profile says "aa" for "aa.llvm.5".
  const bool elided = c.flip();
  sm.set_suffix_elision_policy(elided ? "selected" : "none");
  unlink(file.c_str());
  Prof p;
  std::set<std::string> used;
  const std::string a = elided ? "aa" : fn[0];
  bool cold = c.flip();  // the profile has the function with a zero total
  p.head[a] = {0, 0};
  if (!cold) { p.recs.push_back({{{a, Loc(1, 0)}}, 5}); used.insert(a); used.insert(fn[0]); }
  if (c.flip()) { p.targets.push_back({{{{a, Loc(1, 0)}}, 5}, "tttt"}); if (!cold) used.insert("tttt"); }
  if (c.flip()) { p.recs.push_back({{{"iiii", Loc(1, 0)}, {a, Loc(2, 0)}}, 0}); if (!cold) used.insert("iiii"); }
  if (c.flip()) { p.targets.push_back({{{{"mid", Loc(3, 0)}, {"iiii", Loc(1, 0)}, {a, Loc(2, 0)}}, 5}, "kkkk"}); if (!cold) { used.insert("kkkk"); used.insert("iiii"); } }
  bool b = c.flip();
  if (b) { p.recs.push_back({{{"bbbb", Loc(1, 0)}}, 7}); used.insert("bbbb"); }
  Build(p, &sm);
  std::set<std::string> want;
  for (size_t i = 0; i < fn.size(); ++i)
    if ((have >> i & 1) && !used.count(fn[i])) want.insert(fn[i] + "=" + std::to_string(10 + i));
  c.say(Show(Model(p)) + "binary has " + where);
  std::string w, o;
  std::set<std::string> got;
  for (auto& x : sm.collectNamesForProfSymList()) got.insert(x.first.str() + "=" + std::to_string(x.second));
  for (auto& x : want) w += x + " ";
  for (auto& x : got) o += x + " ";
  c.eq(o, w, "names", "names offered");
  std::set<std::string> in, in_want;
  auto names = sm.collectNamesInProfile();
  for (auto& x : names) in.insert(x.getKey().str());
  if (elided) used.erase(fn[0]);
  for (auto& x : used) c.check(in.count(x), "names-in", x + " is in the profile but not among the names");
  c.outcome(w + where);
  c.nontrivial();
}
// ---------------------------------------------------------------- L03
uint32_t Prefix(uint32_t u) {
  if (u & 1) return 0;
  u >>= 1;
  return u & 0x20 ? ((u >> 1) & 0xfe0) | (u & 0x1f) : u & 0x1f;
}
uint32_t NextComp(uint32_t d) { return (d & 1) == 0 ? d >> (d & 0x40 ? 14 : 7) : d >> 1; }
bool Probe(uint32_t d) { return (d & 7) == 7 && (d & ~7u); }
uint32_t Base(uint32_t d, bool fs) {
  if (Probe(d)) return llvm::DILocation::getBaseDiscriminatorFromDiscriminator(d, fs);  // LLVM's own encoding
  return fs ? d & 0xff : Prefix(d);
}
void L03(Ctx& c) {
  bool fs = c.flip(), baseonly = c.flip(), enc = c.flip();
  uint32_t start = c.of<uint32_t>({10, 0, 70000, 0xfffffff0u});
  uint32_t line = start + c.of<uint32_t>({0, 5, static_cast<uint32_t>(-3), 65535, 65536, 70000});
  uint32_t hi = c.of<uint32_t>({0, 1, 3, 0x7f, 0xffff});
  c.say("fs " + std::to_string(fs) + " base only " + std::to_string(baseonly) + " encoding " + std::to_string(enc) + " line " + std::to_string(line) + " start " + std::to_string(start) + " high bits " + std::to_string(hi));
  SourceInfo::use_fs_discriminator = fs;
  SourceInfo::use_base_only_in_fs_discriminator = baseonly;
  bool base = fs ? baseonly : enc;
  uint64_t h = 0;
  std::string bad;
  for (uint32_t lo = 0; lo <= 0xffff; ++lo) {
    uint32_t disc = hi << 16 | lo;
    SourceInfo s("f", "", "", start, line, disc);
    uint64_t off = s.Offset(enc);
    uint64_t want = static_cast<uint64_t>(static_cast<uint32_t>(line - start)) << 32 | (base ? Base(disc, fs) : disc);
    uint32_t dup = 1;
    if (!fs) {
      dup = Prefix(NextComp(disc));
      if (!dup) dup = 1;
    }
    if (bad.empty()) {
      if (off != want) bad = "discriminator " + std::to_string(disc) + ": offset " + std::to_string(off) + ", want " + std::to_string(want);
      else if (s.DuplicationFactor() != dup) bad = "discriminator " + std::to_string(disc) + ": factor " + std::to_string(s.DuplicationFactor()) + ", want " + std::to_string(dup);
      else if (SourceInfo::GetLineNumberFromOffset(off) != ((line - start) & 0xffff)) bad = "line of " + std::to_string(off);
      else if (SourceInfo::GetDiscriminatorFromOffset(off) != (base ? Base(disc, fs) : disc)) bad = "discriminator of " + std::to_string(off);
      else if (line - start <= 0xffff && static_cast<uint32_t>(want) <= 0xffff &&
               SourceInfo::GenerateCompressedOffset(off) != ((line - start) << 16 | static_cast<uint32_t>(want)))
        bad = "compressed " + std::to_string(off);
      else if (s.HasInvalidInfo() != (start == 0 || line == 0)) bad = "validity";
    }
    h = mc::Hash(&off, sizeof off, h + 1);
  }
  SourceInfo::use_fs_discriminator = SourceInfo::use_base_only_in_fs_discriminator = false;
  c.transition(65536);
  c.check(bad.empty(), "offset", bad);
  c.outcome(h);
  c.nontrivial();
}
// ---------------------------------------------------------------- L04
void L04(Ctx& c) {
  // Profiles are read one after another into one map; some functions are special.
  static const std::vector<std::string> fn = {"strip_x", "sole_a", "sole_b", "cold_f", "plain", "xsole_a"};
  const bool last = c.flip();  // position of the names in their lists
  auto two = [&](const char* name) { return last ? std::array<const char*, 2>{"other", name} : std::array<const char*, 2>{name, "other"}; };
  auto strip = two("strip"), sole = two("sole_"), cold = two("cold_");
  SpecialSyms special(strip.data(), 2, sole.data(), 2, cold.data(), 2);
  SymbolMap sm;
  absl::node_hash_set<std::string> names;
  MProf m;
  std::map<std::string, int> seen;
  int n = 1 + c.pick(last ? mc::tier(2, 3) : 3);
  const std::string file = ScratchFile("special");
  for (int k = 0; k < n; ++k) {
    Prof p;
    std::string d;
    for (auto& f : fn) {
      if (!c.flip()) continue;
      d += f + " ";
      uint64_t v = 20 + k;
      p.recs.push_back({{{f, Loc(1, 0)}}, v});
      p.recs.push_back({{{"strip_in", Loc(1, 0)}, {f, Loc(2, 0)}}, 3});
      p.head[f] = {7, 0};
    }
    c.say("profile " + std::to_string(k) + ": " + d);
    c.check(WriteLlvm(p, 0, sp::SPF_Binary, file, {}).empty(), "write", "write failed");
    LLVMProfileReader r(&sm, names, &special);
    c.check(r.ReadFromFile(file, sp::FSDiscriminatorPass::PassLast), "read", "the reader refuses the file");
    MProf q = Model(p);
    for (auto& x : q) {
      int before = seen[x.first]++;
      if (x.first[0] == 's' && x.first[1] == 't') continue;
      if (x.first[0] == 's') {
        if (before == 0) MMerge(m[x.first], x.second);
        else m[x.first].total = m[x.first].head = 0;
      } else if (x.first[0] == 'c') {
        m[x.first].total = kMinSamples + 1;
      } else {
        MMerge(m[x.first], x.second);
      }
    }
    c.eq(Show(FromMap(sm)), Show(m), "special", "map after the profiles");
    c.transition();
  }
  c.outcome(Show(m));
  c.nontrivial();
}
// ---------------------------------------------------------------- P02
class FakeA2L : public Addr2line {
 public:
  FakeA2L() : Addr2line("none") {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, SourceStack* s) const override {
    auto it = at.find(a);
    ++const_cast<FakeA2L*>(this)->asked[a];
    if (it != at.end()) *s = it->second;
  }
  std::map<uint64_t, SourceStack> at;
  std::map<uint64_t, int> asked;
};
std::string Str(const SourceStack& s) {
  std::string o;
  for (auto& x : s) o += std::string(x.func_name) + "/" + x.file_name + "/" + std::to_string(x.start_line) + "/" + std::to_string(x.line) + "." + std::to_string(x.discriminator) + " ";
  return o;
}
void NumInst(const Symbol& s, const std::string& at, std::string* o) {
  for (auto& p : s.pos_counts) *o += at + "@" + LocStr(p.first) + " count " + std::to_string(p.second.count) + " insts " + std::to_string(p.second.num_inst) + "\n";
  for (auto& k : s.callsites) NumInst(*k.second, at + "/" + LocStr(k.first.location) + ">" + k.first.callee_name, o);
}
void P02(Ctx& c) {
  FakeA2L a;
  std::vector<SourceStack> kinds = {
      {},
      {SourceInfo("f", "", "f.c", 10, 12, 0)},
      {SourceInfo("g", "", "g.h", 3, 4, 1), SourceInfo("f", "", "f.c", 10, 12, 2)},
      {SourceInfo("f", "", "f.c", 10, 0, 0)},
      {SourceInfo("h", "", "h.h", 7, 7, 0), SourceInfo("g", "", "g.h", 3, 4, 0), SourceInfo("f", "", "f.c", 10, 12, 2)},
  };
  uint64_t base = c.of<uint64_t>({0x1000, 0, ~0ull - 6});
  int len = c.pick(mc::tier(6, 7));
  std::string d;
  for (int i = -1; i <= len; ++i) {
    int k = i < 0 || i == len ? 1 : c.pick(5);
    a.at[base + i] = kinds[k];
    if (i >= 0 && i < len) d += std::to_string(k) + " ";
  }
  int shape = len == 0 ? c.pick(2) : 0;  // also start > end
  uint64_t end = shape ? base - 1 : base + len;
  if (shape && base == 0) throw mc::Prune();
  c.say("start " + std::to_string(base) + " stacks " + d);
  SymbolMap sm;
  sm.AddSymbol("f");
  InstructionMap im(&a, &sm);
  im.BuildPerFunctionInstructionMap("f", base, end);
  // lookups in, before and after the function
  if (len > 0)
    for (int i = -2; i < len + 2; ++i) {
      auto* x = im.lookup(base + i);
      if (i < 0 || i >= len) c.check(x == nullptr, "lookup-outside", "an instruction is reported at offset " + std::to_string(i));
      else {
        c.check(x != nullptr, "lookup", "no instruction at offset " + std::to_string(i));
        c.eq(Str(x->source_stack), Str(a.at[base + i]), "lookup-stack", "stack at offset " + std::to_string(i));
      }
    }
  for (auto& x : a.asked) c.check(x.first - base < static_cast<uint64_t>(len), "outside-symbolized", "symbolized an address outside the function");
  // reference: every instruction with a usable stack counts once at its position
  std::map<std::string, uint64_t> n;
  std::set<std::string> nodes;
  for (int i = 0; i < len; ++i) {
    const SourceStack& s = a.at[base + i];
    if (s.empty()) continue;
    std::string at = "f";
    for (int k = s.size() - 1; k > 0; --k) at += "/" + LocStr(s[k].Offset(false)) + ">" + s[k - 1].func_name;
    if (!s[0].HasInvalidInfo()) ++n[at + "@" + LocStr(s[0].Offset(false)) + " count 0 insts "];
  }
  std::string got;
  NumInst(*sm.GetSymbolByName("f"), "f", &got);
  std::set<std::string> g, w;
  std::stringstream ss(got);
  for (std::string l; std::getline(ss, l);) g.insert(l);
  for (auto& x : n) w.insert(x.first + std::to_string(x.second));
  std::string gs, ws;
  for (auto& x : g) gs += x + "\n";
  for (auto& x : w) ws += x + "\n";
  c.eq(gs, ws, "instructions", "instructions per position");
  c.eq<uint64_t, uint64_t>(sm.GetSymbolByName("f")->total_count, 0, "counts", "samples counted");
  c.outcome(ws + d);
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv, {
      {"L01/write", [](Ctx& c) { L01(c, false); }, 5},
      {"L01/large", [](Ctx& c) { L01(c, true, true); }, 2},
      {"L01/read-back", [](Ctx& c) { L01(c, true); }, 5},
      {"L01/damaged", L01Damaged, 3},
      {"L01/full", L01Full, 2},
      {"L02/list", L02List, 5},
      {"L02/names", L02Names, 3},
      {"L03/offset", L03, 3},
      {"L04/special", L04, 5},
      {"P02/instructions", P02, 5},
  });
}
