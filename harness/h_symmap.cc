// M01-M06: the symbol map, on histories of operations.
#include "mc.h"
#include "isolate.h"
#include "bytesbuf.h"
#include "elfgen.h"
#include "gcov.h"
#include "symbol_map.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/flag.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "profmodel.h"
#include "profgen.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <glog/logging.h>
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
ABSL_DECLARE_FLAG(double, sample_threshold_frac);
ABSL_DECLARE_FLAG(bool, use_discriminator_multiply_factor);
using mc::Ctx;
namespace {
typedef SymbolMap SM;
// ---------------------------------------------------------------- M01
struct Frame {
  const char* fn;
  const char* file;
  uint32_t start, line, disc;
};
typedef std::vector<Frame> FS;
const std::vector<FS>& Stacks() {
  static const std::vector<FS> s = {
      {{"foo", "foo.c", 10, 12, 0}},
      {{"foo", "foo.c", 10, 12, 2}},
      {{"bar", "bar.h", 20, 21, 1}, {"foo", "foo.c", 10, 12, 0}},
      {{"bar", "bar.h", 20, 21, 1}, {"foo", "foo.c", 10, 13, 0}},
      {{"baz", "baz.h", 5, 5, 0}, {"foo", "foo.c", 10, 12, 0}},
      {{"baz", "baz.h", 5, 7, 0}, {"bar", "bar.h", 20, 21, 1}, {"foo", "foo.c", 10, 12, 0}},
      {{"foo", "foo.c", 10, 9, 0}, {"foo", "foo.c", 10, 12, 0}},
      {{"foo", "", 10, 0, 0}},                                                   // the leaf has no line
      {{"bar", "bar.h", 0, 21, 0}, {"foo", "foo.c", 10, 12, 0}},                 // the leaf has no start line
      {{"bar", "bar.h", 20, 22, 0}, {"foo", "foo.c", 10, 0, 0}},                 // the caller has no line
      {{"baz", "baz.h", 5, 7, 0}, {"bar", "bar.h", 0, 21, 1}, {"foo", "foo.c", 10, 12, 0}},  // the middle frame has no start line
      {},
  };
  return s;
}
bool Invalid(const Frame& f) { return f.start == 0 || f.line == 0; }
uint64_t FLoc(const Frame& f) { return static_cast<uint64_t>(static_cast<uint32_t>(f.line - f.start)) << 32 | f.disc; }
SourceStack Make(const FS& f) {
  SourceStack s;
  for (auto& x : f) s.push_back(SourceInfo(x.fn, "", x.file, x.start, x.line, x.disc));
  return s;
}
std::string StackStr(const FS& f) {
  std::string o = "[";
  for (auto& x : f) o += std::string(x.fn) + "@" + std::to_string(x.start) + "/" + std::to_string(x.line) + "." + std::to_string(x.disc) + " ";
  return o + "]";
}
// The node a stack denotes; null when a frame on the way has no position.
MSym* ModelWalk(MSym* top, const FS& f, uint64_t add, bool conv) {
  if (f.empty()) return nullptr;
  MSym* s = top;
  s->total += add;
  if (s->file.empty()) s->file = f.back().file;
  for (int i = f.size() - 1; i > 0; --i) {
    if (conv && Invalid(f[i])) return nullptr;
    auto k = std::make_pair(FLoc(f[i]), std::string(f[i - 1].fn));
    bool fresh = !s->calls.count(k);
    s = &s->calls[k];
    if (fresh) s->file = f[i - 1].file;
    s->total += add;
  }
  if (conv && Invalid(f[0])) return nullptr;
  return s;
}
void M01(Ctx& c, int depth) {
  SM sm;
  MProf m;
  std::vector<std::string> tops = {"foo", "qux"};
  for (auto& t : tops) {
    sm.AddSymbol(t);
    m[t];
  }
  int n = 1 + c.pick(depth);
  static const std::vector<SM::DataSource> ds = {SM::AFDOPROFILE, SM::PERFDATA, SM::AFDOPROTO};
  for (int i = 0; i < n; ++i) {
    int op = c.pick(3);
    c.transition();
    if (op == 2) {
      uint64_t h = c.of<uint64_t>({3, 0x100000001ull});
      uint64_t t = c.of<uint64_t>({0, 7});
      std::string sy = c.of(tops);
      c.say("entry " + sy + " " + std::to_string(h) + " " + std::to_string(t));
      if (t) sm.AddSymbolEntryCount(sy, h, t);
      else sm.AddSymbolEntryCount(sy, h);
      m[sy].head += h;
      m[sy].total += t;
      continue;
    }
    const FS& f = c.of(Stacks());
    SM::DataSource d = ds[c.pick(i == 0 ? 3 : 2)];
    bool conv = d != SM::AFDOPROFILE;
    std::string sy = !f.empty() && f.size() == 1 && i > 0 ? c.of(tops) : "foo";
    if (op == 0) {
      uint64_t cnt = i < 2 || mc::thorough() ? c.of<uint64_t>({5, 2, 0x1000000000ull}) : c.of<uint64_t>({5, 0x1000000000ull});
      uint32_t dup = i < 2 || mc::thorough() ? c.of<uint32_t>({1, 3}) : 1;
      c.say("count " + sy + " " + StackStr(f) + " " + std::to_string(cnt) + " x" + std::to_string(dup) + " source " + std::to_string(d));
      sm.AddSourceCount(sy, Make(f), cnt, 1, dup, d);
      uint64_t v = cnt * dup;
      MSym* s = ModelWalk(&m[sy], f, v, conv);
      if (s) {
        MPos& p = s->pos[FLoc(f[0])];
        p.count = conv ? std::max(p.count, v) : p.count + v;
        ++p.inst;
      }
    } else {
      std::string target = c.of<std::string>({"tgt.llvm.77", "foo"});
      uint64_t cnt = c.of<uint64_t>({4, 0x2000000000ull});
      c.say("target " + sy + " " + StackStr(f) + " -> " + target + " " + std::to_string(cnt) + " source " + std::to_string(d));
      bool ok = sm.AddIndirectCallTarget(sy, Make(f), target, cnt, d);
      MSym* s = ModelWalk(&m[sy], f, 0, conv);
      c.eq(ok, s != nullptr, "target-result", "return value of adding a call target");
      if (s) {
        uint64_t& t = s->pos[FLoc(f[0])].targets[target == "foo" ? "foo" : "tgt"];
        t += cnt;
      }
    }
  }
  ShowOpt so;
  so.file = so.inst = true;
  std::string got = Show(FromMap(sm), so), want = Show(m, so);
  c.outcome(want);
  c.nontrivial();
  c.eq(got, want, "attribution", "symbol map after the history");
}
// ---------------------------------------------------------------- M02
Prof SmallProfile(Ctx& c, int salt) {
  Prof p;
  int shape = c.pick(7);
  uint64_t cnt = shape == 6 ? 0 : 10 + salt;
  std::string t = c.flip() ? "main" : "f";
  p.head[t] = {static_cast<uint64_t>(salt + 1), static_cast<uint64_t>(shape == 3 ? 0 : shape % 2 ? 50 + salt : 60 - salt)};
  if (shape == 0) return p;
  p.recs.push_back({{{t, Loc(1, 0)}}, cnt});
  if (shape >= 2) p.recs.push_back({{{"in", Loc(2, 1)}, {t, Loc(3, 0)}}, cnt * 2});
  if (shape >= 3) p.recs.push_back({{{"deep", Loc(1, 0)}, {"in", Loc(2, 1)}, {t, Loc(3, 0)}}, cnt * 3});
  if (shape >= 4) {
    p.targets.push_back({{{{t, Loc(1, 0)}}, cnt + 5}, "tgt"});
    p.targets.push_back({{{{"in", Loc(2, 1)}, {t, Loc(3, 0)}}, cnt + 6}, salt % 2 ? "tgt" : "tgt2"});
  }
  if (shape == 5) {
    p.recs.push_back({{{"in", Loc(2, 1)}}, cnt * 4});
    p.recs.push_back({{{t, Loc(3, 0)}}, cnt * 5});
    p.head["in"] = {1, static_cast<uint64_t>(40 + salt * 3)};
  }
  return p;
}
Prof Scaled(Prof p, uint64_t by) {
  for (auto& r : p.recs) r.count *= by;
  for (auto& t : p.targets) t.first.count *= by;
  for (auto& h : p.head) h.second.first *= by;
  return p;
}
void M02Merge(Ctx& c, int k, bool large = false) {
  int big = 0, n = 0;
  if (large) {
    big = c.pick(6);
    n = c.of(LargeSizes(big));
  }
  uint64_t version = c.of<uint64_t>({3, 2});
  std::vector<Prof> ps;
  std::vector<std::string> files;
  MProf want;
  for (int i = 0; i < k; ++i) {
    if (large) {  // the second has a part of the first, and more than fits 32 bits
      ps.push_back(Scaled(LargeProfile(big, i ? n / 2 + 1 : n), i ? 0x300000000ull : 1));
      ps.back().files.clear();
    } else {
      ps.push_back(SmallProfile(c, i * 7));
    }
    MProf m = Model(ps.back());
    for (auto& f : m) MMerge(want[f.first], f.second);
    files.push_back(ScratchFile(("m" + std::to_string(i)).c_str()));
    c.say("profile " + std::to_string(i) + ":\n" + Show(m));
  }
  absl::SetFlag(&FLAGS_gcov_version, version);
  for (int i = 0; i < k; ++i) {
    SM sm;
    Build(ps[i], &sm);
    sm.set_count_threshold(-1);
    AutoFDOProfileWriter w(&sm, version);
    c.check(w.WriteToFile(files[i]), "write", "cannot write");
  }
  std::vector<int> order;
  for (int i = 0; i < k; ++i) order.push_back(i);
  ShowOpt so;
  so.ts = version == 3;  // older versions have no timestamps
  do {
    SM sm;
    std::vector<std::unique_ptr<AutoFDOProfileReader>> rs;  // names live in the readers
    for (int i : order) {
      rs.push_back(std::make_unique<AutoFDOProfileReader>(&sm, true));
      c.check(rs.back()->ReadFromFile(files[i]), "read", "cannot read");
    }
    std::string o;
    for (int i : order) o += std::to_string(i);
    c.eq(Show(FromMap(sm), so), Show(want, so), "merge", "profiles merged in order " + o);
    c.transition();
  } while (std::next_permutation(order.begin(), order.end()));
  for (auto& f : files) unlink(f.c_str());
  c.outcome(Show(want));
  c.nontrivial();
}
// Symbol::Merge itself, on trees.
void M02Symbols(Ctx& c) {
  Prof a = SmallProfile(c, 1), b = SmallProfile(c, 2);
  SM sa, sb;
  Build(a, &sa);
  Build(b, &sb);
  MProf ma = Model(a), mb = Model(b);
  c.say("merge\n" + Show(ma) + "and\n" + Show(mb));
  for (auto& x : ma)
    for (auto& y : mb) {
      SM t;
      t.AddSymbol("dest");
      Symbol* d = const_cast<Symbol*>(t.GetSymbolByName("dest"));
      d->Merge(sa.GetSymbolByName(x.first));
      d->Merge(sb.GetSymbolByName(y.first));
      MProf w;
      MMerge(w["dest"], x.second);
      MMerge(w["dest"], y.second);
      ShowOpt so;
      so.ts = so.inst = true;
      c.eq(Show(FromMap(t), so), Show(w, so), "merge-symbols", "merged symbol");
      // the sources are unchanged
    }
  c.eq(Show(FromMap(sa)), Show(ma), "merge-source", "merged-from map");
  c.eq(Show(FromMap(sb)), Show(mb), "merge-source", "merged-from map");
  c.outcome(Show(ma) + Show(mb));
  c.nontrivial();
}
// ---------------------------------------------------------------- M03
void M03Names(Ctx& c) {
  static const std::vector<std::string> bases = {"foo", "_ZN1AC2Ev", "a_b$1"};
  // {text, removed by 'selected'}
  static const std::vector<std::pair<std::string, bool>> sfx = {
      {".cold", true}, {".llvm.1234567", true}, {".__part.3", true}, {".isra.0", true}, {".lto_priv.12", true},
      {".part.0", false}, {".constprop.1", false}, {".x", false}};
  std::string policy = c.of<std::string>({"selected", "all", "none"});
  std::string base = c.of(bases), name = base, sel = base;
  int n = c.pick(mc::tier(4, 5));
  std::set<int> used;
  for (int i = 0; i < n; ++i) {
    int k = c.pick(sfx.size());
    if (!used.insert(k).second) c.prune();
    name += sfx[k].first;
    if (!sfx[k].second) sel += sfx[k].first;
  }
  std::string want = policy == "none" ? name : policy == "all" ? base : sel;
  c.say(policy + " " + name + " -> " + want);
  SM sm;
  sm.set_suffix_elision_policy(policy);
  c.eq(sm.suffix_elision_policy(), policy, "policy", "policy in force");
  c.eq(sm.GetOriginalName(name), want, "name", "original name of " + name);
  c.eq(sm.GetOriginalName(want), want, "name-idempotent", "original name of an original name");
  // of a repeated suffix the last one goes
  static const std::vector<std::string> rep = {".cold", ".llvm.7", ".__part.2"};
  const std::string& again = c.of(rep);
  if (n <= 2 && name.find(again.substr(0, 5)) == std::string::npos && sel == name.substr(0, sel.size()))
    c.eq(sm.GetOriginalName(sel + again + ".y" + again), policy == "none" ? sel + again + ".y" + again : policy == "all" ? base : sel + again + ".y", "name-repeated", "original name of " + sel + again + ".y" + again);
  if (policy == "all") c.eq(sm.GetOriginalName("." + name), "." + name, "name-leading-dot", "name with a leading dot");
  c.outcome(policy + name);
  c.nontrivial();
}
void M03Map(Ctx& c) {
  std::string policy = c.of<std::string>({"selected", "all", "none"});
  static const std::vector<std::string> names = {"f", "f.cold", "f.llvm.9", "f.llvm.9.cold", "f.x", "g.cold", "g.__part.1", "g", "a.cold", "e.llvm.1"};
  SM sm;
  sm.set_suffix_elision_policy(policy);
  // an alias makes two names share one symbol
  int alias = c.pick(4);
  if (alias == 1) sm.AddAlias("f", "f.cold");
  if (alias == 2) sm.AddAlias("g.cold", "h");
  if (alias == 3)
    for (auto x : {"h", "b", "f.x", "u.cold"}) sm.AddAlias("g.cold", x);
  MProf m;
  std::map<std::string, std::string> group;  // name -> name whose symbol it shares
  uint64_t v = 10;
  int left = mc::tier(3, 4);
  std::string desc = policy + " alias " + std::to_string(alias) + ":";
  for (auto& nm : names) {
    if (left == 0 || !c.flip()) continue;
    --left;
    desc += " " + nm;
    sm.AddSymbol(nm);
    if (!group.count(nm)) {
      group[nm] = nm;
      if (alias == 1 && nm == "f") group["f.cold"] = "f";
      if (alias == 2 && nm == "g.cold") group["h"] = "g.cold";
      if (alias == 3 && nm == "g.cold")
        for (auto x : {"h", "b", "f.x", "u.cold"}) group[x] = "g.cold";
    }
    SourceInfo leaf("in", "", "", 0, 2, 0), top(Intern(nm), "", "", 0, 3, 0), self(Intern(nm), "", "", 0, v % 3 == 0 ? 1 : 4, 0);
    sm.AddSourceCount(nm, {self}, v, 1);
    sm.AddSourceCount(nm, {leaf, top}, v + 1, 1);
    SourceInfo deep(v % 20 ? "deep" : "deep2", "", "", 0, 7, 0), mid("in", "", "", 0, 6, 0);
    sm.AddSourceCount(nm, {deep, mid, top}, v + 4, 1);
    sm.AddIndirectCallTarget(nm, {deep, mid, top}, "zz", v + 5);
    sm.AddIndirectCallTarget(nm, {self}, "z", v + 2);
    sm.AddSymbolEntryCount(nm, v + 3);
    uint64_t ts = v == 20 ? 0 : v == 10 ? 75 : 100 - v;
    sm.AddSymbolTimestamp(nm, ts);
    MSym& s = m[group[nm]];
    if (ts && (!s.ts || ts < s.ts)) s.ts = ts;
    s.total += 3 * v + 5;
    s.head += v + 3;
    s.pos[Loc(self.line, 0)].count += v;
    s.pos[Loc(self.line, 0)].targets["z"] += v + 2;
    MSym& in = s.calls[{Loc(3, 0), "in"}];
    in.total += 2 * v + 5;
    MSym& d = in.calls[{Loc(6, 0), deep.func_name}];
    d.total += v + 4;
    d.pos[Loc(7, 0)].count += v + 4;
    d.pos[Loc(7, 0)].targets["zz"] += v + 5;
    s.calls[{Loc(3, 0), "in"}].pos[Loc(2, 0)].count += v + 1;
    v += 10;
  }
  c.say(desc);
  auto orig = [&](const std::string& n) {
    if (policy == "none") return n;
    if (policy == "all") return n.substr(0, n.find('.'));
    if (n == "f.x") return n;
    return n.substr(0, n.find('.'));
  };
  // Symbols whose names elide to the same original are one after merging; a shared symbol counts once.
  MProf want;
  std::map<std::string, std::set<std::string>> members;  // component root -> symbols merged
  std::map<std::string, std::string> parent;
  std::function<std::string(const std::string&)> find = [&](const std::string& x) {
    return !parent.count(x) || parent[x] == x ? x : find(parent[x]);
  };
  for (auto& g : group) {  // union: original name -- symbol
    std::string a = find("N:" + orig(g.first)), b = find("S:" + g.second);
    if (a != b) parent[a] = b;
  }
  std::map<std::string, MSym> comp;
  std::set<std::string> done;
  for (auto& g : group)
    if (done.insert(g.second).second) MMerge(comp[find("S:" + g.second)], m[g.second]);
  for (auto& g : group) want[orig(g.first)] = comp[find("S:" + g.second)];
  sm.ElideSuffixesAndMerge();
  ShowOpt so;
  so.ts = true;
  c.eq(Show(FromMap(sm), so), Show(want, so), "elide-merge", "map after elision");
  for (auto& x : want) c.check(sm.GetSymbolByName(x.first) != nullptr, "elide-lookup", "no symbol " + x.first);
  c.eq(sm.size(), want.size(), "elide-size", "number of names");
  // every name denotes one symbol object whose data is that of its component: distinct components stay distinct objects
  std::map<std::string, const Symbol*> obj;
  for (auto& g : group) {
    const Symbol* s = sm.GetSymbolByName(orig(g.first));
    auto r = obj.insert({find("S:" + g.second), s});
    c.check(r.first->second == s, "elide-object", "names of one symbol denote different objects");
  }
  c.outcome(Show(want));
  c.nontrivial();
}
// Many names of one function, or many functions with several names each.
void M03Large(Ctx& c) {
  int n = c.of<int>({130, 260, 3000});
  bool one = c.flip();
  std::string policy = c.of<std::string>({"selected", "all"});
  SM sm;
  sm.set_suffix_elision_policy(policy);
  MProf want;
  c.say(policy + " " + std::to_string(n) + (one ? " names of one function" : " names of many functions"));
  for (int i = 0; i < n; ++i) {
    std::string base = one ? "f" : "f" + std::to_string(i / 3);
    std::string name = base + (one || i % 3 ? ".llvm." + std::to_string(i) : "");
    uint64_t v = 0x30000000ull + i;
    SourceInfo self(Intern(name), "", "", 0, i % 60000, 0), leaf("in", "", "", 0, i % 7, 0), call(Intern(name), "", "", 0, 60001, 0);
    sm.AddSymbol(name);
    sm.AddSourceCount(name, {self}, v, 1);
    sm.AddSourceCount(name, {leaf, call}, v + 1, 1);
    sm.AddIndirectCallTarget(name, {self}, "z", v + 2);
    sm.AddSymbolEntryCount(name, v + 3);
    sm.AddSymbolTimestamp(name, 1000000 - i);
    MSym& s = want[base];
    s.total += 2 * v + 1;
    s.head += v + 3;
    s.ts = 1000000 - i;
    s.pos[Loc(i % 60000, 0)].count += v;
    s.pos[Loc(i % 60000, 0)].targets["z"] += v + 2;
    MSym& in = s.calls[{Loc(60001, 0), "in"}];
    in.total += v + 1;
    in.pos[Loc(i % 7, 0)].count += v + 1;
  }
  sm.ElideSuffixesAndMerge();
  ShowOpt so;
  so.ts = true;
  c.eq(Show(FromMap(sm), so), Show(want, so), "elide-merge", "map after elision");
  c.eq(sm.size(), want.size(), "elide-size", "number of names");
  c.outcome(Show(want));
  c.nontrivial();
}
// ---------------------------------------------------------------- M04
void M04Lookup(Ctx& c) {
  // Function symbols at small addresses: {start, size}; overlaps, gaps, aliases, zero sizes, non-functions.
  const uint64_t base = c.of<uint64_t>({0x1000, 0});
  ElfGen e;
  std::vector<ElfSym> syms;
  struct R { uint64_t a, n; std::string name; };
  std::vector<R> keep;
  int n = 1 + c.pick(mc::tier(3, 4));
  std::string desc;
  for (int i = 0; i < n; ++i) {
    ElfSym s;
    uint64_t at = c.pick(mc::tier(4, 5));
    uint64_t size = c.of<uint64_t>({2, 1, 0});
    int kind = c.pick(i == 0 ? 6 : 3);
    static const char* names[] = {"fa", "fb", "fc", "fd"};
    s.name = names[i];
    s.value = base + at;
    s.size = size;
    s.type = 2;
    if (kind == 1) s.type = 1;                              // an object
    if (kind == 2) { s.type = 0; s.name += ".cold"; }       // split part without a type
    if (kind == 3) { s.type = 0; s.name += ".__part.7"; }
    if (kind == 4) s.name += "@plt";
    if (kind == 5) { s.type = 0; }
    syms.push_back(s);
    desc += s.name + "@" + std::to_string(at) + "+" + std::to_string(size) + "/" + std::to_string(s.type) + " ";
    bool use = size != 0 && kind != 1 && kind != 4 && kind != 5;
    if (use) keep.push_back({s.value, size, s.name});
  }
  c.say("symbols " + desc);
  ElfSection text;
  text.name = ".text";
  text.data = std::string(16, '\x90');
  text.flags = 6;
  text.addr = base;
  e.secs.push_back(text);
  e.AddSymtab(".symtab", 2, ".strtab", syms);
  std::string image = e.Build();
  std::string file = ScratchFile("elf");
  WriteFile(file, image);
  std::map<uint64_t, std::pair<std::string, uint64_t>> first;  // the first symbol at an address names it
  std::map<std::string, std::set<std::string>> alias;
  for (auto& k : keep) {
    auto r = first.insert({k.a, {k.name, k.n}});
    if (!r.second) alias[r.first->second.first].insert(k.name);
  }
  SM sm(file);
  unlink(file.c_str());
  std::string o;
  for (uint64_t a = base ? base - 1 : 0; a < base + 9; ++a) {
    // The symbol with the greatest start not above the address, if it extends over it.
    const std::string* name = nullptr;
    uint64_t s = 0, t = 0;
    bool got = sm.GetSymbolInfoByAddr(a, &name, &s, &t);
    auto it = first.upper_bound(a);
    bool want = false;
    if (it != first.begin()) {
      --it;
      want = a < it->first + it->second.second;
    }
    c.eq(got, want, "lookup", "is there a symbol at +" + std::to_string(a - base));
    if (want) {
      c.eq(*name, it->second.first, "lookup-name", "symbol at +" + std::to_string(a - base));
      c.eq(s, it->first, "lookup-start", "start");
      c.eq(t, it->first + it->second.second, "lookup-end", "end");
      c.check(sm.GetSymbolInfoByAddr(a, nullptr, nullptr, nullptr), "lookup-null", "lookup without outputs");
    }
    const std::string* ns = sm.GetSymbolNameByStartAddr(a);
    auto f = first.find(a);
    c.eq(ns ? *ns : std::string("-"), f == first.end() ? std::string("-") : f->second.first, "start-name", "symbol starting at +" + std::to_string(a - base));
    o += got ? *name : "-";
  }
  std::string na, nw;
  for (auto& x : sm.GetNameAddrMap()) na += x.first + "=" + std::to_string(x.second) + " ";
  std::map<std::string, uint64_t> w;
  for (auto& x : first) w[x.second.first] = x.first;
  for (auto& x : w) nw += x.first + "=" + std::to_string(x.second) + " ";
  c.eq(na, nw, "name-address", "name to address map");
  // aliases: adding the symbol makes every alias denote it
  for (auto& x : first) sm.AddSymbol(x.second.first);
  for (auto& x : alias)
    for (auto& y : x.second)
      c.check(sm.GetSymbolByName(y) != nullptr && (sm.GetSymbolByName(y) == sm.GetSymbolByName(x.first) || w.count(y)), "alias", y + " does not denote the symbol " + x.first);
  c.outcome(o + na);
  c.nontrivial();
}
// Many functions, far apart or wide, at low and high addresses.
void M04Large(Ctx& c) {
  int n = c.of<int>({130, 260, 70000});
  uint64_t base = c.of<uint64_t>({0x1000, 0x7ffffff0ull, 0x300000000ull, 0xffffffff80000000ull});
  uint64_t size = c.of<uint64_t>({1, 0x90, 0x4000});
  uint64_t gap = c.of<uint64_t>({0, 0x20});
  if (base > 0xf000000000000000ull && n > 1000) c.prune();
  c.say(std::to_string(n) + " functions of " + std::to_string(size) + " and gaps of " + std::to_string(gap) + " from " + std::to_string(base));
  ElfGen e;
  std::vector<ElfSym> syms;
  for (int k = 0; k < n; ++k) {
    int i = (k * 7919ll + 3) % n;  // the table is not in the order of the addresses
    ElfSym s;
    s.name = "fn" + std::to_string(i);
    s.value = base + i * (size + gap);
    s.size = size;
    s.type = 2;
    syms.push_back(s);
  }
  ElfSection text;
  text.name = ".text";
  text.data = std::string(16, '\x90');
  text.flags = 6;
  text.addr = base;
  e.secs.push_back(text);
  e.AddSymtab(".symtab", 2, ".strtab", syms);
  std::string file = ScratchFile("elf");
  WriteFile(file, e.Build());
  SM sm(file);
  unlink(file.c_str());
  for (int i = 0; i < n; ++i) {
    uint64_t a = base + i * (size + gap);
    for (uint64_t at : {a, a + size / 2, a + size - 1, a + size}) {
      const std::string* name = nullptr;
      uint64_t s = 0, t = 0;
      bool got = sm.GetSymbolInfoByAddr(at, &name, &s, &t);
      int w = i + (at == a + size && !gap);
      bool want = w < n && !(at == a + size && gap);
      if (got != want) c.eq(got, want, "lookup", "is there a symbol at " + std::to_string(at));
      if (!want) continue;
      uint64_t ws = base + w * (size + gap);
      if (*name != "fn" + std::to_string(w) || s != ws || t != ws + size)
        c.eq(*name + "/" + std::to_string(s) + "/" + std::to_string(t), "fn" + std::to_string(w) + "/" + std::to_string(ws) + "/" + std::to_string(ws + size), "lookup-name", "symbol at " + std::to_string(at));
    }
    const std::string* ns = sm.GetSymbolNameByStartAddr(a);
    if (!ns || *ns != "fn" + std::to_string(i)) c.eq(ns ? *ns : std::string("-"), "fn" + std::to_string(i), "start-name", "symbol starting at " + std::to_string(a));
    c.transition(5);
  }
  c.eq<uint64_t, uint64_t>(sm.GetNameAddrMap().size(), n, "name-address", "names with an address");
  for (auto& x : sm.GetNameAddrMap())
    if (x.second != base + std::stoull(x.first.substr(2)) * (size + gap)) c.eq(x.second, base + std::stoull(x.first.substr(2)) * (size + gap), "name-address", "address of " + x.first);
  c.outcome(std::to_string(n) + "/" + std::to_string(base) + "/" + std::to_string(size) + "/" + std::to_string(gap));
  c.nontrivial();
}
void M04Segments(Ctx& c) {
  // Executable segments with increasing offsets; the address of every mapped offset and back.
  ElfGen e;
  int n = 1 + c.pick(3);
  bool kernel = c.flip();
  struct S { uint64_t off, va, sz; };
  std::vector<S> exec;
  uint64_t off = 0, va = c.of<uint64_t>({0, 0x400000, 0xffffffff80000000ull});
  std::string desc = kernel ? "kernel" : "user";
  for (int i = 0; i < n; ++i) {
    ElfSegment g;
    off += c.of<uint64_t>({i ? 0x1000u : 0u, 0x3000});
    va += c.of<uint64_t>({0x1000, 0x5000, 0x201000});
    g.offset = off;
    g.vaddr = va;
    g.filesz = g.memsz = 0x800;
    int kind = c.pick(4);  // 0: code, 1: data, 2: note, 3: code+write
    g.flags = kind == 1 ? 6 : kind == 3 ? 7 : 5;
    g.type = kind == 2 ? 4 : 1;
    e.segs.push_back(g);
    desc += " off=" + std::to_string(off) + "/va=" + std::to_string(va) + "/k" + std::to_string(kind);
    if (kind == 0 || kind == 3) exec.push_back({off, va, 0x800});
    off += 0x800;
    va += 0x800;
  }
  c.say(desc);
  if (exec.empty()) c.prune();
  ElfSection t;
  t.name = ".text";
  t.data = "\x90";
  e.secs.push_back(t);
  std::string file = ScratchFile("seg");
  WriteFile(file, e.Build());
  SM sm(file);
  sm.ReadLoadableExecSegmentInfo(kernel);
  unlink(file.c_str());
  uint64_t shift = kernel ? exec[0].off : 0;
  std::string o;
  for (auto& s : exec)
    for (uint64_t d : {0ull, 1ull, 0x7ffull}) {
      uint64_t fo = s.off - shift + d;
      c.eq(sm.get_static_vaddr(fo), s.va + d, "offset-to-address", "address of file offset " + std::to_string(fo));
      c.eq(sm.GetFileOffsetFromStaticVaddr(s.va + d), fo, "address-to-offset", "file offset of address " + std::to_string(s.va + d));
      o += std::to_string(fo) + ",";
    }
  c.outcome(desc);
  c.nontrivial();
}
void M04Sampled(Ctx& c) {
  // Sampled functions: every function containing a sampled address, and every function with counts.
  ElfGen e;
  std::vector<ElfSym> syms;
  const uint64_t va = 0x401000, off = 0x1000;
  std::map<uint64_t, uint64_t> fn;  // start -> size
  uint64_t at = 0;
  int n = 2 + c.pick(2);
  std::string desc;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    at += c.pick(3);
    uint64_t size = 1 + c.pick(3);
    ElfSym s;
    s.name = "f" + std::to_string(i);
    s.value = va + at;
    s.size = size;
    syms.push_back(s);
    names.push_back(s.name);
    fn[va + at] = size;
    desc += std::to_string(at) + "+" + std::to_string(size) + " ";
    at += size;
  }
  ElfSection text;
  text.name = ".text";
  text.data = std::string(32, '\x90');
  text.flags = 6;
  text.addr = va;
  e.secs.push_back(text);
  e.AddSymtab(".symtab", 2, ".strtab", syms);
  ElfSegment g;
  g.offset = off;
  g.vaddr = va;
  g.filesz = g.memsz = 0x100;
  e.segs.push_back(g);
  std::string file = ScratchFile("smp");
  WriteFile(file, e.Build());
  std::set<uint64_t> addrs;
  for (uint64_t a = 0; a < std::min<uint64_t>(at + 1, mc::tier(6, 9)); ++a)
    if (c.flip()) addrs.insert(off + a);
  int counted = c.pick(n + 1) - 1;
  SM sm(file);
  sm.ReadLoadableExecSegmentInfo(false);
  unlink(file.c_str());
  if (counted >= 0) {
    sm.AddSymbol(names[counted]);
    sm.AddSymbolEntryCount(names[counted], 1, 5);
  }
  // Required: each function that covers a sampled address, and the counted one.  Allowed beside them: the
  // nearest function below a sampled address that no function covers.
  std::map<uint64_t, uint64_t> must, may;
  for (uint64_t a : addrs) {
    auto it = fn.upper_bound(a - off + va);
    if (it == fn.begin()) continue;
    --it;
    may[it->first] = it->second;
    if (a - off + va < it->first + it->second) must[it->first] = it->second;
  }
  int i = 0;
  for (auto& f : fn)
    if (i++ == counted) must[f.first] = may[f.first] = f.second;
  desc += "sampled";
  for (auto a : addrs) desc += " " + std::to_string(a - off);
  c.say(desc + " counted " + std::to_string(counted));
  auto got = sm.GetSampledSymbolStartAddressSizeMap(addrs);
  for (auto& x : must) c.check(got.count(x.first) && got[x.first] == x.second, "sampled-missing", "function at +" + std::to_string(x.first - va) + " is missing or has another size");
  for (auto& x : got) c.check(may.count(x.first) && may[x.first] == x.second, "sampled-extra", "function at +" + std::to_string(x.first - va) + " was not sampled");
  c.outcome(desc);
  c.nontrivial();
}
// ---------------------------------------------------------------- M05
// Inclusive totals over every call graph on n functions.
void M05Graph(Ctx& c, int n) {
  static const char* names[] = {"a", "b", "d", "e", "g"};
  SM sm;
  std::vector<std::vector<uint64_t>> w(n, std::vector<uint64_t>(n, 0));
  uint64_t big = c.of<uint64_t>({1, 0x40000000});
  std::vector<uint64_t> total(n), head(n);
  for (int i = 0; i < n; ++i) {
    total[i] = (8u << i) * big;
    head[i] = i % 3 == 0 ? 4 : i % 3 == 1 ? 0 : 8;
    sm.AddSymbol(names[i]);
    sm.AddSymbolEntryCount(names[i], head[i]);
    sm.AddSourceCount(names[i], {SourceInfo(names[i], "", "", 0, 1, 0)}, total[i], 1);
  }
  std::string desc;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (n > 3 && i == j) continue;
      if (!c.flip()) continue;
      w[i][j] = 2 * (1 + i);
      desc += std::string(names[i]) + "->" + names[j] + " ";
      // half of the calls are made from inlined code
      SourceInfo self(names[i], "", "", 0, 2 + j, 0);
      if ((i + j) % 2) sm.AddIndirectCallTarget(names[i], {SourceInfo("inl", "", "", 0, 9, 0), self}, names[j], w[i][j]);
      else sm.AddIndirectCallTarget(names[i], {self}, names[j], w[i][j]);
    }
  c.say("@call-graph");
  c.say(desc + "x" + std::to_string(big));
  std::vector<std::vector<bool>> reach(n, std::vector<bool>(n));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) reach[i][j] = i == j || w[i][j];
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (reach[i][k] && reach[k][j]) reach[i][j] = true;
  std::vector<double> incl(n, -1);
  std::function<double(int)> get = [&](int i) -> double {
    if (incl[i] >= 0) return incl[i];
    double sum = 0;
    for (int k = 0; k < n; ++k) {
      if (!(reach[i][k] && reach[k][i])) continue;
      sum += total[k];
      for (int j = 0; j < n; ++j)
        if (w[k][j] && !(reach[i][j] && reach[j][i])) sum += std::floor(get(j) / (head[j] ? head[j] : 1) * w[k][j]);
    }
    return incl[i] = sum;
  };
  sm.ComputeTotalCountIncl();
  for (int i = 0; i < n; ++i) {
    double want = get(i), got = sm.GetSymbolByName(names[i])->total_count_incl;
    c.check(std::fabs(got - want) <= 3 + want * 1e-5, "inclusive", std::string("inclusive total of ") + names[i] + " is " + std::to_string(got) + ", reference " + std::to_string(want));
  }
  c.outcome(desc + std::to_string(big));
  c.nontrivial();
}
// Many call cycles in a row, each calling the next from one of its members.
void M05Cycles(Ctx& c) {
  int k = c.of<int>({2, 5, 9, 40, 300}), size = 1 + c.pick(3), from = c.pick(size), to = c.pick(size);
  bool down = c.flip(), skip = c.flip();  // names in the order of the calls or against it; calls two cycles on, too
  c.say("@cycles");
  c.say(std::to_string(k) + " cycles of " + std::to_string(size) + ", " + std::to_string(from) + " calls " + std::to_string(to) + (down ? " down" : "") + (skip ? " skipping" : ""));
  SM sm;
  std::vector<std::string> name(k * size);
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < size; ++j) {
      char b[40];
      snprintf(b, sizeof b, "c%03d_%d", down ? k - i : i, j);
      name[i * size + j] = b;
    }
  std::vector<const char*> n;
  for (auto& x : name) n.push_back(Intern(x));
  for (int i = 0; i < k * size; ++i) {
    sm.AddSymbol(n[i]);
    sm.AddSymbolEntryCount(n[i], 1000);
    sm.AddSourceCount(n[i], {SourceInfo(n[i], "", "", 0, 1, 0)}, 4000 + i, 1);
  }
  auto call = [&](int a, int b, uint64_t w) { sm.AddIndirectCallTarget(n[a], {SourceInfo(n[a], "", "", 0, 2, 0)}, n[b], w); };
  for (int i = 0; i < k; ++i) {
    for (int j = 0; size > 1 && j < size; ++j) call(i * size + j, i * size + (j + 1) % size, 10);
    if (i + 1 < k) call(i * size + from, (i + 1) * size + to, 500);
    if (skip && i + 2 < k) call(i * size + to, (i + 2) * size + from, 250);
  }
  std::vector<double> incl(k, 0);
  for (int i = k; i-- > 0;) {
    for (int j = 0; j < size; ++j) incl[i] += 4000 + i * size + j;
    if (i + 1 < k) incl[i] += std::floor(incl[i + 1] / 1000 * 500);
    if (skip && i + 2 < k) incl[i] += std::floor(incl[i + 2] / 1000 * 250);
  }
  sm.ComputeTotalCountIncl();
  for (int i = 0; i < k * size; ++i) {
    double got = sm.GetSymbolByName(n[i])->total_count_incl, want = incl[i / size];
    c.check(std::fabs(got - want) <= 5 + want * 1e-4, "cycles", "inclusive total of " + name[i] + " is " + std::to_string(got) + ", reference " + std::to_string(want));
  }
  c.outcome(std::to_string(incl[0]));
  c.nontrivial();
}
// The sanity check of a whole profile: enough functions, samples, source positions, calls and inlining.
void M05Valid(Ctx& c) {
  Prof p;
  int functions = c.of<int>({9, 10, 12}), empty = c.pick(3);
  uint64_t sum = c.of<uint64_t>({999999, 1000000, 0x100000000ull});
  bool call = c.flip(), inlined = c.flip();
  int zero = c.of<int>({0, 4, 5, 9});  // positions of line 0
  SM sm;
  for (int i = 0; i < functions; ++i) {
    std::string f = "f" + std::to_string(i);
    uint64_t v = i ? 10 : sum - 10 * (functions - 1) - (inlined ? 1 : 0);
    p.recs.push_back({{{f, Loc(i < zero ? 0 : 1 + i, 0)}}, v});
    if (!i && inlined) p.recs.push_back({{{"in", Loc(3, 0)}, {f, Loc(7, 0)}}, 1});
    if (!i && call) p.targets.push_back({{{{f, Loc(i < zero ? 0 : 1 + i, 0)}}, 5}, "f1"});
  }
  Build(p, &sm);
  for (int i = 0; i < empty; ++i) {  // functions that have positions but no samples, and functions without either
    std::string f = "e" + std::to_string(i);
    sm.AddSymbol(f);
    if (i) sm.AddSourceCount(f, {SourceInfo(Intern(f), "", "", 0, 0, 0), }, 0, 1);
    if (i) sm.AddIndirectCallTarget(f, {SourceInfo(Intern(f), "", "", 0, 0, 0)}, "f0", 3);
  }
  MProf m = FromMap(sm);
  c.say(Show(m));
  uint64_t total = 0, srcs = 0, lined = 0;
  bool has_call = false, has_inline = false;
  std::function<void(const MSym&)> add = [&](const MSym& s) {
    for (auto& x : s.pos) {
      has_call = has_call || !x.second.targets.empty();
      ++srcs;
      lined += x.first != 0;
    }
    for (auto& x : s.calls) add(x.second);
  };
  for (auto& f : m)
    if (f.second.total) {
      total += f.second.total;
      has_inline = has_inline || !f.second.calls.empty();
      add(f.second);
    }
  double share = srcs ? double(lined) / srcs : 0;
  if (std::fabs(share - 0.6) > 1e-6)
    c.eq(sm.Validate(), m.size() >= 10 && total >= 1000000 && has_call && has_inline && share > 0.6, "valid", "profile is valid");
  c.outcome(std::to_string(functions) + "/" + std::to_string(sum) + "/" + std::to_string(share) + (has_call ? "c" : "") + (has_inline ? "i" : ""));
  c.nontrivial();
}
void M05WorkingSet(Ctx& c) {
  SM sm;
  bool elide = c.flip();
  struct G { uint64_t count, num; };
  std::vector<G> g;
  int n = 1 + c.pick(mc::tier(4, 5));
  std::string desc;
  static const char* owners[] = {"f", "f.cold", "h"};
  for (int i = 0; i < n; ++i) {
    G x{c.of<uint64_t>({100, 0, 7, 129, 0x100000000ull}), c.of<uint64_t>({1, 40, 1000})};
    g.push_back(x);
    std::string owner = owners[i % 3];
    sm.AddSymbol(owner);
    SourceInfo self(Intern(owner), "", "", 0, i, 0);
    if (i == 3) sm.AddSourceCount(owner, {SourceInfo("in", "", "", 0, 1, 0), self}, x.count, x.num);
    else sm.AddSourceCount(owner, {self}, x.count, x.num);
    desc += std::to_string(x.num) + "x" + std::to_string(x.count) + " ";
  }
  c.say(desc + (elide ? " elided" : ""));
  sm.set_suffix_elision_policy("selected");
  std::vector<G> use;
  // instructions of functions without any count do not take part
  uint64_t tf = 0, tc = 0, th = 0;
  for (int i = 0; i < n; ++i) (i % 3 == 0 ? tf : i % 3 == 1 ? tc : th) += g[i].count;
  for (int i = 0; i < n; ++i) {
    uint64_t t = i % 3 == 2 ? th : elide ? tf + tc : i % 3 == 0 ? tf : tc;
    if (t) use.push_back(g[i]);
  }
  if (elide) sm.ElideSuffixesAndMerge();
  sm.ComputeWorkingSets();
  std::sort(use.begin(), use.end(), [](const G& a, const G& b) { return a.count > b.count; });
  unsigned __int128 total = 0;
  for (auto& x : use) total += static_cast<unsigned __int128>(x.count) * x.num;
  uint64_t one = static_cast<uint64_t>(total / 129);
  std::string o;
  for (int b = 0; b < 128; ++b) {
    uint64_t T = one * (b + 1), acc = 0, insts = 0, mincnt = 0, num = 0;
    for (auto& x : use) {
      if (acc + x.count * x.num > T) {
        num = insts + (T - acc) / x.count;
        mincnt = x.count;
        break;
      }
      acc += x.count * x.num;
      insts += x.num;
    }
    c.eq<uint64_t, uint64_t>(sm.GetWorkingSets()[b].num_counters, num, "working-set", "instructions of bucket " + std::to_string(b));
    c.eq<uint64_t, uint64_t>(sm.GetWorkingSets()[b].min_counter, mincnt, "working-set", "counter of bucket " + std::to_string(b));
    if (b % 32 == 5) o += std::to_string(num) + "/" + std::to_string(mincnt) + " ";
  }
  c.outcome(o);
  c.nontrivial();
}
void M05Measures(Ctx& c) {
  Prof a = SmallProfile(c, 3), b = SmallProfile(c, 4);
  if (c.flip()) {  // more than fits 32 bits
    a = Scaled(a, 0x300000002ull);
    b = Scaled(b, 0x200000004ull);
  }
  SM sa, sb;
  Build(a, &sa);
  Build(b, &sb);
  MProf ma = Model(a), mb = Model(b);
  c.say(Show(ma) + "---\n" + Show(mb));
  double ta = 0, tb = 0, ov = 0;
  for (auto& x : ma) ta += x.second.total;
  for (auto& x : mb) tb += x.second.total;
  if (ta && tb)
    for (auto& x : ma)
      if (mb.count(x.first)) ov += std::min(x.second.total / ta, mb[x.first].total / tb);
  c.check(std::fabs(sa.Overlap(sb) - ov) < 1e-5, "overlap", "overlap is " + std::to_string(sa.Overlap(sb)) + ", reference " + std::to_string(ov));
  c.check(std::fabs(sb.Overlap(sa) - ov) < 1e-5, "overlap-symmetric", "overlap depends on the order");
  c.eq<uint64_t, uint64_t>(sa.GetTotalSum(), static_cast<uint64_t>(ta), "total-sum", "sum of totals");
  double frac = c.of<double>({0.0, 0.5, 1.0});
  absl::SetFlag(&FLAGS_sample_threshold_frac, frac);
  sa.CalculateThreshold();
  c.eq<int64_t, int64_t>(sa.count_threshold(), std::max<int64_t>(10, ta * frac), "threshold", "count threshold");
  sb.CalculateThresholdFromTotalCount(tb);
  c.eq<int64_t, int64_t>(sb.count_threshold(), std::max<int64_t>(10, tb * frac), "threshold", "count threshold from the total");
  absl::SetFlag(&FLAGS_sample_threshold_frac, 0.0);
  for (int64_t d : {-1, 0, 1}) c.eq(sa.ShouldEmit(sa.count_threshold() + d), d > 0, "emit", "emission at the threshold");
  double ratio = c.of<double>({0.5, 2.0, 1.0, 0.0, 0.26});
  sa.UpdateWithRatio(ratio);
  std::function<void(MSym&)> scale = [&](MSym& s) {
    s.total = roundl(s.total * static_cast<long double>(ratio));
    s.head = roundl(s.head * static_cast<long double>(ratio));
    for (auto& p : s.pos) {
      p.second.count = roundl(p.second.count * static_cast<long double>(ratio));
      for (auto& t : p.second.targets) t.second = roundl(t.second * static_cast<long double>(ratio));
    }
    for (auto& x : s.calls) scale(x.second);
  };
  for (auto& x : ma) scale(x.second);
  c.eq(Show(FromMap(sa)), Show(ma), "ratio", "map scaled by " + std::to_string(ratio));
  std::string re = c.of<std::string>({"main", "f|main", "f", "m.*", ".*", "mai", "in"});
  sb.RemoveSymsMatchingRegex(re);
  for (auto& x : mb) {
    bool hit = re == ".*" || x.first == re || (re == "f|main" && (x.first == "f" || x.first == "main")) || (re == "m.*" && x.first[0] == 'm');
    if (hit) x.second.total = x.second.head = 0;
  }
  c.eq(Show(FromMap(sb)), Show(mb), "remove", "map after removing " + re);
  c.outcome(Show(ma) + Show(mb) + std::to_string(ov));
  c.nontrivial();
}
// ---------------------------------------------------------------- M06
// Trees of inlined calls: function names, locations and counts by choice.
struct Tree {
  Prof p;
  int budget;
};
void Grow(Ctx& c, Tree& t, std::vector<std::pair<std::string, uint64_t>> path, int depth, int maxdepth, int maxkids, uint64_t* next) {
  // path: outermost first, (function, location of the call in it)
  if (depth >= maxdepth || t.budget <= 0) return;
  int kids = c.pick(std::min(maxkids, t.budget) + 1);
  for (int k = 0; k < kids; ++k) {
    const char* fns[] = {depth >= 2 ? "w" : "x", "y", "main"};
    --t.budget;
    std::string fn = fns[c.pick(depth == 0 ? 2 : 3)];
    uint64_t loc = Loc(10 + c.pick(2), 0);
    auto p2 = path;
    p2.back().second = loc;
    p2.push_back({fn, 0});
    uint64_t cnt = *next = *next * 2 + 1;
    Rec r;
    for (int i = p2.size() - 1; i >= 0; --i) r.frames.push_back({p2[i].first, i + 1 == static_cast<int>(p2.size()) ? Loc(depth + 1, 0) : p2[i].second});
    r.count = cnt;
    if (!c.flip()) t.p.recs.push_back(r);
    Grow(c, t, p2, depth + 1, maxdepth, maxkids, next);
  }
}
// More functions, call sites, callees or levels than small integer types count.
Tree LargeTree(Ctx& c) {
  Tree t;
  t.budget = 0;
  int shape = c.pick(4), n = shape == 3 ? c.of<int>({130, 260}) : c.of<int>({130, 260, 3000});
  c.say("large shape " + std::to_string(shape) + " of " + std::to_string(n));
  t.p.recs.push_back({{{"main", Loc(1, 0)}}, 4});
  for (int i = 0; i < n; ++i) {
    std::string fn = "n" + std::to_string(i);
    uint64_t v = 3ull + i % 100;
    if (shape == 0) t.p.recs.push_back({{{fn, Loc(1, 0)}, {"main", Loc(10 + i, 0)}}, v});
    if (shape == 1) t.p.recs.push_back({{{fn, Loc(1, 0)}, {"main", Loc(10, 0)}}, v});
    if (shape == 2) t.p.recs.push_back({{{"x", Loc(2, 0)}, {fn, Loc(11, 0)}}, v});
    if (shape == 3) {
      auto f = t.p.recs.back().frames;
      f[0].second = Loc(10, 0);
      f.insert(f.begin(), {fn, Loc(i % 3, 0)});
      t.p.recs.push_back({f, v});
    }
  }
  return t;
}
Tree PickTree(Ctx& c, int budget, int maxdepth) {
  if (!budget) return LargeTree(c);
  Tree t;
  t.budget = budget;
  uint64_t next = 3;
  t.p.recs.push_back({{{"main", Loc(1, 0)}}, 4});
  t.p.head["main"] = {c.of<uint64_t>({0, 6}), 0};
  if (c.flip()) {
    t.p.recs.push_back({{{"x", Loc(1, 0)}}, 2});
    t.p.recs.push_back({{{"y", Loc(2, 0)}, {"x", Loc(10, 0)}}, 1});
    t.p.head["x"] = {1, 0};
  }
  Grow(c, t, {{"main", 0}}, 0, maxdepth, 2, &next);
  return t;
}
uint64_t EstHead(MSym& s) {
  if (s.head) return s.head;
  uint64_t off = ~0ull;
  if (!s.pos.empty()) {
    off = s.pos.begin()->first;
    s.head = s.pos.begin()->second.count;
  }
  if (!s.calls.empty() && s.calls.begin()->first.first < off) s.head = EstHead(s.calls.begin()->second);
  return s.head;
}
void M06Flat(Ctx& c, bool large = false) {
  Tree t = PickTree(c, large ? 0 : mc::tier(3, 4), 3);
  bool selective = c.flip();
  uint64_t threshold = selective ? c.of<uint64_t>({0, 20, 1000000}) : 0;
  SM src, dst;
  Build(t.p, &src);
  if (!large) {  // functions without a single count
    src.AddSymbol("none");
    src.AddSymbol("zero");
    src.AddSourceCount("zero", {SourceInfo("zin", "", "", 0, 1, 0), SourceInfo("zero", "", "", 0, 5, 0)}, 0, 1);
  }
  MProf m = FromMap(src), want;
  c.say((selective ? "selective, threshold " + std::to_string(threshold) : std::string("all")) + "\n" + Show(m));
  uint64_t nf = 0, nt = 0, wf = 0, wt = 0;
  std::vector<std::pair<std::string, MSym*>> work;
  for (auto& f : m) {
    ++wt;
    if (selective && f.second.total >= threshold) MMerge(want[f.first], f.second);
    else { ++wf; work.push_back({f.first, &f.second}); }
  }
  for (size_t i = 0; i < work.size(); ++i) {
    MSym& s = *work[i].second;
    MSym& d = want[work[i].first];
    std::vector<std::pair<std::string, MSym*>> kids;
    for (auto& x : s.calls) {
      uint64_t h = EstHead(x.second);
      MPos& p = s.pos[x.first.first];
      p.count = std::max(p.count, h);
      p.targets[x.first.second] += h;
      if (!selective) kids.push_back({x.first.second, &x.second});
    }
    for (auto& p : s.pos) {
      d.pos[p.first].count += p.second.count;
      for (auto& q : p.second.targets) d.pos[p.first].targets[q.first] += q.second;
      d.total += p.second.count;
    }
    d.head += s.head;
    work.insert(work.end(), kids.begin(), kids.end());
  }
  dst.BuildFlatProfile(src, selective, threshold, nt, nf);
  c.eq(Show(FromMap(dst)), Show(want), "flat", "flat profile");
  c.eq(nt, wt, "flat-functions", "functions counted");
  c.eq(nf, wf, "flat-flattened", "functions flattened");
  c.outcome(Show(want));
  c.nontrivial();
}
// Body counts per function and position, over all instances, positions of calls (lines 10 and up) excluded.
void Bodies(const std::string& name, const MSym& s, std::map<std::string, uint64_t>* o) {
  for (auto& p : s.pos)
    if (p.first >> 32 < 10 && p.second.count) (*o)[name + "@" + LocStr(p.first)] += p.second.count;
  for (auto& x : s.calls) Bodies(x.first.second, x.second, o);
}
std::string BodyStr(const MProf& m) {
  std::map<std::string, uint64_t> b;
  for (auto& f : m) Bodies(f.first, f.second, &b);
  std::string o;
  for (auto& x : b) o += x.first + "=" + std::to_string(x.second) + " ";
  return o;
}
int Depth(const MSym& s) {
  int d = 0;
  for (auto& x : s.calls) d = std::max(d, 1 + Depth(x.second));
  return d;
}
void CheckTotals(Ctx& c, const std::string& name, const MSym& s) {
  c.eq(s.total, Sum(s), "total", "total of " + name + " against its body and inlined calls");
  for (auto& x : s.calls) CheckTotals(c, name + "/" + x.first.second, x.second);
}
// The calls written down in the profile (inline instances and call targets), per caller function, location and callee.
void Calls(const std::string& name, const MSym& s, std::set<std::string>* o) {
  for (auto& p : s.pos)
    for (auto& t : p.second.targets) o->insert(name + "@" + LocStr(p.first) + ">" + t.first);
  for (auto& x : s.calls) {
    o->insert(name + "@" + LocStr(x.first.first) + ">" + x.first.second);
    Calls(x.first.second, x.second, o);
  }
}
std::string CallStr(const MProf& m) {
  std::set<std::string> b;
  for (auto& f : m) Calls(f.first, f.second, &b);
  std::string o;
  for (auto& x : b) o += x + " ";
  return o;
}
void M06Hybrid(Ctx& c, bool large = false) {
  Tree t = PickTree(c, large ? 0 : mc::tier(3, 4), 3);
  uint64_t threshold = c.of<uint64_t>({0, 7, 30, 1000000});
  SM src, dst;
  Build(t.p, &src);
  MProf m = Model(t.p);
  c.say("threshold " + std::to_string(threshold) + "\n" + Show(m));
  uint64_t sites = 0, flat = 0, wsites = 0, wflat = 0;
  std::function<void(const MSym&)> count = [&](const MSym& s) {
    for (auto& x : s.calls) {
      ++wsites;
      if (x.second.total <= threshold) ++wflat;
      count(x.second);
    }
  };
  for (auto& f : m) count(f.second);
  dst.BuildHybridProfile(src, threshold, sites, flat);
  MProf got = FromMap(dst);
  c.eq(BodyStr(got), BodyStr(m), "hybrid-bodies", "body counts per function and position");
  c.eq(CallStr(got), CallStr(m), "hybrid-calls", "calls written down");
  c.eq(sites, wsites, "hybrid-sites", "call sites counted");
  c.eq(flat, wflat, "hybrid-flattened", "call sites flattened");
  // A hot inline instance whose callers are hot too stays inlined in place, and cold ones are gone.
  std::function<void(const MSym&, const MSym*, const std::string&)> walk = [&](const MSym& s, const MSym* d, const std::string& at) {
    for (auto& x : s.calls) {
      bool hot = x.second.total > threshold;
      bool there = d && d->calls.count(x.first);
      if (d && hot) c.check(there, "hybrid-hot", "hot inline instance " + at + "/" + x.first.second + " is not kept");
      if (hot) walk(x.second, there ? &d->calls.at(x.first) : nullptr, at + "/" + x.first.second);
      else {
        c.check(got.count(x.first.second), "hybrid-outline", "no outline profile for " + x.first.second);
        walk(x.second, &got.at(x.first.second), x.first.second);
      }
    }
  };
  for (auto& f : m) walk(f.second, got.count(f.first) ? &got.at(f.first) : nullptr, f.first);
  std::function<void(const MSym&, const std::string&)> nocold = [&](const MSym& s, const std::string& at) {
    for (auto& x : s.calls) {
      c.check(x.second.total > threshold, "hybrid-cold", "cold inline instance " + at + "/" + x.first.second + " is kept");
      nocold(x.second, at + "/" + x.first.second);
    }
  };
  for (auto& f : got) nocold(f.second, f.first);
  c.outcome(Show(got));
  c.nontrivial();
}
// Two inline instances at one location, or a function inlined into itself: the order in which a hash table hands
// out call sites then shows.
bool Ordered(const MSym& s, std::set<std::string> outer) {
  const std::pair<const std::pair<uint64_t, std::string>, MSym>* last = nullptr;
  for (auto& x : s.calls) {
    if (last && last->first.first == x.first.first) return false;
    last = &x;
    if (outer.count(x.first.second)) return false;
    auto in = outer;
    in.insert(x.first.second);
    if (!Ordered(x.second, in)) return false;
  }
  return true;
}
// The documented nesting limit: calls inlined at the limit become call targets, their instances (limited in turn,
// counted from 1 again) join the functions they belong to.
int64_t Limit(MProf& m, MSym& f, int depth, int limit) {
  int64_t diff = 0;
  for (auto& x : f.calls) {
    if (depth < limit) {
      int64_t d = Limit(m, x.second, depth + 1, limit);
      diff += d;
      f.total += d;
      continue;
    }
    int64_t d = -static_cast<int64_t>(x.second.total);
    Limit(m, x.second, 1, limit);
    uint64_t h = EstHead(x.second);
    MPos& p = f.pos[x.first.first];
    uint64_t before = p.count;
    p.targets[x.first.second] += h;
    p.count = std::max({p.count, h, p.targets[x.first.second]});
    d += p.count - before;
    diff += d;
    f.total += d;
    MMerge(m[x.first.second], x.second);
  }
  if (depth == limit) f.calls.clear();
  return diff;
}
void M06Nested(Ctx& c, bool large = false) {
  Tree t = PickTree(c, large ? 0 : mc::tier(3, 4), 4);
  int limit = large ? c.of<int>({0, 1, 3, 129, 200, 300}) : c.pick(4);
  SM sm;
  Build(t.p, &sm);
  MProf m = Model(t.p);
  c.say("limit " + std::to_string(limit) + "\n" + Show(m));
  int changed = sm.FlattenNestedInlineCallsites(limit);
  MProf got = FromMap(sm);
  if (limit == 0) {
    c.eq(Show(got), Show(m), "nested-off", "map with no limit");
    c.eq(changed, 0, "nested-off", "functions changed");
  } else {
    for (auto& f : got) c.check(Depth(f.second) < limit, "nested-depth", f.first + " still nests " + std::to_string(Depth(f.second)) + " deep");
    c.eq(BodyStr(got), BodyStr(m), "nested-bodies", "body counts per function and position");
    c.eq(CallStr(got), CallStr(m), "nested-calls", "calls written down");
    for (auto& f : got) CheckTotals(c, f.first, f.second);
    bool deep = false;
    for (auto& f : m) deep = deep || Depth(f.second) >= limit;
    if (!deep) c.eq(Show(got), Show(m), "nested-unchanged", "map within the limit");
    bool exact = true;
    for (auto& f : m) exact = exact && Ordered(f.second, {f.first});
    if (exact) {
      int n = 0;
      MProf want = m;
      for (auto it = want.begin(); it != want.end(); ++it) n += Limit(want, it->second, 1, limit) != 0;
      c.eq(Show(got), Show(want), "nested-shape", "map limited to " + std::to_string(limit));
      c.eq(changed, n, "nested-changed", "functions changed");
    }
  }
  c.outcome(Show(got));
  c.nontrivial();
}
void M06Trim(Ctx& c) {
  Prof p;
  int n = c.pick(mc::tier(5, 6));
  static const char* tg[] = {"t0", "t1", "t2", "t3", "t4"};
  p.recs.push_back({{{"main", Loc(1, 0)}}, 100});
  p.recs.push_back({{{"in", Loc(2, 0)}, {"main", Loc(3, 0)}}, 10});
  MProf m;
  int keep = 1 + c.pick(3);
  for (int i = 0; i < n; ++i) {
    uint64_t v = c.of<uint64_t>({5, 9, 0x100000001ull});
    p.targets.push_back({{{{"main", Loc(1, 0)}}, v}, tg[i]});
    if (i < 3) p.targets.push_back({{{{"in", Loc(2, 0)}, {"main", Loc(3, 0)}}, 20 - v % 10}, tg[i]});
  }
  SM sm;
  Build(p, &sm);
  m = Model(p);
  c.say("keep " + std::to_string(keep) + "\n" + Show(m));
  std::function<void(MSym&)> trim = [&](MSym& s) {
    for (auto& q : s.pos) {
      std::vector<std::pair<uint64_t, std::string>> v;
      for (auto& x : q.second.targets) v.push_back({~x.second, x.first});
      std::sort(v.begin(), v.end());
      for (size_t i = keep; i < v.size(); ++i) q.second.targets.erase(v[i].second);
    }
    for (auto& x : s.calls) trim(x.second);
  };
  for (auto& f : m) trim(f.second);
  sm.TrimCallTargets(keep);
  c.eq(Show(FromMap(sm)), Show(m), "trim", "call targets kept");
  c.outcome(Show(m));
  c.nontrivial();
}
void M06Throttle(Ctx& c) {
  // inline instances: location and callee by choice, distinct totals
  Prof p;
  int n = c.pick(mc::tier(5, 6));
  p.recs.push_back({{{"main", Loc(1, 0)}}, 7});
  uint64_t v = 1;
  std::vector<int> ord = {3, 1, 4, 2, 0};
  for (int i = 0; i < n; ++i) {
    uint64_t loc = Loc(10 + c.pick(2), 0);
    std::string fn = "k" + std::to_string(ord[i]);
    bool nested = c.flip();
    uint64_t cnt = (3ull << (4 * ord[i]));
    if (c.flip()) cnt <<= 20;
    p.recs.push_back({{{fn, Loc(1, 0)}, {"main", loc}}, cnt});
    if (nested) {
      p.recs.push_back({{{"n1", Loc(1, 0)}, {fn, Loc(5, 0)}, {"main", loc}}, 1});
      p.recs.push_back({{{"n2", Loc(1, 0)}, {fn, Loc(5, 0)}, {"main", loc}}, 2});
    }
  }
  int keep = c.pick(4) - 1;
  SM sm;
  Build(p, &sm);
  MProf m = Model(p);
  c.say("keep " + std::to_string(keep) + "\n" + Show(m));
  std::function<uint64_t(MSym&)> cut = [&](MSym& s) {
    std::map<uint64_t, std::vector<std::pair<uint64_t, std::string>>> by;
    for (auto& x : s.calls) by[x.first.first].push_back({~x.second.total, x.first.second});
    uint64_t gone = 0;
    for (auto& l : by) {
      std::sort(l.second.begin(), l.second.end());
      for (size_t i = keep; i < l.second.size(); ++i) {
        gone += ~l.second[i].first;
        s.calls.erase({l.first, l.second[i].second});
      }
    }
    for (auto& x : s.calls) gone += cut(x.second);
    s.total -= gone;
    return gone;
  };
  if (keep >= 0)
    for (auto& f : m) cut(f.second);
  sm.throttleInlineInstancesAtSameLocation(keep);
  c.eq(Show(FromMap(sm)), Show(m), "throttle", "inline instances kept");
  c.outcome(Show(m));
  c.nontrivial();
}
void M06Entry(Ctx& c, bool large = false) {
  // Head-count estimates and entry counts from the lowest position.
  Tree t = PickTree(c, large ? 0 : mc::tier(2, 3), 3);
  if (c.flip()) t.p.recs.push_back({{{"z", Loc(2, 0)}, {"main", Loc(0, c.pick(2))}}, c.of<uint64_t>({0, 55})});
  if (c.flip()) t.p.recs.push_back({{{"main", Loc(c.of<uint64_t>({0, 10, 9999, 20000}), 0)}}, 77});
  SM sm;
  Build(t.p, &sm);
  MProf m = Model(t.p);
  c.say(Show(m));
  std::function<uint64_t(const MSym&)> entry = [&](const MSym& s) -> uint64_t {
    uint64_t min = Loc(10000, 0), v = 0;
    if (!s.pos.empty() && s.pos.begin()->first < min) { min = s.pos.begin()->first; v = s.pos.begin()->second.count; }
    if (!s.calls.empty() && s.calls.begin()->first.first < min) v = entry(s.calls.begin()->second);
    return v;
  };
  std::function<bool(const MSym&)> tie = [&](const MSym& s) {
    if (s.calls.size() > 1 && s.calls.begin()->first.first == std::next(s.calls.begin())->first.first) return true;
    for (auto& x : s.calls)
      if (tie(x.second)) return true;
    return false;
  };
  for (auto& f : m) {
    if (!tie(f.second)) c.eq(sm.GetSymbolByName(f.first)->EntryCount(), entry(f.second), "entry-count", "entry count of " + f.first);
    const_cast<Symbol*>(sm.GetSymbolByName(f.first))->EstimateHeadCount();
    EstHead(f.second);
    c.eq(sm.GetSymbolByName(f.first)->head_count, f.second.head, "head-estimate", "head count of " + f.first);
  }
  c.outcome(Show(m));
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv, {
      {"M01/attribution", [](Ctx& c) { M01(c, mc::tier(3, 3)); }, 5},
      {"M02/profiles-2", [](Ctx& c) { M02Merge(c, 2); }, 4},
      {"M02/profiles-3", [](Ctx& c) { M02Merge(c, 3); }, 5},
      {"M02/symbols", M02Symbols, 3},
      {"M02/large", [](Ctx& c) { M02Merge(c, 2, true); }, 4},
      {"M03/names", M03Names, 4},
      {"M03/map", M03Map, 6},
      {"M03/large", M03Large, 2},
      {"M04/lookup", M04Lookup, 5},
      {"M04/large", M04Large, 2},
      {"M04/segments", M04Segments, 5},
      {"M04/sampled", M04Sampled, 6},
      {"M05/inclusive-3", [](Ctx& c) { M05Graph(c, 3); }, 5},
      {"M05/inclusive-4", [](Ctx& c) { M05Graph(c, 4); }, 5},
      {"M05/cycles", M05Cycles, 5},
      {"M05/valid", M05Valid, 4},
      {"M05/working-set", M05WorkingSet, 4},
      {"M05/measures", M05Measures, 4},
      {"M06/flat", [](Ctx& c) { M06Flat(c); }, 5},
      {"M06/hybrid", [](Ctx& c) { M06Hybrid(c); }, 5},
      {"M06/nested", [](Ctx& c) { M06Nested(c); }, 5},
      {"M06/call-targets", M06Trim, 4},
      {"M06/inline-instances", M06Throttle, 4},
      {"M06/entry", [](Ctx& c) { M06Entry(c); }, 5},
      {"M06/large", [](Ctx& c) {
         switch (c.pick(4)) {
           case 0: return M06Flat(c, true);
           case 1: return M06Hybrid(c, true);
           case 2: return M06Nested(c, true);
           default: return M06Entry(c, true);
         }
       }, 3},
  });
}
