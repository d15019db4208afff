// C01-C03, C09, C11: from branch profiles to control flow graphs.
#include <algorithm>
#include <sstream>
#include "mc.h"
#include "isolate.h"
#include "elfgen.h"
#include "propgen.h"
#include "branch_frequencies.h"
#include "frequencies_branch_aggregator.h"
#include "lbr_aggregation.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
#include "llvm_propeller_statistics.h"
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
using pg::Blk;
using pg::Fn;
using pg::Prog;
using pg::kFall;
using pg::kPad;
using pg::kRet;
using pg::kTail;
namespace {
using Pair = std::pair<uint64_t, uint64_t>;
using W = std::map<Pair, int64_t>;
std::string Str(const W& w) {
  std::ostringstream s;
  for (auto& [k, v] : w) s << std::hex << " " << k.first << "->" << k.second << ":" << std::dec << v;
  return s.str();
}
template <class M>
W ToW(const M& m) {
  W w;
  for (auto& [k, v] : m) w[{k.from, k.to}] = v;
  return w;
}
// ---------------------------------------------------------------- layouts
std::vector<Blk> Blocks(Ctx& c, int n, const std::vector<uint32_t>& sizes, const std::vector<int>& flags, bool gaps) {
  std::vector<Blk> v;
  uint32_t off = 0;
  for (int i = 0; i < n; ++i) {
    Blk b;
    if (gaps && i && c.flip()) off += 3;
    b.off = off;
    b.size = c.of(sizes);
    b.flags = c.of(flags);
    b.id = 10 + i * 7 % 5;
    off += b.size;
    v.push_back(b);
  }
  return v;
}
// ---------------------------------------------------------------- C02
void C02Lookup(Ctx& c) {
  Prog p;
  int nf = 1 + c.pick(mc::tier(3, 4));
  uint64_t at = 0x1000;
  if (c.flip()) at = 0xffffffff81000000ull;  // a kernel address
  uint64_t lo = at;
  for (int f = 0; f < nf; ++f) {
    Fn fn;
    if (f && c.flip()) at += 5;
    fn.addr = at;
    fn.names = {"f" + std::to_string(f)};
    bool first = f == 0;
    fn.selected = !c.flip();
    fn.blks = Blocks(c, 1 + c.pick(first ? 4 : 2), {4, 0}, {kFall}, first && nf == 1);
    uint64_t total = fn.End(fn.blks.size() - 1) - at;
    // Functions are not empty, and start at different addresses.
    if (total == 0) c.prune();
    at += total;
    p.fns.push_back(fn);
  }
  p.Finish();
  c.say(p.Str());
  auto m = p.Mapper();
  c.eq(m->bb_handles().size(), p.handles.size(), "handles");
  for (uint64_t a = lo - 2; a <= at + 6; ++a)
    for (int dir = 0; dir < 2; ++dir) {
      auto got = m->FindBbHandleIndexUsingBinaryAddress(a, dir ? BranchDirection::kTo : BranchDirection::kFrom);
      int want = dir ? p.To(a) : p.From(a);
      std::ostringstream what;
      what << (dir ? "branch to " : "branch from ") << std::hex << a;
      c.eq(got ? *got : -1, want, dir ? "lookup-to" : "lookup-from", what.str());
      c.transition();
      if (want >= 0) c.nontrivial();
    }
  for (size_t i = 0; i < p.handles.size(); ++i) {
    auto h = m->bb_handles()[i];
    c.eq(m->GetAddress(h), p.Start(i), "address");
    c.eq(m->GetEndAddress(h), p.End(i), "end-address");
    c.eq(m->GetName(h), p.fns[p.handles[i].f].names[0] + ":" + std::to_string(p.handles[i].b), "name");
  }
  c.outcome(p.Str());
}
// Numbers of functions and blocks that do not fit the small integer types.
Prog Large(int nf, int nb, int skip) {
  Prog p;
  uint64_t at = 0x401000;
  for (int f = 0; f < nf; ++f) {
    Fn fn;
    fn.addr = at;
    fn.names = {"f" + std::to_string(f)};
    fn.selected = !skip || f % skip != 1;
    for (int i = 0; i < nb; ++i) {
      Blk b;
      b.off = 4 * i, b.size = 4, b.id = i;
      if (i % 100 == 99) b.flags = 0;
      fn.blks.push_back(b);
    }
    at += 4 * nb;
    p.fns.push_back(fn);
  }
  p.Finish();
  return p;
}
// The indices worth asking about: around the powers of two and at the ends.
std::vector<int> Turning(int n) {
  std::set<int> s;
  for (int v : {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 299, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537})
    if (v < n) s.insert(v);
  s.insert(n - 1);
  return {s.begin(), s.end()};
}
void C02Large(Ctx& c) {
  auto [nf, nb] = c.of<std::pair<int, int>>({{1, 300}, {300, 1}, {3, 150}, {1, 40000}, {40000, 1}, {1, 70000}, {70000, 1}});
  Prog p = Large(nf, nb, nf > 3 && c.flip() ? 3 : 0);
  c.say(std::to_string(nf) + " functions of " + std::to_string(nb) + " blocks");
  auto m = p.Mapper();
  c.eq(m->bb_handles().size(), p.handles.size(), "handles");
  auto idx = Turning(p.handles.size());
  for (int i : idx) {
    auto h = m->bb_handles()[i];
    std::string what = "handle " + std::to_string(i);
    c.eq(h.function_index, p.handles[i].f, "handle-function", what);
    c.eq(h.bb_index, p.handles[i].b, "handle-block", what);
    c.eq(m->GetAddress(h), p.Start(i), "address", what);
    c.eq(m->GetEndAddress(h), p.End(i), "end-address", what);
    c.eq(m->GetName(h), p.fns[p.handles[i].f].names[0] + ":" + std::to_string(p.handles[i].b), "name", what);
    for (uint64_t a : {p.Start(i), p.Start(i) + 3})
      for (int dir = 0; dir < 2; ++dir) {
        auto got = m->FindBbHandleIndexUsingBinaryAddress(a, dir ? BranchDirection::kTo : BranchDirection::kFrom);
        c.eq(got ? *got : -1, i, dir ? "lookup-to" : "lookup-from", what);
      }
    for (int j : idx) {
      c.eq(m->CanFallThrough(i, j), p.Fall(i, j), "fallthrough", what + " to " + std::to_string(j));
      c.transition();
    }
  }
  c.nontrivial();
}
void C02Fall(Ctx& c) {
  Prog p;
  uint64_t at = 0x2000;
  for (int f = 0; f < 2; ++f) {
    Fn fn;
    fn.addr = at;
    fn.names = {};
    if (!c.flip()) fn.names = {"g" + std::to_string(f)};
    fn.blks = Blocks(c, f ? 1 + c.pick(3) : mc::tier(4, 5), {4}, {kFall, 0}, false);
    for (auto& b : fn.blks)
      if (f == 0 && &b == &fn.blks[1] && c.flip()) b.size = 0;
    for (size_t i = 1; i < fn.blks.size(); ++i) fn.blks[i].off = fn.blks[i - 1].off + fn.blks[i - 1].size;
    at = fn.End(fn.blks.size() - 1);
    p.fns.push_back(fn);
  }
  p.Finish();
  c.say(p.Str());
  auto m = p.Mapper();
  for (int i = 0; i < static_cast<int>(p.handles.size()); ++i)
    for (int j = 0; j < static_cast<int>(p.handles.size()); ++j) {
      c.eq(m->CanFallThrough(i, j), p.Fall(i, j), "fallthrough", "from block " + std::to_string(i) + " to " + std::to_string(j));
      c.transition();
      if (i < j && p.Fall(i, j)) c.nontrivial();
    }
  c.outcome(p.Str());
}
// Selection of functions from an ELF image.
struct ESym {
  std::string name;
  int fn;
  uint64_t size;
  int type = 2;
};
void C02Select(Ctx& c, bool same_names = false) {
  struct F {
    uint64_t addr;
    std::vector<Blk> blks;
    int sec;  // 0 .text, 1 .text.hot, 2 .init, 3 .text_other
    std::vector<ESym> syms;
  };
  static const char* kSec[] = {".text", ".text.hot", ".init", ".textual"};
  int nf = same_names ? mc::tier(3, 4) : mc::tier(2, 3);
  std::vector<F> fs;
  uint64_t at = 0x401000;
  int secs_used = same_names ? 0 : c.pick(4);
  for (int f = 0; f < nf; ++f) {
    F fn;
    fn.addr = at;
    Blk b0, b1;
    b0.off = 0, b0.size = 4, b0.id = 0, b0.flags = kFall;
    b1.off = c.of<uint32_t>({4, 6}), b1.size = same_names ? c.of<uint32_t>({3, 5}) : 3, b1.id = 5, b1.flags = kRet;
    fn.blks = {b0, b1};
    at += b1.off + b1.size + (f ? 8 : 0);
    fn.sec = f == 0 ? secs_used : 0;
    uint64_t size = b1.off + b1.size;
    switch (same_names ? c.of<int>({3, 2, 0}) : c.pick(f == 0 ? 8 : 7)) {
      case 0: fn.syms = {{"n" + std::to_string(f), f, size}}; break;
      case 1: fn.syms = {{"n" + std::to_string(f), f, size}, {"alias", f, size}}; break;  // shared name when used twice
      case 2: fn.syms = {{"same", f, size}}; break;
      case 3: fn.syms = {{"x.__uniq.1", f, size}}; break;
      case 4: fn.syms = {}; break;                                                        // no name
      case 5: fn.syms = {{"n" + std::to_string(f), f, size}, {"other-size", f, size + 1}, {"third", f, size}}; break;
      case 6: fn.syms = {{"obj", f, size, 1}, {"empty", f, 0}, {"m" + std::to_string(f), f, size}}; break;
      case 7: fn.syms = {{"x.__uniq.1", f, size}, {"same", f, size}}; break;
    }
    fs.push_back(fn);
  }
  bool filter_text = same_names || !c.flip();
  int hot_mode = same_names ? 0 : c.pick(3);
  std::set<uint64_t> hot;
  if (hot_mode) {
    // one or two addresses at the edges of the functions
    std::vector<uint64_t> pool = {fs[0].addr - 1};
    for (auto& f : fs) {
      pool.push_back(f.addr);
      pool.push_back(f.addr + 5);
      pool.push_back(f.addr + f.blks[1].off + 2);
      pool.push_back(f.addr + f.blks[1].off + 3);
    }
    hot.insert(c.of(pool));
    if (hot_mode == 2) hot.insert(c.of(pool));
  }
  // the image
  ElfGen g;
  g.etype = 2;
  ElfSegment seg;
  seg.vaddr = 0x401000, seg.filesz = seg.memsz = 0x1000;
  g.segs.push_back(seg);
  std::map<int, int> secidx;
  for (auto& f : fs)
    if (!secidx.count(f.sec)) {
      int i = g.Add(kSec[f.sec], std::string(0x100, '\x90'));
      g.secs.back().flags = 6;
      g.secs.back().addr = f.addr;
      secidx[f.sec] = i;
    }
  std::map<int, Buf> maps;
  std::vector<ElfSym> syms;
  for (size_t i = 0; i < fs.size(); ++i) {
    auto& f = fs[i];
    Buf& m = maps.emplace(f.sec, Buf(false)).first->second;
    m.u8(2).u8(0).u64(f.addr).uleb(f.blks.size());
    uint32_t end = 0;
    for (auto& b : f.blks) {
      m.uleb(b.id).uleb(b.off - end).uleb(b.size).uleb(pg::Md(b.flags).encode());
      end = b.off + b.size;
    }
    for (auto& s : f.syms) {
      ElfSym e;
      e.name = s.name;
      e.value = f.addr;
      e.size = s.size;
      e.type = s.type;
      e.shndx = secidx[f.sec];
      syms.push_back(e);
    }
  }
  // Sections in address order: function 0 comes first.
  for (auto& f : fs) {
    auto it = maps.find(f.sec);
    if (it == maps.end()) continue;
    g.Add(".llvm_bb_addr_map", it->second.s, 0x6fff4c0a);
    g.secs.back().link = secidx[f.sec];
    maps.erase(it);
  }
  g.AddSymtab(".symtab", 2, ".strtab", syms);
  // the model
  struct Info {
    std::vector<std::string> aliases;
    std::string sec;
  };
  std::map<int, Info> info;
  for (size_t i = 0; i < fs.size(); ++i) {
    Info in;
    uint64_t size = 0;
    for (auto& s : fs[i].syms) {
      if (s.type != 2 || s.size == 0) continue;
      if (in.aliases.empty()) size = s.size;
      if (s.size == size) in.aliases.push_back(s.name);
    }
    if (in.aliases.empty()) continue;
    std::string sn = kSec[fs[i].sec];
    in.sec = sn == ".text.hot" ? ".text" : sn;
    info[i] = in;
  }
  std::set<int> sel;
  for (size_t i = 0; i < fs.size(); ++i) {
    bool h = hot_mode == 0;
    for (uint64_t a : hot) h |= a >= fs[i].addr && a < fs[i].addr + fs[i].blks[1].off + 3;
    if (h) sel.insert(i);
  }
  size_t nhot = sel.size();
  for (auto it = sel.begin(); it != sel.end();)
    if (!info.count(*it) || (filter_text && info[*it].sec != ".text")) it = sel.erase(it);
    else ++it;
  std::map<std::string, std::vector<int>> by_name;
  for (int f : sel)
    for (auto& a : info[f].aliases) by_name[a].push_back(f);
  uint64_t dups = 0;
  std::set<int> drop;
  for (auto& [n, v] : by_name) {
    if (v.size() < 2) continue;
    dups += v.size() - 1;
    bool same = n.find(".__uniq.") != std::string::npos;
    for (int f : v) same &= fs[f].blks[1].off == fs[v[0]].blks[1].off && fs[f].blks[1].size == fs[v[0]].blks[1].size;
    for (size_t k = same ? 1 : 0; k < v.size(); ++k) drop.insert(v[k]);
  }
  for (int f : drop) sel.erase(f);
  MemFile file(g.Build());
  PropellerOptions options;
  options.set_filter_non_text_functions(filter_text);
  auto content = GetBinaryContent(file.path());
  c.check(content.ok(), "binary-content", content.status().ToString());
  PropellerStats stats;
  absl::flat_hash_set<uint64_t> hs(hot.begin(), hot.end());
  auto r = BuildBinaryAddressMapper(options, **content, stats, hot_mode ? &hs : nullptr);
  c.check(r.ok(), "build-mapper", r.status().ToString());
  auto& m = **r;
  c.eq(m.bb_addr_map().size(), fs.size(), "functions");
  for (size_t i = 0; i < fs.size(); ++i) {
    c.eq(m.bb_addr_map()[i].getFunctionAddress(), fs[i].addr, "function-address");
    c.eq(m.bb_addr_map()[i].getBBEntries().size(), fs[i].blks.size(), "function-blocks");
  }
  std::set<int> got(m.selected_functions().begin(), m.selected_functions().end());
  auto str = [](const std::set<int>& s) {
    std::string o;
    for (int x : s) o += " " + std::to_string(x);
    return o;
  };
  c.eq(str(got), str(sel), "selected-functions");
  std::vector<std::pair<int, int>> want, have;
  for (int f : sel)
    for (int b = 0; b < 2; ++b) want.push_back({f, b});
  for (auto& h : m.bb_handles()) have.push_back({h.function_index, h.bb_index});
  c.check(have == want, "handles", "block handles differ from the blocks of the selected functions");
  c.eq(m.symbol_info_map().size(), sel.size(), "symbol-info");
  for (int f : sel) {
    auto it = m.symbol_info_map().find(f);
    c.check(it != m.symbol_info_map().end(), "symbol-info", "none for a selected function");
    std::vector<std::string> al;
    for (auto a : it->second.aliases) al.push_back(a.str());
    c.check(al == info[f].aliases, "aliases", "function " + std::to_string(f) + " has other names");
    c.eq(it->second.section_name.str(), info[f].sec, "section");
  }
  c.eq(stats.bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry, fs.size() - info.size(), "stat-no-symbol");
  c.eq(stats.bbaddrmap_stats.hot_functions, hot_mode ? nhot : 0, "stat-hot");
  c.eq(stats.bbaddrmap_stats.duplicate_symbols, dups, "stat-duplicates");
  if (sel.size() && sel.size() < fs.size()) c.nontrivial();
  c.transition();
  c.outcome(str(sel) + std::to_string(dups));
}
// ---------------------------------------------------------------- C01
std::map<Pair, int64_t> ModelFall(const Prog& p, const W& taken, const std::map<uint64_t, int64_t>& nottaken, std::optional<int> isize) {
  struct B {
    int64_t in = 0, out = 0;
    std::optional<int64_t> fall;
  };
  std::map<int, B> w;
  for (auto& [k, n] : taken) {
    int f = p.From(k.first), t = p.To(k.second);
    if (f >= 0) {
      w[f].out += n;
      if (isize && k.first == p.End(f) - *isize) w[f].fall = 0;
    }
    if (t >= 0) w[t].in += n;
  }
  if (isize)
    for (auto& [a, n] : nottaken) {
      int f = p.From(a);
      if (f >= 0 && a == p.End(f) - *isize) w[f].fall = n;
    }
  W out;
  std::vector<int> order;
  for (auto& [i, b] : w) order.push_back(i);
  for (size_t k = 0; k < order.size(); ++k) {
    int i = order[k];
    B& b = w[i];
    int64_t fall = b.fall ? *b.fall : b.in - b.out;
    if (fall <= 0) continue;
    // What leaves the end of the block reaches the next block that has samples
    // if control can get there, else the block after this one.
    int next = k + 1 < order.size() ? order[k + 1] : i + 1;
    if (k + 1 < order.size() && p.Fall(i, next)) w[next].in += fall;
    if (next >= static_cast<int>(p.handles.size())) continue;
    int to = p.Fall(i, next) ? next : i + 1 < static_cast<int>(p.handles.size()) && p.Fall(i, i + 1) ? i + 1 : -1;
    if (to >= 0) out[{p.Start(i), p.Start(to)}] += fall;
  }
  return out;
}
void C01Frequencies(Ctx& c, bool sized) {
  Prog p;
  Fn f;
  f.addr = 0x1000;
  int n = mc::tier(4, 5);
  for (int i = 0; i < n; ++i) {
    Blk b;
    b.off = 8 * i;
    b.size = 8;
    b.flags = i == n - 1 ? 0 : c.flip() ? 0 : kFall;
    f.blks.push_back(b);
  }
  if (c.flip()) {  // an empty block in the middle
    f.blks[1].size = 0;
    for (int i = 2; i < n; ++i) f.blks[i].off -= 8;
    f.addr = 0x100001000ull;  // needs more than 32 bits
  }
  p.fns.push_back(f);
  Fn g;
  g.addr = f.End(n - 1);
  g.blks.resize(1);
  g.blks[0].size = 8;
  p.fns.push_back(g);
  p.Finish();
  std::optional<int> isize;
  if (sized) isize = 4;
  std::vector<uint64_t> from = {0x900}, to = {0x900}, nt = {0x900};
  for (size_t i = 0; i < p.handles.size(); ++i) {
    to.push_back(p.Start(i));
    if (p.B(i).size) {
      from.push_back(p.End(i) - 4);
      nt.push_back(p.End(i) - 4);
    }
  }
  from.push_back(p.Start(0));  // not the last instruction
  nt.push_back(p.Start(0));
  to.push_back(p.Start(0) + 4);
  W taken;
  std::map<uint64_t, int64_t> nottaken;
  int nb = 1 + c.pick(sized ? 2 : mc::tier(3, 3));
  std::vector<Pair> pool;
  for (auto a : from)
    for (auto b : to) pool.push_back({a, b});
  int last = -1;
  for (int i = 0; i < nb; ++i) {
    int left = static_cast<int>(pool.size()) - last - 1;
    if (left <= 0) c.prune();
    last += 1 + c.pick(left);
    taken[pool[last]] = i == 0 ? (c.flip() ? 0x100000000ll : 5) : i == 1 ? 3 : 1;
  }
  if (sized) {
    int nn = c.pick(3);
    int l = -1;
    for (int i = 0; i < nn; ++i) {
      int left = static_cast<int>(nt.size()) - l - 1;
      if (left <= 0) c.prune();
      l += 1 + c.pick(left);
      nottaken[nt[l]] = i ? 4 : 7;
    }
  }
  c.say(p.Str() + " taken" + Str(taken));
  BranchFrequencies bf;
  int64_t total = 0;
  for (auto& [k, v] : taken) bf.taken_branch_counters[{.from = k.first, .to = k.second}] = v, total += v;
  for (auto& [k, v] : nottaken) bf.not_taken_branch_counters[{.address = k}] = v;
  c.eq(bf.GetNumberOfTakenBranchCounters(), total, "taken-total");
  PropellerStats in;
  in.profile_stats.br_counters_accumulated = 17;
  FrequenciesBranchAggregator agg(bf, in, isize);
  auto ends = agg.GetBranchEndpointAddresses();
  c.check(ends.ok(), "endpoints", "error");
  std::set<uint64_t> we;
  for (auto& [k, v] : taken) we.insert(k.first), we.insert(k.second);
  for (auto& [k, v] : nottaken) we.insert(k);
  c.check(std::set<uint64_t>(ends->begin(), ends->end()) == we && ends->size() == we.size(), "endpoints", "branch end points differ");
  PropellerStats stats;
  auto m = p.Mapper();
  auto r = agg.Aggregate(*m, stats);
  c.check(r.ok(), "aggregate", "error");
  c.eq(stats.profile_stats.br_counters_accumulated, 17u, "stats");
  c.eq(Str(ToW(r->branch_counters)), Str(taken), "branches");
  W want = ModelFall(p, taken, nottaken, isize), got = ToW(r->fallthrough_counters);
  c.eq(Str(got), Str(want), "fallthroughs");
  c.eq(r->GetNumberOfBranchCounters(), total, "total");
  std::set<uint64_t> wu;
  for (auto* x : {&taken, &want})
    for (auto& [k, v] : *x) wu.insert(k.first), wu.insert(k.second);
  auto u = r->GetUniqueAddresses();
  c.check(std::set<uint64_t>(u.begin(), u.end()) == wu, "unique-addresses", "unique addresses differ");
  if (!want.empty()) c.nontrivial();
  c.transition();
  c.outcome(Str(want));
}
class OneShot : public LbrAggregator {
 public:
  OneShot(absl::StatusOr<LbrAggregation> a, int* calls) : a_(std::move(a)), calls_(calls) {}
  absl::StatusOr<LbrAggregation> AggregateLbrData(const PropellerOptions&, const BinaryContent&, PropellerStats& stats) override {
    ++*calls_;
    stats.profile_stats.perf_file_parsed += 3;
    return a_;
  }

 private:
  absl::StatusOr<LbrAggregation> a_;
  int* calls_;
};
class OneShotFreq : public BranchFrequenciesAggregator {
 public:
  OneShotFreq(absl::StatusOr<BranchFrequencies> a, int* calls) : a_(std::move(a)), calls_(calls) {}
  absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions&, const BinaryContent&, PropellerStats& stats) override {
    ++*calls_;
    stats.profile_stats.perf_file_parsed += 3;
    return a_;
  }

 private:
  absl::StatusOr<BranchFrequencies> a_;
  int* calls_;
};
void C01Lazy(Ctx& c) {
  W br, fl;
  static const std::vector<uint64_t> as = {0x10, 0x20, 0xffffffff81000000ull};
  int nb = c.pick(3);
  for (int i = 0; i < nb; ++i) br[{c.of(as), c.of(as)}] += i ? 2 : 0x90000000ll;
  int nfl = c.pick(3);
  for (int i = 0; i < nfl; ++i) fl[{c.of(as), c.of(as) + 1}] += 3;
  bool error = c.flip(), freq = c.flip();
  int calls = 0;
  LbrAggregation la;
  BranchFrequencies bf;
  for (auto& [k, v] : br) la.branch_counters[{k.first, k.second}] = v, bf.taken_branch_counters[{k.first, k.second}] = v;
  for (auto& [k, v] : fl) la.fallthrough_counters[{k.first, k.second}] = v, bf.not_taken_branch_counters[{k.first}] += v;
  int64_t total = 0;
  for (auto& [k, v] : br) total += v;
  c.eq(la.GetNumberOfBranchCounters(), total, "lbr-total");
  c.eq(bf.GetNumberOfTakenBranchCounters(), total, "taken-total");
  PropellerOptions opts;
  BinaryContent content;
  std::unique_ptr<BranchAggregator> agg;
  if (freq) {
    absl::StatusOr<BranchFrequencies> s = bf;
    if (error) s = absl::NotFoundError("x");
    agg = std::make_unique<FrequenciesBranchAggregator>(std::make_unique<OneShotFreq>(s, &calls), opts, content);
  } else {
    absl::StatusOr<LbrAggregation> s = la;
    if (error) s = absl::NotFoundError("x");
    agg = std::make_unique<LbrBranchAggregator>(std::make_unique<OneShot>(s, &calls), opts, content);
  }
  BinaryAddressMapper m({}, {}, {}, {});
  int steps = c.pick(mc::tier(4, 5));
  c.eq(calls, 0, "lazy");
  for (int i = 0; i < steps; ++i) {
    c.transition();
    if (c.flip()) {
      auto e = agg->GetBranchEndpointAddresses();
      c.eq(e.ok(), !error, "error");
      if (!e.ok()) {
        c.check(e.status().code() == absl::StatusCode::kNotFound, "error-code", "other error");
        continue;
      }
      std::set<uint64_t> want;
      for (auto& [k, v] : br) want.insert(k.first), want.insert(k.second);
      for (auto& [k, v] : fl) {
        want.insert(k.first);
        if (!freq) want.insert(k.second);
      }
      c.check(std::set<uint64_t>(e->begin(), e->end()) == want && e->size() == want.size(), "endpoints", "differ");
    } else {
      PropellerStats st;
      auto a = agg->Aggregate(m, st);
      c.eq(a.ok(), !error, "error");
      if (!a.ok()) {
        c.check(a.status().code() == absl::StatusCode::kNotFound, "error-code", "other error");
        continue;
      }
      c.eq(st.profile_stats.perf_file_parsed, 3, "stats");
      c.eq(Str(ToW(a->branch_counters)), Str(br), "branches");
      c.eq(Str(ToW(a->fallthrough_counters)), Str(freq ? W{} : fl), "fallthroughs");
    }
    c.eq(calls, 1, "evaluated-once");
    c.nontrivial();
  }
  c.outcome(Str(br) + "|" + Str(fl) + std::to_string(error * 2 + freq));
}
// ---------------------------------------------------------------- C03
struct MEdge {
  std::set<int> kinds;
  int64_t weight = 0;
};
struct MCfg {
  bool error = false;
  std::map<std::pair<int, int>, MEdge> edges;
  std::map<int, int64_t> weight_by_kind;
};
MCfg ModelCfg(const Prog& p, const W& branches, const W& falls) {
  MCfg m;
  std::map<std::pair<int, int>, int64_t> ft;
  int64_t dubious = 0, total = 0;
  for (auto& [k, n] : branches) {
    int from = p.From(k.first), to = p.To(k.second);
    if (to < 0) continue;
    bool entry = p.fns[p.handles[to].f].addr == k.second;
    bool ret = from >= 0 && (p.B(from).flags & kRet);
    // A return lands after the call, which the block before ends with.
    if ((from < 0 || ret || p.handles[from].f != p.handles[to].f) && !entry && p.Start(to) == k.second && p.handles[to].b != 0) {
      ft[{to - 1, to}] += n;
      --to;
    }
    if (from < 0) continue;
    if (!ret && p.Start(to) != k.second) dubious += n;
    int kind = entry ? 1 : p.Start(to) != k.second || ret ? 2 : 0;
    auto& e = m.edges[{from, to}];
    e.kinds.insert(kind);
    e.weight += n;
    m.weight_by_kind[kind] += n;
    total += n;
  }
  if (total > 0 && dubious / static_cast<double>(total) > 0.3) m.error = true;
  if (!branches.empty() && m.edges.size() / static_cast<double>(branches.size()) < 0.0005) m.error = true;
  for (auto& [k, n] : falls) {
    int from = p.To(k.first), to = p.From(k.second);
    if (from >= 0 && to >= 0) ft[{from, to}] += n;
  }
  for (auto& [k, n] : ft) {
    if (k.first == k.second || !p.Fall(k.first, k.second)) continue;
    for (int i = k.first; i < k.second; ++i) {
      auto& e = m.edges[{i, i + 1}];
      e.kinds.insert(0);
      e.weight += n;
      m.weight_by_kind[0] += n;
    }
  }
  return m;
}
int64_t ModelFreq(const std::map<std::pair<int, int>, MEdge>& edges, int node, const std::map<std::pair<int, int>, int>& kind) {
  int64_t call = 0, ret = 0, in = 0, out = 0;
  for (auto& [k, e] : edges) {
    int kd = kind.at(k);
    if (k.first == node) {
      if (kd == 1) call = std::max(call, e.weight);
      else out += e.weight;
    }
    if (k.second == node) {
      if (kd == 2) ret = std::max(ret, e.weight);
      else in += e.weight;
    }
  }
  return std::max({call, ret, in, out});
}
void RunC03(Ctx& c, const Prog& p, const W& branches, const W& falls) {
  c.say(p.Str() + " branches" + Str(branches) + " falls" + Str(falls));
  BranchAggregation agg;
  for (auto& [k, v] : branches) agg.branch_counters[{k.first, k.second}] = v;
  for (auto& [k, v] : falls) agg.fallthrough_counters[{k.first, k.second}] = v;
  auto m = p.Mapper();
  PropellerStats stats;
  auto r = ProgramCfgBuilder(m.get(), stats).Build(agg, nullptr, nullptr);
  MCfg want = ModelCfg(p, branches, falls);
  c.transition();
  c.eq(r.ok(), !want.error, "refused", r.ok() ? "" : r.status().ToString());
  if (!r.ok()) {
    c.outcome("refused");
    return;
  }
  std::map<std::pair<int, int>, int> index;
  for (size_t i = 0; i < p.handles.size(); ++i) index[{p.handles[i].f, p.handles[i].b}] = i;
  // Kinds: where two kinds of transfer share an edge, it has one of them.
  std::map<std::pair<int, int>, int> kinds;
  std::set<int> live;
  size_t nedges = 0;
  auto cfgs = (*r)->GetCfgs();
  std::map<std::pair<int, int>, const CFGEdge*> seen;
  int lastf = -1;
  for (auto* g : cfgs) {
    c.check(g->function_index() > lastf, "order", "CFGs out of order");
    lastf = g->function_index();
    live.insert(lastf);
    c.check((*r)->GetCfgByIndex(lastf) == g, "by-index", "other CFG");
    c.eq(g->nodes().size(), p.fns[lastf].blks.size(), "nodes");
    c.eq(g->section_name().str(), p.fns[lastf].section, "section");
    c.eq(g->GetPrimaryName().str(), p.fns[lastf].names[0], "name");
    c.eq(g->names().size(), p.fns[lastf].names.size(), "names");
    int pads = 0;
    for (size_t b = 0; b < g->nodes().size(); ++b) {
      auto& n = *g->nodes()[b];
      auto& k = p.fns[lastf].blks[b];
      c.eq(n.addr(), p.fns[lastf].Start(b), "node-address");
      c.eq(n.size(), static_cast<int>(k.size), "node-size");
      c.eq(n.bb_id(), k.id, "node-id");
      c.eq(n.bb_index(), static_cast<int>(b), "node-index");
      c.eq(n.node_index(), static_cast<int>(b), "node-index");
      c.eq(n.has_return(), (k.flags & kRet) != 0, "node-return");
      c.eq(n.can_fallthrough(), (k.flags & kFall) != 0, "node-fallthrough");
      c.eq(n.is_landing_pad(), (k.flags & kPad) != 0, "node-pad");
      pads += n.is_landing_pad();
    }
    c.eq(g->n_landing_pads(), pads, "pads");
    for (int inter = 0; inter < 2; ++inter)
      for (auto& e : inter ? g->inter_edges() : g->intra_edges()) {
        auto* s = e->src();
        auto* t = e->sink();
        c.eq(s->function_index(), lastf, "edge-owner");
        c.eq(s->function_index() != t->function_index(), inter == 1, "edge-list");
        int a = index.at({s->function_index(), s->bb_index()}), b = index.at({t->function_index(), t->bb_index()});
        c.check(seen.emplace(std::make_pair(a, b), e.get()).second, "edge-twice", "two edges between the same blocks");
        auto& outs = inter ? s->inter_outs() : s->intra_outs();
        auto& ins = inter ? t->inter_ins() : t->intra_ins();
        c.eq(std::count(outs.begin(), outs.end(), e.get()), 1, "edge-out-list");
        c.eq(std::count(ins.begin(), ins.end(), e.get()), 1, "edge-in-list");
        c.eq(e->inter_section(), p.fns[s->function_index()].section != p.fns[t->function_index()].section, "inter-section");
        ++nedges;
      }
  }
  for (auto& [k, e] : want.edges) {
    auto it = seen.find(k);
    std::ostringstream what;
    what << "block " << k.first << " to " << k.second;
    c.check(it != seen.end(), "edge-missing", what.str());
    c.eq(static_cast<int64_t>(it->second->weight()), e.weight, "edge-weight", what.str());
    int kd = it->second->IsCall() ? 1 : it->second->IsReturn() ? 2 : 0;
    c.check(e.kinds.count(kd), "edge-kind", what.str() + " has kind " + std::to_string(kd));
    kinds[k] = kd;
  }
  c.eq(nedges, want.edges.size(), "edges");
  int hot = 0, hot_empty = 0, hot_pads = 0;
  std::set<int> wlive;
  for (size_t i = 0; i < p.handles.size(); ++i) {
    int64_t f = ModelFreq(want.edges, i, kinds);
    int fi = p.handles[i].f;
    if (f) {
      wlive.insert(fi);
      ++hot;
      hot_empty += p.B(i).size == 0;
    }
    if (live.count(fi)) c.eq(static_cast<int64_t>((*r)->GetCfgByIndex(fi)->nodes()[p.handles[i].b]->CalculateFrequency()), f, "frequency", "block " + std::to_string(i));
  }
  for (size_t f = 0; f < p.fns.size(); ++f) {
    bool hp = false;
    for (size_t i = 0; i < p.handles.size(); ++i)
      if (p.handles[i].f == static_cast<int>(f) && (p.B(i).flags & kPad) && ModelFreq(want.edges, i, kinds)) hp = true;
    hot_pads += hp;
    if (live.count(f)) c.eq(static_cast<bool>((*r)->GetCfgByIndex(f)->has_hot_landing_pads()), hp, "hot-pads");
  }
  c.check(live == wlive, "live-functions", "functions with and without samples differ");
  auto& cs = stats.cfg_stats;
  c.eq(cs.hot_basic_blocks, hot, "stat-hot");
  c.eq(cs.hot_empty_basic_blocks, hot_empty, "stat-hot-empty");
  c.eq(cs.cfgs_with_hot_landing_pads, hot_pads, "stat-pads");
  uint64_t nsel = 0;
  for (auto& f : p.fns) nsel += f.selected;
  c.eq(cs.cfgs_created, nsel, "stat-cfgs");
  c.eq(cs.nodes_created, p.handles.size(), "stat-nodes");
  c.eq(cs.total_edges_created(), static_cast<int64_t>(nedges), "stat-edges");
  for (int kd = 0; kd < 3; ++kd) {
    auto kk = kd == 0 ? CFGEdge::Kind::kBranchOrFallthough : kd == 1 ? CFGEdge::Kind::kCall : CFGEdge::Kind::kRet;
    auto it = cs.total_edge_weight_by_kind.find(kk);
    c.eq(it == cs.total_edge_weight_by_kind.end() ? int64_t{0} : it->second, want.weight_by_kind[kd], "stat-weight", std::to_string(kd));
  }
  if (nedges) c.nontrivial();
  std::string o;
  for (auto& [k, e] : want.edges) o += std::to_string(k.first) + ">" + std::to_string(k.second) + ":" + std::to_string(e.weight) + " ";
  c.outcome(o);
}
Prog C03Prog(Ctx& c, int layouts) {
  Prog p;
  Fn a, b;
  int lay = c.pick(layouts);
  a.addr = 0x1000;
  if (lay & 1) a.addr = 0x100001000ull;
  a.names = {"a", "a_alias"};
  b.names = {"b"};
  auto blk = [](uint32_t off, uint32_t size, int flags, int id) {
    Blk x;
    x.off = off, x.size = size, x.flags = flags, x.id = id;
    return x;
  };
  a.blks = {blk(0, 8, kFall, 4), blk(8, 8, c.of<int>({kFall, kFall | kRet, 0}), 1), blk(16, 8, c.of<int>({kRet, kPad | kFall}), 0)};
  b.blks = {blk(0, 8, kFall, 0), blk(8, 8, c.of<int>({kRet, 0}), 9)};
  if (lay & 2) {
    a.blks[1].size = 0;
    a.blks[1].flags |= kFall;
    a.blks[1].flags &= ~kRet;
    a.blks[2].off = 8;
  }
  if (lay & 4) a.blks.push_back(blk(a.blks[2].off + 8, 0, 0, 7));  // empty block at the end
  b.addr = a.End(a.blks.size() - 1);
  if (c.flip()) b.section = ".text.b";
  if (lay & 8) b.selected = false;
  p.fns = {a, b};
  p.Finish();
  return p;
}
void C03Branches(Ctx& c) {
  Prog p = C03Prog(c, mc::tier(4, 16));
  std::vector<uint64_t> from, to;
  std::set<uint64_t> f, t;
  for (auto& fn : p.fns)
    for (size_t i = 0; i < fn.blks.size(); ++i) {
      t.insert(fn.Start(i));
      t.insert(fn.Start(i) + 4);
      f.insert(fn.Start(i));
    }
  t.insert(0x10), f.insert(0x10);
  std::vector<Pair> pool;
  for (auto x : f)
    for (auto y : t) pool.push_back({x, y});
  W br;
  int n = 1 + c.pick(2), last = -1;
  for (int i = 0; i < n; ++i) {
    int left = static_cast<int>(pool.size()) - last - 1;
    if (left <= 0) c.prune();
    last += 1 + c.pick(left);
    br[pool[last]] = i ? 10 : c.of<int64_t>({3, 100});
  }
  RunC03(c, p, br, {});
}
std::unique_ptr<ControlFlowGraph> MakeCfg(int index, const std::vector<Blk>& blks, std::vector<std::string>* store);
void C03Large(Ctx& c) {
  bool many = c.flip();  // functions, else blocks
  int n = many ? 300 : c.of({300, 33000});
  Prog p = Large(many ? n : 1, many ? 1 : n, many && c.flip() ? 3 : 0);
  if (!many && n == 300)
    for (auto& b : p.fns[0].blks) b.flags = kFall | kPad;
  auto idx = Turning(p.handles.size());
  W br, fl;
  int64_t w = c.of<int64_t>({3, 0x1000001, 0x3fffffff});
  int i = c.of(idx), j = c.of(idx);
  br[{p.Start(i), p.Start(j)}] = w;
  if (n == 300 && !many) {
    bool far = c.flip();  // every block runs
    fl[{p.Start(far ? 0 : 100), p.Start(far ? n - 1 : 120)}] = 7;
  } else if (many) {
    br[{p.Start(j), p.Start(idx[idx.size() / 2])}] += 2;
  }
  RunC03(c, p, br, fl);
}
// A profile much of whose weight lies on branches into the middle of blocks
// is refused, however large the weights are.
void C03Refusal(Ctx& c) {
  Prog p = Large(1, 60, 0);
  W br;
  int bad = c.pick(4), good = c.pick(mc::tier(6, 9));
  if (bad + good == 0) c.prune();
  int64_t wb = c.of<int64_t>({1, 100, 0x60000000}), wg = c.of<int64_t>({1, 100, 0x60000000});
  int at = 0;
  for (int i = 0; i < bad + good; ++i, at += 4) br[{p.Start(at), p.Start(at + 2) + (i < bad)}] = i < bad ? wb : wg;
  RunC03(c, p, br, {});
}
// Counts of a single transfer beyond 2^31.
void C03Overflow(Ctx& c) {
  Prog p = Large(1, 8, 0);
  int64_t n = c.of<int64_t>({0x80000005ll, 0x100000007ll});
  BranchAggregation agg;
  agg.branch_counters[{p.Start(0), p.Start(2)}] = n;
  auto m = p.Mapper();
  PropellerStats stats;
  auto r = ProgramCfgBuilder(m.get(), stats).Build(agg, nullptr, nullptr);
  c.check(r.ok(), "overflow-refused", r.ok() ? "" : r.status().ToString());
  auto* g = (*r)->GetCfgByIndex(0);
  c.check(g != nullptr && g->intra_edges().size() == 1 && static_cast<int64_t>(g->intra_edges()[0]->weight()) == n, "weight-over-31-bits",
          "a branch taken " + std::to_string(n) + " times has another weight in the graph");
  c.nontrivial();
}
void C11Large(Ctx& c) {
  // More blocks, landing pads and clones than a byte counts.
  int n = c.of({3, 300});
  std::vector<Blk> blks(n);
  for (int i = 0; i < n; ++i) blks[i].off = 8 * i, blks[i].size = 8, blks[i].id = i, blks[i].flags = kPad | kFall;
  std::vector<std::string> name = {"a"};
  auto g = MakeCfg(2, blks, &name);
  int clones = n == 3 ? c.of({126, 127, 128, 255, 256, 300}) : c.of({0, 1});
  bool heavy = c.flip();
  for (int i = 0; i + 1 < n; ++i) g->CreateEdge(g->nodes()[i].get(), g->nodes()[i + 1].get(), heavy ? 0x7fffff00 + i % 200 : 1 + i, CFGEdge::Kind::kBranchOrFallthough, false);
  for (int k = 0; k < clones; ++k) g->ClonePath(0, {n - 1});
  auto check = [&](const ControlFlowGraph& a, const std::string& key) {
    c.eq(a.nodes().size(), static_cast<size_t>(n + clones), key + "-nodes");
    c.eq(a.n_landing_pads(), n + clones, key + "-pads");
    for (int i = 0; i < n + clones; ++i) {
      auto& x = *a.nodes()[i];
      c.eq(x.node_index(), i, key + "-index");
      c.eq(x.bb_index(), i < n ? i : n - 1, key + "-block");
      c.eq(x.clone_number(), i < n ? 0 : i - n + 1, key + "-clone");
      c.check(&a.GetNodeById(x.intra_cfg_id()) == &x, key + "-by-id", "another node");
      c.transition();
    }
    c.eq(a.GetAllClonesForBbIndex(n - 1).size(), static_cast<size_t>(clones + 1), key + "-clones");
    if (&a == g.get()) c.eq(a.clone_paths().size(), static_cast<size_t>(clones), key + "-paths");
  };
  c.say(std::to_string(n) + " blocks, " + std::to_string(clones) + " clones");
  check(*g, "large");
  auto copy = CloneCfg(*g);
  c.eq(copy->nodes().size(), g->nodes().size(), "large-copy");
  auto st = g->GetNodeFrequencyStats();
  c.eq(st.n_hot_blocks, n, "large-hot");
  c.eq(st.n_hot_landing_pads, n, "large-hot-pads");
  auto fr = g->GetNodeFrequencies();
  for (int i = 0; i < n; ++i) {
    int in = i ? g->intra_edges()[i - 1]->weight() : 0, out = i + 1 < n ? g->intra_edges()[i]->weight() : 0;
    c.eq(fr[i], std::max(in, out), "large-frequency", std::to_string(i));
  }
  check(*copy, "large-copy");
  c.nontrivial();
}
void C03Falls(Ctx& c) {
  Prog p = C03Prog(c, mc::tier(8, 16));
  W br, fl;
  int i0 = c.pick(2);
  // A branch that keeps the profile acceptable, and one that returns.
  br[{p.fns[0].Start(2), p.fns[0].Start(0)}] = 50;
  if (i0) br[{p.fns[1].Start(1), p.fns[0].Start(2)}] = 7;
  std::set<uint64_t> as = {0x10};
  for (auto& fn : p.fns)
    for (size_t i = 0; i < fn.blks.size(); ++i) as.insert(fn.Start(i)), as.insert(fn.Start(i) + 7);
  std::vector<uint64_t> v(as.begin(), as.end());
  std::vector<Pair> pool;
  for (auto x : v)
    for (auto y : v) pool.push_back({x, y});
  int n = 1 + c.pick(mc::tier(2, 2)), last = -1;
  for (int i = 0; i < n; ++i) {
    int left = static_cast<int>(pool.size()) - last - 1;
    if (left <= 0) c.prune();
    last += 1 + c.pick(left);
    fl[pool[last]] = i ? 11 : 2;
  }
  RunC03(c, p, br, fl);
}
// ---------------------------------------------------------------- C11, C09: graphs made directly
struct GEdge {
  int from, to, weight;
  CFGEdge::Kind kind;
};
struct Graph {
  std::map<int, std::vector<Blk>> fns;
  std::vector<std::pair<std::pair<int, int>, std::pair<int, int>>> ends;  // parallel to edges
  std::vector<std::pair<int, CFGEdge::Kind>> edges;
};
std::unique_ptr<ControlFlowGraph> MakeCfg(int index, const std::vector<Blk>& blks, std::vector<std::string>* store) {
  std::vector<std::unique_ptr<CFGNode>> nodes;
  for (size_t i = 0; i < blks.size(); ++i)
    nodes.push_back(std::make_unique<CFGNode>(0x1000 * (index + 1) + blks[i].off, i, blks[i].id, blks[i].size, pg::Md(blks[i].flags), index));
  llvm::SmallVector<llvm::StringRef, 3> names;
  for (auto& s : *store) names.push_back(s);
  return std::make_unique<ControlFlowGraph>(".text", index, std::nullopt, names, std::move(nodes));
}
void C11Queries(Ctx& c) {
  using K = CFGEdge::Kind;
  int n = 3;
  std::vector<Blk> blks(n);
  for (int i = 0; i < n; ++i) {
    blks[i].off = i * 8;
    blks[i].id = 20 - i;
    blks[i].size = i == 1 ? 0 : 8;
    blks[i].flags = i == 2 ? kPad : kFall;
  }
  std::vector<std::string> n0 = {"a"}, n1 = {"b"};
  absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> map;
  std::vector<Blk> small = {blks[0]};
  auto ga = MakeCfg(3, blks, &n0), gb = MakeCfg(1, small, &n1);
  auto* a = ga.get();
  auto* b = gb.get();
  // edges: every pair of a's blocks (9), a->b calls (3), b->a returns (2)
  struct E {
    int s, t, w, k;  // block 3 is b's
  };
  std::vector<E> es;
  auto node = [&](int i) { return i < n ? a->nodes()[i].get() : b->nodes()[0].get(); };
  std::vector<std::array<int, 3>> pool;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) pool.push_back({i, j, i == 2 && j == 0 ? 2 : i == 1 && j == 0 ? 1 : 0});
  for (int i = 0; i < n; ++i) pool.push_back({i, n, 1});
  pool.push_back({n, 0, 2});
  pool.push_back({n, 1, 2});
  int ne = c.pick(mc::tier(4, 5)), last = -1;
  for (int i = 0; i < ne; ++i) {
    int left = static_cast<int>(pool.size()) - last - 1;
    if (left <= 0) c.prune();
    last += 1 + c.pick(left);
    int w = c.of<int>({5, 1, 20});
    E e{pool[last][0], pool[last][1], w, pool[last][2]};
    K k = e.k == 0 ? K::kBranchOrFallthough : e.k == 1 ? K::kCall : K::kRet;
    auto* owner = e.s < n ? a : b;
    if (i == 0 && w == 5) {  // in two steps
      owner->CreateOrUpdateEdge(node(e.s), node(e.t), 2, k, false);
      auto* again = owner->CreateOrUpdateEdge(node(e.s), node(e.t), 3, k, false);
      c.check(again == node(e.s)->GetEdgeTo(*node(e.t), k), "update", "updating made another edge");
    } else {
      owner->CreateEdge(node(e.s), node(e.t), w, k, false);
    }
    es.push_back(e);
    for (int kk = 0; kk < 3; ++kk) {
      K q = kk == 0 ? K::kBranchOrFallthough : kk == 1 ? K::kCall : K::kRet;
      c.eq(node(e.s)->HasEdgeTo(*node(e.t), q), kk == e.k, "has-edge");
    }
  }
  auto freq = [&](int i) {
    int call = 0, ret = 0, in = 0, out = 0;
    for (auto& e : es) {
      if (e.s == i) e.k == 1 ? void(call = std::max(call, e.w)) : void(out += e.w);
      if (e.t == i) e.k == 2 ? void(ret = std::max(ret, e.w)) : void(in += e.w);
    }
    return std::max({call, ret, in, out});
  };
  std::string graph;
  for (auto& e : es) graph += std::to_string(e.s) + ">" + std::to_string(e.t) + "#" + std::to_string(e.w) + " ";
  c.say(graph);
  map[3] = std::move(ga);
  map[1] = std::move(gb);
  ProgramCfg prog(std::move(map));
  std::vector<int> fr, nz;
  for (int i = 0; i <= n; ++i) fr.push_back(freq(i));
  for (int f : fr)
    if (f) nz.push_back(f);
  std::sort(nz.begin(), nz.end());
  c.check(a->GetNodeFrequencies() == std::vector<int>(fr.begin(), fr.begin() + n), "frequencies", graph);
  auto ns = a->GetNodeFrequencyStats();
  c.eq(ns.n_hot_blocks, (fr[0] != 0) + (fr[1] != 0) + (fr[2] != 0), "hot-blocks", graph);
  c.eq(ns.n_hot_empty_blocks, fr[1] != 0, "hot-empty", graph);
  c.eq(ns.n_hot_landing_pads, fr[2] != 0, "hot-pads", graph);
  bool is_hot = false, b_hot = false;
  for (auto& e : es) is_hot |= e.s < n || e.t < n, b_hot |= e.s == n || e.t == n;
  c.eq(a->is_hot(), is_hot, "is-hot", graph);
  c.eq(b->is_hot(), b_hot, "is-hot", graph);
  for (int pc = 0; pc <= 100; ++pc) {
    int idx = static_cast<int>(nz.size()) * pc / 100 - 1;
    int want = nz.empty() || idx < 0 ? 0 : nz[idx];
    c.eq(prog.GetNodeFrequencyThreshold(pc), want, "threshold", graph + " at " + std::to_string(pc));
    c.transition();
  }
  for (int nt : {0, 1, 6, 20, 21})
    for (int et : {1, 2, 5, 6, 21}) {
      std::set<int> want;
      for (int i = 1; i < n; ++i) {
        int heavy = 0;
        for (auto& e : es) heavy += e.t == i && e.s != i && e.s < n && e.k == 0 && e.w >= et;
        if (fr[i] >= nt && heavy >= 2) want.insert(i);
      }
      auto got = prog.GetHotJoinNodes(nt, et);
      c.eq(got.contains(1), false, "join-nodes");
      c.eq(got.contains(3), !want.empty(), "join-nodes", graph);
      if (got.contains(3)) c.check(std::set<int>(got[3].begin(), got[3].end()) == want, "join-nodes", graph);
      auto direct = a->GetHotJoinNodes(nt, et);
      c.check(std::vector<int>(want.begin(), want.end()) == direct, "join-nodes", graph);
      if (!want.empty()) c.nontrivial();
    }
  // Program queries
  auto sections = prog.GetCfgsBySectionName();
  c.eq(sections.size(), 1u, "sections");
  c.eq(sections[".text"].size(), 2u, "sections");
  c.check(prog.GetCfgByIndex(2) == nullptr, "by-index", "a function that does not exist");
  auto cfgs = prog.GetCfgs();
  c.check(cfgs.size() == 2 && cfgs[0] == b && cfgs[1] == a, "cfgs", "order");
  c.check(prog.cfgs_by_name().at("a") == a && prog.cfgs_by_name().at("b") == b && prog.cfgs_by_index().at(1) == b, "by-name", "");
  // Clone paths
  int pred = c.pick(n);
  std::vector<std::vector<int>> paths;
  int np = ne > 2 ? c.pick(2) : c.pick(2) + (ne < 2 ? c.pick(2) : 0);
  for (int k = 0; k < np; ++k) {
    std::vector<int> path;
    int len = 1 + c.pick(2);
    for (int i = 0; i < len; ++i) path.push_back(c.pick(n));
    paths.push_back(path);
  }
  std::vector<std::pair<int, int>> want_nodes;
  std::map<int, int> count;
  for (int i = 0; i < n; ++i) want_nodes.push_back({i, 0});
  int pads = 1;
  for (auto& path : paths) {
    a->ClonePath(pred, path);
    std::vector<std::pair<int, int>> ids = {{pred, 0}};
    for (int bb : path) {
      want_nodes.push_back({bb, ++count[bb]});
      ids.push_back({bb, count[bb]});
      pads += bb == 2;
    }
    auto& cp = a->clone_paths().back();
    c.eq(cp.size(), ids.size(), "clone-path");
    for (size_t i = 0; i < ids.size(); ++i) {
      c.eq(cp[i].bb_id, 20 - ids[i].first, "clone-path-id");
      c.check(cp[i].intra_cfg_id.bb_index == ids[i].first && cp[i].intra_cfg_id.clone_number == ids[i].second, "clone-path", "block");
    }
  }
  c.eq(a->clone_paths().size(), paths.size(), "clone-paths");
  auto verify = [&](const ControlFlowGraph& g, const std::string& key) {
    c.eq(g.nodes().size(), want_nodes.size(), key);
    c.eq(g.n_landing_pads(), pads, key + "-pads");
    for (size_t i = 0; i < want_nodes.size(); ++i) {
      auto& nd = *g.nodes()[i];
      auto [bb, cl] = want_nodes[i];
      c.eq(nd.bb_index(), bb, key + "-index");
      c.eq(nd.clone_number(), cl, key + "-clone");
      c.eq(nd.node_index(), static_cast<int>(i), key + "-node-index");
      c.eq(nd.bb_id(), 20 - bb, key + "-id");
      c.eq(nd.size(), static_cast<int>(blks[bb].size), key + "-size");
      c.eq(nd.addr(), uint64_t(0x4000 + blks[bb].off), key + "-address");
      c.check(&g.GetNodeById(nd.intra_cfg_id()) == &nd, key + "-by-id", "another node");
      if (cl) c.check(nd.intra_outs().empty() && nd.intra_ins().empty() && nd.inter_outs().empty() && nd.inter_ins().empty(), key + "-edges", "a clone starts without edges");
    }
    for (int bb = 0; bb < n; ++bb) {
      auto all = g.GetAllClonesForBbIndex(bb);
      c.eq(all.size(), static_cast<size_t>(1 + count[bb]), key + "-all");
      for (size_t k = 0; k < all.size(); ++k) c.check(all[k]->bb_index() == bb && all[k]->clone_number() == static_cast<int>(k), key + "-all", "order");
    }
  };
  verify(*a, "cloned-path");
  auto copy = CloneCfg(*a);
  verify(*copy, "copy");
  c.eq(copy->function_index(), 3, "copy-function");
  c.eq(copy->section_name().str(), std::string(".text"), "copy-section");
  c.eq(copy->GetPrimaryName().str(), std::string("a"), "copy-name");
  size_t intra = 0;
  for (auto& e : es) {
    if (e.s >= n || e.t >= n) continue;
    ++intra;
    K k = e.k == 0 ? K::kBranchOrFallthough : e.k == 1 ? K::kCall : K::kRet;
    auto* x = copy->nodes()[e.s]->GetEdgeTo(*copy->nodes()[e.t], k);
    c.check(x != nullptr, "copy-edge", graph);
    c.eq(x->weight(), e.w, "copy-weight", graph);
  }
  c.eq(copy->intra_edges().size(), intra, "copy-edges", graph);
  c.eq(copy->inter_edges().size(), 0u, "copy-inter");
  // Dot output: one line per node and edge, layout edges in red.
  absl::flat_hash_map<CFGNode::IntraCfgId, int> lay = {{{0, 0}, 0}, {{2, 0}, 1}};
  std::ostringstream os;
  a->WriteDotFormat(os, lay);
  std::string dot = os.str();
  std::string wdot = "digraph {\nlabel=\"a#3\"\nforcelabels=true;\n";
  auto lab = [&](int i, int cl) { return std::to_string(20 - i) + (cl ? "." + std::to_string(cl) : ""); };
  for (auto [bb, cl] : want_nodes) wdot += lab(bb, cl) + " [xlabel=\"0#" + std::to_string(blks[bb].size) + "#" + std::to_string(bb) + "\", color = \"" + (cl ? "red" : "black") + "\" ];\n";
  for (auto& e : es)
    if (e.s < n && e.t < n) wdot += lab(e.s, 0) + " -> " + lab(e.t, 0) + "[ label=\"" + (e.k == 0 ? "B" : e.k == 1 ? "C" : "R") + "#" + std::to_string(e.w) + "\", color =\"" + (e.s == 0 && e.t == 2 ? "red" : "black") + "\"];\n";
  wdot += "}\n";
  c.eq(dot, wdot, "dot");
  // Edge weights only go down to zero.
  if (!es.empty()) {
    int by = c.of<int>({1, 5, 30});
    K k = es[0].k == 0 ? K::kBranchOrFallthough : es[0].k == 1 ? K::kCall : K::kRet;
    auto* e = node(es[0].s)->GetEdgeTo(*node(es[0].t), k);
    int w = es[0].w;
    c.eq(e->DecrementWeight(by), std::min(by, w), "decrement");
    c.eq(e->weight(), w - std::min(by, w), "decrement");
  }
  c.outcome(graph + std::to_string(paths.size()));
}
void C09(Ctx& c, bool large) {
  using K = CFGEdge::Kind;
  static const std::vector<std::vector<std::string>> namesets = {{"f"}, {"f", "g\"x\n"}, {"_ZN1aC2Ev", "_ZN1aC1Ev"}};
  absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> map;
  int nf = large ? 1 : c.pick(mc::tier(3, 3));
  struct F {
    std::vector<std::string> names;
    std::vector<Blk> blks;
    std::vector<std::array<int, 4>> edges;
  };
  std::map<int, F> want;
  std::map<int, std::vector<std::string>> store;
  for (int f = 0; f < nf; ++f) {
    int index = f == 0 ? 0 : f == 1 ? 7 : 100000;
    F& w = want[index];
    w.names = f == 0 && !large ? c.of(namesets) : namesets[f];
    int nb = large ? c.of({130, 300, 40000}) : f == 0 ? 1 + c.pick(mc::tier(2, 3)) : 2;
    for (int i = 0; i < nb; ++i) {
      Blk b;
      b.off = i * 4;
      b.size = f == 0 && i < 2 && !large ? c.of<uint32_t>({0, 4, 0x7fffffff}) : 4;
      b.id = large ? i : (i * 2 + 5) % 7 * (i == 1 ? 1000000 : 1);
      b.flags = large ? i % 16 : f == 0 && i < 2 ? c.pick(i ? 4 : 16) : 3;
      w.blks.push_back(b);
    }
    store[index] = w.names;
    auto g = MakeCfg(index, w.blks, &store[index]);
    int ne = large ? 4 : f == 0 ? c.pick(3) : 1;
    int last = -1;
    for (int e = 0; e < ne; ++e) {
      int left = nb * nb - last - 1;
      if (left <= 0) break;
      last += 1 + (large ? e == 3 ? left - 1 : left / 7 : f == 0 ? c.pick(left) : 0);
      int k = f == 0 && !e ? c.pick(3) : 0, wt = e ? 0x7fffffff : f == 0 && !large && c.flip() ? 0 : 12;
      w.edges.push_back({last / nb, last % nb, wt, k});
      g->CreateEdge(g->nodes()[last / nb].get(), g->nodes()[last % nb].get(), wt, k == 0 ? K::kBranchOrFallthough : k == 1 ? K::kCall : K::kRet, false);
    }
    map[index] = std::move(g);
  }
  std::string file = ScratchFile("cfgpb");
  {
    ProgramCfgProtoBuilder w;
    c.check(w.InitWriter(file), "open", file);
    w.AddCfgs(map);
    c.check(w.WriteAndClose(), "write", file);
  }
  ProgramCfgProtoBuilder r;
  c.check(r.Read(file), "read", file);
  auto& pb = r.program_cfg_pb();
  c.eq(pb.cfg_size(), static_cast<int>(want.size()), "functions");
  std::set<int> seen;
  for (auto& g : pb.cfg()) {
    int index = g.function_index();
    c.check(want.count(index) && seen.insert(index).second, "function-index", std::to_string(index));
    F& w = want[index];
    c.eq(g.section_name(), std::string(".text"), "section");
    c.check(std::vector<std::string>(g.name().begin(), g.name().end()) == w.names, "names", "differ");
    c.eq(g.node_size(), static_cast<int>(w.blks.size()), "nodes");
    for (int i = 0; i < g.node_size(); ++i) {
      auto& n = g.node(i);
      auto& b = w.blks[i];
      c.eq(n.size(), b.size, "size");
      c.eq(n.bb_id(), static_cast<uint32_t>(b.id), "id");
      c.eq(n.metadata().can_fallthrough(), (b.flags & kFall) != 0, "can-fallthrough");
      c.eq(n.metadata().has_return(), (b.flags & kRet) != 0, "has-return");
      c.eq(n.metadata().has_tail_call(), (b.flags & kTail) != 0, "has-tail-call");
      c.eq(n.metadata().is_landing_pad(), (b.flags & kPad) != 0, "landing-pad");
      std::vector<std::array<int, 4>> es, ws;
      for (auto& e : n.out_edges()) {
        c.eq(static_cast<int>(e.sink().function_index()), index, "sink");
        es.push_back({i, static_cast<int>(e.sink().bb_index()), static_cast<int>(e.weight()), static_cast<int>(e.kind())});
      }
      for (auto& e : w.edges)
        if (e[0] == i) ws.push_back(e);
      c.check(es == ws, "edges", "block " + std::to_string(i));
    }
  }
  unlink(file.c_str());
  if (nf) c.nontrivial();
  c.transition();
  c.outcome(pb.SerializeAsString());
}
}  // namespace
// Every part of a key counts when two are compared, hashed or printed.
void C02Values(Ctx& c) {
  struct P { std::optional<BbHandle> a, b; std::vector<CallRetInfo> calls; std::optional<BbHandle> ret; int pid; };
  auto bb = [&]() -> std::optional<BbHandle> {
    int k = c.pick(5);
    if (!k) return std::nullopt;
    return BbHandle{.function_index = (k - 1) & 1, .bb_index = (k - 1) >> 1};
  };
  auto str = [](std::optional<BbHandle> h) { return h ? std::to_string(h->function_index) + "#" + std::to_string(h->bb_index) : std::string("unknown"); };
  int what = c.pick(4);
  c.say("values " + std::to_string(what));
  if (what == 0) {  // addresses
    uint64_t v[4];
    for (auto& x : v) x = c.of<uint64_t>({0, 1, 0x100000000ull});
    bool same = v[0] == v[2] && v[1] == v[3];
    BinaryAddressBranch x{.from = v[0], .to = v[1]}, y{.from = v[2], .to = v[3]};
    BinaryAddressFallthrough f{.from = v[0], .to = v[1]}, g{.from = v[2], .to = v[3]};
    BinaryAddressNotTakenBranch n{.address = v[0]}, m{.address = v[2]};
    c.eq(x == y, same, "equal-branches");
    c.eq(f == g, same, "equal-fallthroughs");
    c.eq(n == m, v[0] == v[2], "equal-not-taken");
    c.eq(absl::flat_hash_set<BinaryAddressBranch>({x, y}).size(), same ? size_t{1} : size_t{2}, "set-of-branches");
    c.eq(absl::flat_hash_set<BinaryAddressFallthrough>({f, g}).size(), same ? size_t{1} : size_t{2}, "set-of-fallthroughs");
    c.eq(absl::flat_hash_set<BinaryAddressNotTakenBranch>({n, m}).size(), v[0] == v[2] ? size_t{1} : size_t{2}, "set-of-not-taken");
  } else if (what == 1) {  // handles and calls
    auto a = bb(), b = bb();
    std::optional<int> ca = c.flip() ? std::optional<int>(c.pick(2)) : std::nullopt, cb = c.flip() ? std::optional<int>(c.pick(2)) : std::nullopt;
    if (a && b) {
      c.eq(*a == *b, a->function_index == b->function_index && a->bb_index == b->bb_index, "equal-handles");
      c.eq(*a != *b, !(*a == *b), "unequal-handles");
      c.eq(absl::StrFormat("%v", *a), str(a), "handle-text");
      c.eq(absl::flat_hash_set<BbHandle>({*a, *b}).size(), *a == *b ? size_t{1} : size_t{2}, "set-of-handles");
    }
    CallRetInfo x{.callee = ca, .return_bb = a}, y{.callee = cb, .return_bb = b};
    bool same = str(a) == str(b) && ca == cb;
    c.eq(x == y, same, "equal-calls");
    c.eq(x != y, !same, "unequal-calls");
  } else {  // branches and paths
    auto make = [&] {
      P p;
      p.a = bb(), p.b = c.flip() ? bb() : std::nullopt;
      int n = c.pick(3);
      for (int i = 0; i < n; ++i) p.calls.push_back({.callee = i + c.pick(2), .return_bb = std::nullopt});
      p.ret = what == 3 && c.flip() ? std::optional<BbHandle>(BbHandle{.function_index = 1, .bb_index = c.pick(2)}) : std::nullopt;
      p.pid = what == 3 ? c.pick(2) : 0;
      return p;
    };
    P p = make(), q = make();
    auto text = [&](const P& p) {
      std::string s = str(p.a) + " -> " + str(p.b);
      if (p.calls.empty()) return s;
      s += "(CALLSITES: ";
      for (size_t i = 0; i < p.calls.size(); ++i) s += (i ? ",call:" : "call:") + std::to_string(*p.calls[i].callee) + "#ret:unknown";
      return s + ")";
    };
    BbHandleBranch x{.from_bb = p.a, .to_bb = p.b, .call_rets = p.calls}, y{.from_bb = q.a, .to_bb = q.b, .call_rets = q.calls};
    bool same = text(p) == text(q);
    c.eq(x == y, same, "equal-block-branches");
    c.eq(x != y, !same, "unequal-block-branches");
    c.eq(x.is_callsite(), !p.calls.empty(), "is-callsite");
    if (what == 3) {
      BbHandleBranchPath s{.pid = p.pid, .sample_time = absl::UnixEpoch(), .branches = {x, y}, .returns_to = p.ret},
          t{.pid = q.pid, .sample_time = absl::UnixEpoch(), .branches = {y, y}, .returns_to = q.ret};
      bool eq = same && p.pid == q.pid && str(p.ret) == str(q.ret);
      c.eq(s == t, eq, "equal-paths");
      c.eq(s != t, !eq, "unequal-paths");
    }
  }
  c.transition();
  c.nontrivial();
}
int main(int argc, char** argv) {
  FLAGS_minloglevel = 3;
  return mc::Main(argc, argv, {
      {"C01/inferred", [](Ctx& c) { C01Frequencies(c, false); }, 6},
      {"C01/known-instruction-size", [](Ctx& c) { C01Frequencies(c, true); }, 6},
      {"C01/lazy", C01Lazy, 4},
      {"C02/lookup", C02Lookup, 6},
      {"C02/fallthrough", C02Fall, 5},
      {"C02/large", C02Large, 2},
      {"C02/selection", [](Ctx& c) { C02Select(c); }, 4},
      {"C02/same-names", [](Ctx& c) { C02Select(c, true); }, 4},
      {"C02/values", C02Values, 3},
      {"C03/branches", C03Branches, 6},
      {"C03/large", C03Large, 2},
      {"C03/refusal", C03Refusal, 2},
      {"C03/overflow", C03Overflow, 2},
      {"C03/fallthroughs", C03Falls, 6},
      {"C11/large", C11Large, 2},
      {"C11/queries", C11Queries, 4},
      {"C09/round-trip", [](Ctx& c) { C09(c, false); }, 4},
      {"C09/large", [](Ctx& c) { C09(c, true); }, 2},
  });
}
