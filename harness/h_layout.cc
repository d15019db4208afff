// C04-C06, C12: code layout.
#include <sys/stat.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include "mc.h"
#include "isolate.h"
#include "propgen.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_chain_cluster_builder.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_code_layout_scorer.h"
#include "llvm_propeller_node_chain.h"
#include "llvm_propeller_node_chain_assembly.h"
#include "llvm_propeller_node_chain_builder.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_statistics.h"
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
using pg::kPad;
namespace {
using K = CFGEdge::Kind;
using Params = PropellerCodeLayoutParameters;
enum { kB = 0, kC = 1, kR = 2 };
struct N {
  int f, bb, clone, size, id;
  bool pad;
  uint64_t addr = 0;
  CFGNode* p = nullptr;
};
struct E {
  int s, t, w, k;
  bool sec = false;  // to another section
};
struct F {
  int index;
  std::vector<std::string> names;
  std::string section = ".text";
  std::optional<std::string> module;
  std::vector<int> nodes;  // original blocks, then clones
  std::vector<std::vector<int>> clones;  // paths: predecessor, blocks
};
struct World {
  std::vector<N> n;
  std::vector<E> e;
  std::vector<F> f;
  std::unique_ptr<ProgramCfg> prog;
  std::vector<const ControlFlowGraph*> cfgs;
  std::vector<CFGEdge*> edges;
  int AddFn(int index, const std::vector<int>& sizes, const std::vector<int>& pads = {}) {
    F fn;
    fn.index = index;
    fn.names = {"f" + std::to_string(index)};
    uint64_t at = 0x1000;
    if (!n.empty()) at = n.back().addr + n.back().size + 16;
    int fi = f.size();
    for (size_t i = 0; i < sizes.size(); ++i) {
      N x{fi, static_cast<int>(i), 0, sizes[i], 40 - 3 * static_cast<int>(i), std::count(pads.begin(), pads.end(), static_cast<int>(i)) > 0, at};
      if (i == 0) x.id = 0;
      fn.nodes.push_back(n.size());
      n.push_back(x);
      at += sizes[i];
    }
    f.push_back(fn);
    return fi;
  }
  int Clone(int fi, int pred, const std::vector<int>& path) {  // returns the first new node
    int first = n.size();
    std::vector<int> cp = {pred};
    for (int bb : path) {
      N x = n[f[fi].nodes[bb]];
      int c = 0;
      for (int k : f[fi].nodes) c = n[k].bb == bb ? std::max(c, n[k].clone) : c;
      x.clone = c + 1;
      f[fi].nodes.push_back(n.size());
      n.push_back(x);
      cp.push_back(bb);
    }
    f[fi].clones.push_back(cp);
    return first;
  }
  void Build() {
    absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> map;
    for (auto& fn : f) {
      std::vector<std::unique_ptr<CFGNode>> nodes;
      for (int i : fn.nodes)
        if (!n[i].clone) nodes.push_back(std::make_unique<CFGNode>(n[i].addr, n[i].bb, n[i].id, n[i].size, pg::Md(n[i].pad ? kPad : 0), fn.index));
      llvm::SmallVector<llvm::StringRef, 3> names;
      for (auto& s : fn.names) names.push_back(s);
      std::optional<llvm::StringRef> module;
      if (fn.module) module = *fn.module;
      auto g = std::make_unique<ControlFlowGraph>(fn.section, fn.index, module, names, std::move(nodes));
      for (auto& cp : fn.clones) g->ClonePath(cp[0], std::vector<int>(cp.begin() + 1, cp.end()));
      for (int i : fn.nodes) n[i].p = &g->GetNodeById({n[i].bb, n[i].clone});
      map[fn.index] = std::move(g);
    }
    for (auto& x : e) edges.push_back(map[f[n[x.s].f].index]->CreateEdge(n[x.s].p, n[x.t].p, x.w, x.k == kB ? K::kBranchOrFallthough : x.k == kC ? K::kCall : K::kRet, x.sec));
    prog = std::make_unique<ProgramCfg>(std::move(map));
    for (auto& fn : f) cfgs.push_back(prog->GetCfgByIndex(fn.index));
  }
  int Freq(int i) const {
    int call = 0, ret = 0, in = 0, out = 0;
    for (auto& x : e) {
      if (x.s == i) x.k == kC ? void(call = std::max(call, x.w)) : void(out += x.w);
      if (x.t == i) x.k == kR ? void(ret = std::max(ret, x.w)) : void(in += x.w);
    }
    return std::max({call, ret, in, out});
  }
  bool Hot(int fi) const {
    for (auto& x : e)
      if (n[x.s].f == fi || n[x.t].f == fi) return true;
    return false;
  }
  std::string Str() const {
    std::string s;
    for (auto& fn : f) {
      s += "f" + std::to_string(fn.index) + "(";
      for (int i : fn.nodes) s += (n[i].clone ? "clone " : "") + std::to_string(i) + ":" + std::to_string(n[i].size) + (n[i].pad ? "p" : "") + " ";
      s += ") ";
    }
    for (auto& x : e) s += std::to_string(x.s) + (x.k == kB ? ">" : x.k == kC ? "C>" : "R>") + std::to_string(x.t) + "*" + std::to_string(x.w) + (x.sec ? "! " : " ");
    return s;
  }
};
std::string Str(const Params& p) {
  return std::string(p.inter_function_reordering() ? "inter " : "") + (p.split_functions() ? "" : "nosplit ") + (p.reorder_hot_blocks() ? "" : "keep ") + (p.chain_split() ? "cs" + std::to_string(p.chain_split_threshold()) : "") + (p.call_chain_clustering() ? "" : " nocluster");
}
// ---------------------------------------------------------------- reference
double Score(const World& w, const Params& p, const E& e, int64_t d) {
  if (e.k == kC) d += w.n[e.s].size / 2;
  if (e.k == kR) d += w.n[e.t].size / 2;
  double x = e.w;
  if (d == 0) return e.k == kB ? x * p.fallthrough_weight() : 0;
  double lim = d > 0 ? p.forward_jump_distance() : p.backward_jump_distance();
  double a = std::abs(static_cast<double>(d));
  if (a >= lim) return 0;
  return x * (d > 0 ? p.forward_jump_weight() : p.backward_jump_weight()) * (1 - a / lim);
}
using Id = std::tuple<int, int, int>;
struct MChain {
  Id id;
  std::optional<int> fn;
  std::vector<std::vector<int>> b;  // bundles
  int size = 0, freq = 0;
  std::vector<int> Nodes() const {
    std::vector<int> r;
    for (auto& x : b) r.insert(r.end(), x.begin(), x.end());
    return r;
  }
};
struct MStats {
  std::map<int, int> orders;
  int single = 0, multi = 0;
};
struct Cand {
  double gain;
  int s, u, order, slice;  // slice -1: none
};
struct Builder {
  const World& w;
  const Params& p;
  std::vector<int> fns;  // positions in w.f
  const std::map<int, std::vector<std::vector<int>>>& initial;
  MStats& st;
  std::map<Id, MChain> chains;
  std::map<int, int> freq = {};
  std::vector<int> edges = {};  // visited edges of this program
  bool Visit(const E& e) const { return e.w != 0 && e.k != kR && ((p.inter_function_reordering() && fns.size() > 1 && !e.sec) || e.k != kC); }
  void Add(const std::vector<int>& nodes, bool together) {
    if (nodes.empty()) return;
    nodes.size() == 1 ? ++st.single : ++st.multi;
    MChain c;
    auto& a = w.n[nodes[0]];
    c.id = {w.f[a.f].index, a.bb, a.clone};
    c.fn = a.f;
    for (int i : nodes) {
      if (c.b.empty() || !together) c.b.emplace_back();
      c.b.back().push_back(i);
      c.size += w.n[i].size;
      c.freq += w.Freq(i);
    }
    chains[c.id] = c;
  }
  std::vector<std::vector<int>> Paths(int fi) const {
    std::map<int, std::vector<int>> out, in;
    for (auto& e : w.e)
      if (e.w && e.k == kB && w.n[e.s].f == fi && w.n[e.t].f == fi) out[e.s].push_back(e.t), in[e.t].push_back(e.s);
    std::map<int, int> next;
    for (auto& [s, v] : out)
      if (v.size() == 1 && in[v[0]].size() == 1) next[s] = v[0];
    // Cycles lose their edge to the block that comes first in the function.
    for (int i : w.f[fi].nodes) {
      std::vector<int> cyc;
      int at = i;
      do {
        cyc.push_back(at);
        auto it = next.find(at);
        at = it == next.end() ? -1 : it->second;
      } while (at >= 0 && at != i && cyc.size() <= w.n.size());
      if (at != i) continue;
      int cut = cyc[0];
      for (int s : cyc)
        if (w.n[next[s]].bb < w.n[next[cut]].bb) cut = s;
      next.erase(cut);
    }
    std::vector<std::vector<int>> r;
    for (int i : w.f[fi].nodes) {
      bool begins = next.count(i);
      for (auto& [s, t] : next) begins &= t != i;
      if (!begins) continue;
      std::vector<int> path = {i};
      while (next.count(path.back())) path.push_back(next[path.back()]);
      r.push_back(path);
    }
    return r;
  }
  void Init() {
    for (int fi : fns) {
      auto& fn = w.f[fi];
      if (!w.Hot(fi)) continue;
      static const std::vector<std::vector<int>> none;
      auto it = initial.find(fi);
      auto& init = it == initial.end() ? none : it->second;
      int pads = 0;
      bool hotpad = false;
      for (int i : fn.nodes)
        if (w.n[i].pad) ++pads, hotpad |= w.Freq(i) != 0;
      if (p.inter_function_reordering() && fns.size() > 1 && pads > 1 && hotpad) {
        Builder sub{w, p, {fi}, initial, st};
        for (auto& c : sub.Run()) Add(c.Nodes(), true);
        continue;
      }
      std::vector<int> hot, cold;
      for (int i : fn.nodes) {
        bool h = w.Freq(i) != 0 || (w.n[i].bb == 0 && w.n[i].clone == 0 && !p.inter_function_reordering()) || (w.n[i].pad && hotpad);
        if (w.n[i].bb == 0 && w.n[i].clone && !p.inter_function_reordering()) h = true;
        (h ? hot : cold).push_back(i);
      }
      if (!p.split_functions()) Add(cold, true);
      if (!p.reorder_hot_blocks()) {
        Add(hot, true);
        continue;
      }
      std::set<int> done;
      for (auto& c : init.empty() ? Paths(fi) : init) {
        Add(c, init.empty());
        done.insert(c.begin(), c.end());
      }
      for (int i : hot)
        if (!done.count(i)) Add({i}, false);
    }
    std::set<int> in;
    for (auto& [id, c] : chains)
      for (int i : c.Nodes()) in.insert(i);
    for (size_t k = 0; k < w.e.size(); ++k)
      if (Visit(w.e[k]) && in.count(w.e[k].s) && in.count(w.e[k].t)) edges.push_back(k);
  }
  std::map<int, int> Offsets(const std::vector<int>& nodes) const {
    std::map<int, int> m;
    int at = 0;
    for (int i : nodes) m[i] = at, at += w.n[i].size;
    return m;
  }
  std::vector<std::vector<int>> Order(const MChain& s, const MChain& u, int order, int slice) const {
    std::vector<std::vector<int>> s1(s.b.begin(), s.b.begin() + std::max(0, slice)), s2(s.b.begin() + std::max(0, slice), s.b.end()), r;
    auto cat = [&](std::initializer_list<const std::vector<std::vector<int>>*> l) {
      for (auto* x : l) r.insert(r.end(), x->begin(), x->end());
    };
    switch (order) {
      case 0: cat({&s.b, &u.b}); break;
      case 1: cat({&s2, &s1, &u.b}); break;
      case 2: cat({&s1, &u.b, &s2}); break;
      case 3: cat({&u.b, &s2, &s1}); break;
      case 4: cat({&s2, &u.b, &s1}); break;
    }
    return r;
  }
  // Nothing if the assembly is not allowed.
  double Gain(const MChain& s, const MChain& u, int order, int slice, bool* mid) const {
    auto merged = Order(s, u, order, slice);
    std::vector<int> all;
    for (auto& b : merged) all.insert(all.end(), b.begin(), b.end());
    auto entry = [&](int i) { return w.n[i].bb == 0; };
    *mid = !p.inter_function_reordering() && (entry(s.b[0][0]) || entry(u.b[0][0])) && !entry(all[0]);
    auto pos = Offsets(all), ps = Offsets(s.Nodes()), pu = Offsets(u.Nodes());
    std::map<int, int> bundle;
    for (size_t i = 0; i < merged.size(); ++i)
      for (int x : merged[i]) bundle[x] = i;
    double inter = 0, intra = 0;
    for (int k : edges) {
      auto& e = w.e[k];
      if (!pos.count(e.s) || !pos.count(e.t) || bundle[e.s] == bundle[e.t]) continue;
      double now = Score(w, p, e, int64_t{pos[e.t]} - pos[e.s] - w.n[e.s].size);
      if (ps.count(e.s) != ps.count(e.t)) {
        inter += now;
      } else {
        auto& o = ps.count(e.s) ? ps : pu;
        intra += now - Score(w, p, e, int64_t{o[e.t]} - o[e.s] - w.n[e.s].size);
      }
    }
    return inter == 0 ? 0 : inter + intra;
  }
  void Merge(MChain& s, MChain& u, int order, int slice) {
    ++st.orders[order];
    auto b = Order(s, u, order, slice);
    bool re = (!s.fn || s.fn != u.fn) && p.chain_split() && s.b.size() + u.b.size() > p.chain_split_threshold();
    s.b.clear();
    for (auto& x : b) {
      if (re && !s.b.empty() && w.n[s.b.back()[0]].f == w.n[x[0]].f) s.b.back().insert(s.b.back().end(), x.begin(), x.end());
      else s.b.push_back(x);
    }
    s.size += u.size;
    s.freq += u.freq;
    if (s.fn != u.fn) s.fn.reset();
    chains.erase(u.id);
  }
  std::vector<MChain> Run() {
    Init();
    for (;;) {
      bool found = false;
      std::tuple<double, Id, Id, int, int> best;
      for (auto& [si, s] : chains)
        for (auto& [ui, u] : chains) {
          if (si == ui) continue;
          std::vector<std::pair<int, int>> tries = {{0, -1}};
          int nb = s.b.size();
          if (p.chain_split()) {
            if (nb <= static_cast<int>(p.chain_split_threshold())) {
              for (int o = 1; o <= 4; ++o)
                for (int k = 1; k < nb; ++k) tries.push_back({o, k});
            } else {
              for (int k : edges)
                for (int x = 0; x < nb; ++x) {
                  if (w.e[k].s == u.b.back().back() && w.e[k].t == s.b[x].front() && x) tries.push_back({2, x}), tries.push_back({3, x});
                  if (w.e[k].t == u.b[0][0] && w.e[k].s == s.b[x].back() && x + 1 < nb) tries.push_back({2, x + 1}), tries.push_back({1, x + 1});
                }
            }
          }
          for (auto [o, k] : tries) {
            bool mid;
            double g = Gain(s, u, o, k, &mid);
            if (mid || g <= 0) continue;
            // Best gain; then the smallest chains, the latest order and slice.
            auto neg = [](Id i) { return Id{-std::get<0>(i), -std::get<1>(i), -std::get<2>(i)}; };
            std::tuple<double, Id, Id, int, int> c{g, neg(si), neg(ui), o, k};
            if (!found || best < c) best = c;
            found = true;
          }
        }
      if (!found) break;
      auto neg = [](Id i) { return Id{-std::get<0>(i), -std::get<1>(i), -std::get<2>(i)}; };
      Merge(chains[neg(std::get<1>(best))], chains[neg(std::get<2>(best))], std::get<3>(best), std::get<4>(best));
    }
    if (fns.size() == 1 && !chains.empty()) {
      std::vector<Id> order;
      for (auto& [id, c] : chains) order.push_back(id);
      auto entry = [&](Id i) { return w.n[chains[i].b[0][0]].bb == 0; };
      std::stable_sort(order.begin(), order.end(), [&](Id a, Id b) {
        auto key = [&](Id i) { return std::make_tuple(!entry(i), entry(i) ? 0.0 : -static_cast<double>(chains[i].freq) / std::max(chains[i].size, 1), i); };
        return key(a) < key(b);
      });
      for (size_t i = 1; i < order.size(); ++i) Merge(chains[order[0]], chains[order[i]], 0, -1);
    }
    std::vector<MChain> r;
    for (auto& [id, c] : chains) r.push_back(c);
    return r;
  }
};
struct MLayout {
  std::vector<int> order;  // all blocks
  MStats st;
  std::vector<MChain> chains;
};
MLayout Reference(const World& w, const Params& p, const std::vector<int>& fns, const std::map<int, std::vector<std::vector<int>>>& initial = {}) {
  MLayout l;
  if (p.inter_function_reordering()) {
    Builder b{w, p, fns, initial, l.st};
    l.chains = b.Run();
  } else {
    for (int f : fns) {
      Builder b{w, p, {f}, initial, l.st};
      for (auto& c : b.Run()) l.chains.push_back(c);
    }
  }
  // Call chain clustering
  struct Cl {
    Id id;
    std::vector<int> chains;
    int64_t size, freq;
  };
  std::map<int, Cl> cl;
  std::map<int, int> of, chain;  // chain -> cluster, node -> chain
  for (size_t i = 0; i < l.chains.size(); ++i) {
    cl[i] = {l.chains[i].id, {static_cast<int>(i)}, l.chains[i].size, l.chains[i].freq};
    of[i] = i;
    for (int x : l.chains[i].Nodes()) chain[x] = i;
  }
  auto den = [](int64_t f, int64_t s) { return static_cast<double>(f) / std::max<int64_t>(s, 1); };
  if (p.call_chain_clustering()) {
    std::map<int, int64_t> to;
    for (auto& e : w.e)
      if (e.w && e.k != kR && !e.sec && chain.count(e.t) && chain[e.s] != chain[e.t]) to[chain[e.t]] += e.w;
    std::vector<std::tuple<int64_t, Id, int>> q;
    for (auto& [c, x] : to) q.push_back({-x, l.chains[c].id, c});
    std::sort(q.begin(), q.end());
    int64_t lim = p.cluster_merge_size_threshold();
    for (auto& [x, id, c] : q) {
      auto& ch = l.chains[c];
      if (den(ch.freq, ch.size) < 0.005) continue;
      Cl& me = cl[of[c]];
      if (me.size > lim) continue;
      std::map<int, int64_t> from;
      auto nodes = ch.Nodes();
      if (!p.inter_function_reordering()) nodes.resize(1);
      for (auto& e : w.e) {
        if (e.k == kR || e.sec || !e.w || !std::count(nodes.begin(), nodes.end(), e.t)) continue;
        if (int64_t{e.w} * 10 < w.Freq(e.t)) continue;
        int s = chain[e.s];
        if (s == c || of[s] == of[c]) continue;
        Cl& o = cl[of[s]];
        if (o.size > lim) continue;
        if (8 * o.size * (me.freq + o.freq) < o.freq * (me.size + o.size)) continue;
        from[of[s]] += e.w;
      }
      if (from.empty()) continue;
      int best = from.begin()->first;
      for (auto& [o, x2] : from)
        if (std::make_tuple(from[best], cl[best].id) < std::make_tuple(x2, cl[o].id)) best = o;
      int gone = of[c];
      for (int k : cl[gone].chains) of[k] = best, cl[best].chains.push_back(k);
      cl[best].size += cl[gone].size;
      cl[best].freq += cl[gone].freq;
      cl.erase(gone);
    }
  }
  std::vector<std::tuple<double, Id, int>> fin;
  for (auto& [k, c] : cl) fin.push_back({p.call_chain_clustering() ? -den(c.freq, c.size) : 0, c.id, k});
  std::sort(fin.begin(), fin.end());
  for (auto& [d, id, k] : fin)
    for (int c : cl[k].chains)
      for (int x : l.chains[c].Nodes()) l.order.push_back(x);
  return l;
}
// ---------------------------------------------------------------- checks
struct Flat {
  std::vector<int> order;                  // blocks by layout index
  std::vector<std::pair<int, int>> parts;  // function position, number of blocks
};
Flat Flatten(Ctx& c, const World& w, const std::vector<FunctionClusterInfo>& infos, const std::vector<int>& fns, const std::string& note) {
  std::map<unsigned, std::pair<int, std::vector<int>>> by;
  int last = -1;
  for (auto& i : infos) {
    c.check(i.function_index > last, "function-order", note);
    last = i.function_index;
    int fi = -1;
    for (int k : fns)
      if (w.f[k].index == i.function_index) fi = k;
    c.check(fi >= 0, "function", note + " unknown function");
    c.check(!i.clusters.empty(), "no-clusters", note);
    int lastid = -1;
    for (auto& cl : i.clusters) {
      std::vector<int> nodes;
      c.check(!cl.full_bb_ids.empty(), "empty-cluster", note);
      c.check(cl.full_bb_ids[0].bb_id >= lastid, "cluster-order", note);
      lastid = cl.full_bb_ids[0].bb_id;
      for (auto& b : cl.full_bb_ids) {
        int at = -1;
        for (int k : w.f[fi].nodes)
          if (w.n[k].bb == b.intra_cfg_id.bb_index && w.n[k].clone == b.intra_cfg_id.clone_number) at = k;
        c.check(at >= 0, "block", note + " unknown block");
        c.eq(b.bb_id, w.n[at].id, "block-id", note);
        nodes.push_back(at);
      }
      c.check(by.emplace(cl.layout_index, std::make_pair(fi, nodes)).second, "layout-index", note + " used twice");
    }
  }
  Flat r;
  unsigned want = 0;
  for (auto& [k, v] : by) {
    c.eq(k, want++, "layout-index", note);
    r.order.insert(r.order.end(), v.second.begin(), v.second.end());
    r.parts.push_back({v.first, static_cast<int>(v.second.size())});
  }
  return r;
}
std::string Nodes(const std::vector<int>& v) {
  std::string s;
  for (int i : v) s += std::to_string(i) + " ";
  return s;
}
// Checks of any layout against the graph.
void Invariants(Ctx& c, const World& w, const Params& p, const std::vector<int>& fns, const std::vector<FunctionClusterInfo>& infos, const PropellerStats::CodeLayoutStats& st, const std::string& note, const std::map<int, std::vector<std::vector<int>>>& initial = {}) {
  std::set<int> asked;  // cold blocks in initial chains
  for (auto& [f, v] : initial)
    for (auto& ch : v) asked.insert(ch.begin(), ch.end());
  Flat fl = Flatten(c, w, infos, fns, note);
  std::set<int> got(fl.order.begin(), fl.order.end());
  c.eq(got.size(), fl.order.size(), "placed-twice", note + " -> " + Nodes(fl.order));
  bool inter = p.inter_function_reordering();
  // Where clusters begin: at each change of function and each entry.
  for (size_t i = 0, at = 0; i < fl.parts.size(); ++i) {
    auto [fi, len] = fl.parts[i];
    c.check(i == 0 || fl.parts[i - 1].first != fi || w.n[fl.order[at]].bb == 0, "adjacent-clusters", note);
    for (int k = 1; k < len; ++k) c.check(w.n[fl.order[at + k]].bb != 0, "entry-inside", note + " -> " + Nodes(fl.order));
    at += len;
  }
  size_t nfn = 0;
  for (int fi : fns) {
    bool hot = w.Hot(fi), hotpad = false, any = false;
    for (int i : w.f[fi].nodes) hotpad |= w.n[i].pad && w.Freq(i) != 0;
    for (int i : w.f[fi].nodes) {
      bool need = hot && (w.Freq(i) != 0 || (w.n[i].bb == 0 && !inter) || (w.n[i].pad && hotpad) || !p.split_functions() || asked.count(i));
      c.eq(got.count(i), size_t{need}, need ? "block-lost" : "cold-block-placed", note + " block " + std::to_string(i) + " -> " + Nodes(fl.order));
      any |= need;
    }
    nfn += any;
    size_t parts = 0;
    for (auto& [k, len] : fl.parts) parts += k == fi;
    if (!inter && any) {
      size_t entries = 0;
      for (int i : w.f[fi].nodes) entries += w.n[i].bb == 0;
      c.eq(parts, entries, "one-cluster-per-function", note);
    }
    if (!inter && any) {
      // The function's blocks begin with its entry.
      for (int x : fl.order)
        if (w.n[x].f == fi) {
          c.check(w.n[x].bb == 0, "entry-first", note + " -> " + Nodes(fl.order));
          break;
        }
    }
    if (!p.reorder_hot_blocks() && any) {
      // Hot blocks keep their order.
      int lastnode = -1;
      for (int x : fl.order)
        if (w.n[x].f == fi && (w.Freq(x) != 0 || (w.n[x].pad && hotpad))) {
          c.check(x > lastnode, "kept-order", note + " -> " + Nodes(fl.order));
          lastnode = x;
        }
    }
  }
  c.eq(infos.size(), nfn, "functions", note);
  // Cold parts in order of first appearance.
  std::vector<int> first;
  for (auto& [fi, len] : fl.parts)
    if (!std::count(first.begin(), first.end(), fi)) first.push_back(fi);
  std::map<int, int64_t> at;
  int64_t addr = 0;
  for (int x : fl.order) at[x] = addr, addr += w.n[x].size;
  double sums[4] = {0, 0, 0, 0};
  for (auto& i : infos) {
    for (size_t k = 0; k < first.size(); ++k)
      if (w.f[first[k]].index == i.function_index) c.eq(i.cold_cluster_layout_index, static_cast<unsigned>(k), "cold-index", note);
    double s[4] = {0, 0, 0, 0};
    for (auto& e : w.e) {
      if (w.f[w.n[e.s].f].index != i.function_index || !e.w || e.k == kR) continue;
      bool in = w.n[e.s].f == w.n[e.t].f;
      if (!in && (e.sec || fns.size() < 2)) continue;
      s[in ? 0 : 2] += Score(w, p, e, static_cast<int64_t>(w.n[e.t].addr - w.n[e.s].addr) - w.n[e.s].size);
      s[in ? 1 : 3] += Score(w, p, e, at.at(e.t) - at.at(e.s) - w.n[e.s].size);
    }
    auto near = [&](double a, double b, const char* key) {
      c.check(std::abs(a - b) <= 1e-9 * (1 + std::abs(b)), key, note + " got " + std::to_string(a) + " want " + std::to_string(b));
    };
    near(i.original_score.intra_score, s[0], "original-intra-score");
    near(i.optimized_score.intra_score, s[1], "optimized-intra-score");
    near(i.original_score.inter_out_score, s[2], "original-inter-score");
    near(i.optimized_score.inter_out_score, s[3], "optimized-inter-score");
    for (int k = 0; k < 4; ++k) sums[k] += s[k];
  }
  double have[4] = {st.original_intra_score, st.optimized_intra_score, st.original_inter_score, st.optimized_inter_score};
  for (int k = 0; k < 4; ++k) c.check(std::abs(have[k] - sums[k]) <= 1e-9 * (1 + std::abs(sums[k])), "score-sums", note);
}
void Against(Ctx& c, const World& w, const Params& p, const std::vector<int>& fns, const std::vector<FunctionClusterInfo>& infos, const PropellerStats::CodeLayoutStats& st, const std::string& note, const std::map<int, std::vector<std::vector<int>>>& initial = {}) {
  MLayout want = Reference(w, p, fns, initial);
  Flat got = Flatten(c, w, infos, fns, note);
  c.eq(Nodes(got.order), Nodes(want.order), "layout", note);
  c.eq(st.n_single_node_chains, want.st.single, "single-chains", note);
  c.eq(st.n_multi_node_chains, want.st.multi, "multi-chains", note);
  for (int o = 0; o < 5; ++o) {
    auto it = st.n_assemblies_by_merge_order.find(static_cast<ChainMergeOrder>(o));
    c.eq(it == st.n_assemblies_by_merge_order.end() ? 0 : it->second, want.st.orders.count(o) ? want.st.orders[o] : 0, "merge-orders", note + " order " + std::to_string(o));
  }
}
Params Base(bool exact) {
  Params p;
  if (exact) p.set_forward_jump_distance(1024), p.set_backward_jump_distance(512);
  return p;
}
void RunLayout(Ctx& c, World& w, const Params& p, bool ref, const std::map<int, std::vector<std::vector<int>>>& initial = {}) {
  w.Build();
  std::string note = Str(p) + " " + w.Str();
  c.say(note);
  absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> init;
  for (auto& [f, v] : initial)
    for (auto& ch : v) {
      auto& x = init[w.f[f].index].emplace_back();
      for (int i : ch) x.push_back({w.n[i].bb, w.n[i].clone});
    }
  std::vector<int> fns;
  for (size_t i = 0; i < w.f.size(); ++i) fns.push_back(i);
  CodeLayout layout(p, w.cfgs, init);
  auto infos = layout.OrderAll();
  c.transition(w.e.size());
  if (ref) Against(c, w, p, fns, infos, layout.stats(), note, initial);
  else Invariants(c, w, p, fns, infos, layout.stats(), note, initial);
  if (infos.size()) c.nontrivial();
  std::string o;
  for (auto& i : infos)
    for (auto& cl : i.clusters) {
      o += std::to_string(cl.layout_index) + ":";
      for (auto& b : cl.full_bb_ids) o += std::to_string(b.bb_id) + ",";
    }
  c.outcome(o);
}
// Edges out of a pool, each at most once, in increasing order.
void PickEdges(Ctx& c, World& w, const std::vector<E>& pool, int most, const std::vector<int>& weights) {
  int last = -1;
  for (int k = 0; k < most; ++k) {
    int left = static_cast<int>(pool.size()) - last - 1;
    int x = c.pick(left + 1);
    if (x == left) return;
    last += 1 + x;
    E e = pool[last];
    e.w = c.of(weights);
    w.e.push_back(e);
  }
}
std::vector<E> IntraPool(const World& w, int fi, bool calls) {
  std::vector<E> v;
  auto& nodes = w.f[fi].nodes;
  for (int a : nodes)
    for (int b : nodes)
      if (w.n[b].bb) v.push_back({a, b, 1, calls && nodes.size() > 3 && a == nodes[0] && b == nodes.back() ? kR : kB});
  if (calls) v.push_back({nodes.back(), nodes[0], 1, kC});
  return v;
}
Params PickParams(Ctx& c, bool inter, bool exact, bool few) {
  Params p = Base(exact);
  p.set_inter_function_reordering(inter);
  int mode = c.pick(few ? 3 : 5);
  if (mode == 1) p.set_chain_split_threshold(c.of<int>({100, few ? 3 : 2}));
  if (mode == 2) p.set_chain_split(false);
  if (mode == 3) p.set_split_functions(false);
  if (mode == 4) p.set_reorder_hot_blocks(false), p.set_split_functions(c.flip());
  return p;
}
void Intra(Ctx& c, bool ref) {
  World w;
  static const std::vector<std::vector<int>> sizes = {{8, 8, 8, 8}, {8, 0, 8, 600}, {600, 600, 16, 0}, {0, 1100, 0, 16}};
  auto s = c.of(sizes);
  int nb = 2 + c.pick(3);
  s.resize(nb);
  std::vector<int> pads;
  if (nb >= 3 && c.flip()) pads = {1, nb - 1};
  w.AddFn(5, s, pads);
  Params p = PickParams(c, false, ref, false);
  if (c.flip()) p.set_fallthrough_weight(2);
  PickEdges(c, w, IntraPool(w, 0, true), nb == 4 ? mc::tier(3, 4) : mc::tier(4, 5), {3, 20});
  RunLayout(c, w, p, ref);
}
void Long(Ctx& c, bool ref) {  // more blocks, mostly a path
  World w;
  int nb = mc::tier(6, 7);
  std::vector<int> sizes(nb, 16);
  int big = c.pick(nb);
  sizes[big] = c.of<int>({600, 0});
  w.AddFn(5, sizes, {nb - 1});
  Params p = PickParams(c, false, ref, true);
  auto pool = IntraPool(w, 0, false);
  int base = c.flip() ? 1 << 24 : 0;  // weights a float cannot tell apart
  for (int i = 0; i + 1 < nb; ++i)
    if (i != 2) w.e.push_back({i, i + 1, base + 10 + i, kB});
  std::vector<E> rest;
  for (auto& e : pool)
    if (e.t != e.s + 1 && e.t != e.s) rest.push_back(e);
  PickEdges(c, w, rest, mc::tier(2, 3), {base + 5, base + 12, base + 40});
  RunLayout(c, w, p, ref);
}
void Large(Ctx& c, bool ref) {  // more blocks, chains and bundles than a byte counts
  World w;
  int nb = ref ? 140 : c.of({140, 300});
  std::vector<int> sizes(nb, 16);
  w.AddFn(5, sizes, {nb - 1});
  Params p = Base(ref);
  int shape = c.pick(4);
  int base = c.flip() ? 1 << 24 : 0;  // weights a float cannot tell apart
  // Without other ways out of its blocks a path is one bundle.
  bool loose = (shape == 3 || !ref) && c.flip();
  if (!loose || !ref) p.set_chain_split_threshold(c.of({1000, 20}));
  else p.set_chain_split_threshold(20);  // the reference tries every position otherwise
  if (loose)
    for (int i = 0; i + 3 < nb; ++i) w.e.push_back({i + 2, i + 1, 2, kB});
  if (shape == 3) {  // a path, built first, into which one or two blocks go
    int x = loose ? c.of({127, 130}) : c.of({1, 2, 126, 127, 128, 129, 130, 135}), y = loose ? c.of({0, 128}) : c.of({0, 1, 127, 128, 131});
    for (int i = 0; i + 3 < nb; ++i) w.e.push_back({i, i + 1, base + (i == x || i == y ? 100 : 1000 + i), kB});
    int wt = base ? base / 3 * 2 : 60;
    w.e.push_back({x, nb - 1, wt, kB});
    w.e.push_back({nb - 1, x + 1, wt, kB});
    if (x != y && y) {
      w.e.push_back({y, nb - 2, wt + 5, kB});
      w.e.push_back({nb - 2, y + 1, wt + 5, kB});
    }
    return RunLayout(c, w, p, ref);
  }
  // One path; pairs that stay apart; a path merged from the end.
  for (int i = 0; i + 1 < nb; ++i)
    if (shape != 1 || i % 2 == 0) w.e.push_back({i, i + 1, base + (shape == 2 ? 1000 + i : 2000 - i), kB});
  std::vector<int> at = {1, 60, 126, 127, 128, 129, 138};
  if (loose) at = {60, 128, 138};
  int a = c.of(at), b = c.of(at);
  if (a == b) c.prune();
  int v = c.of({40, 5000});
  w.e.push_back({a, b, v, kB});
  if (std::abs(a - b) == 1) c.prune();
  RunLayout(c, w, p, ref);
}
void Inter(Ctx& c, bool ref) {
  World w;
  int shape = c.pick(3);
  static const std::vector<std::vector<int>> sizes = {{8, 8, 8}, {16, 0, 700}, {700, 8, 0}};
  w.AddFn(2, c.of(sizes), c.flip() ? std::vector<int>{1, 2} : std::vector<int>{});
  w.AddFn(7, shape == 0 ? std::vector<int>{8} : std::vector<int>{8, 16});
  if (shape == 2) w.AddFn(9, {0});
  Params p = PickParams(c, true, ref, false);
  std::vector<E> pool = IntraPool(w, 0, false);
  auto add = [&](int a, int b, int k) { pool.push_back({a, b, 1, k}); };
  for (int i : w.f[0].nodes) add(i, 3, kC);
  add(3, 1, kR);
  add(3, 0, kC);
  if (shape) add(3, 4, kB), add(4, 0, kC), add(4, 2, kR);
  if (shape == 2) add(4, 5, kC), add(1, 5, kC), add(5, 3, kC), add(5, 4, kR);
  PickEdges(c, w, pool, shape == 2 ? mc::tier(3, 4) : mc::tier(4, 5), {3, 20});
  RunLayout(c, w, p, ref);
}
// Many functions of one or two blocks: clustering.
void Calls(Ctx& c, bool ref, bool inter) {
  World w;
  int nf = 3 + c.pick(2);
  static const std::vector<std::vector<int>> sizes = {{8, 8, 8, 8}, {8, 4000, 8, 100}, {100, 8, 0, 4000}};
  auto s = c.of(sizes);
  for (int i = 0; i < nf; ++i) w.AddFn(i * 2 + 1, i == 0 ? std::vector<int>{s[i], 8} : std::vector<int>{s[i]});
  Params p = Base(ref);
  p.set_inter_function_reordering(inter);
  int mode = c.pick(4);
  if (mode == 1) p.set_call_chain_clustering(false);
  if (mode == 2) p.set_cluster_merge_size_threshold(16);
  if (mode == 3) p.set_cluster_merge_size_threshold(4100);
  std::vector<E> pool;
  std::vector<int> callers = {0, 1, 2, 3, 4};
  pool.push_back({0, 1, 1, kB});
  for (int a = 0; a <= nf; ++a)
    for (int f = 0; f < nf; ++f) {
      int t = w.f[f].nodes[0];
      if (a == 1 && f == 0) continue;
      pool.push_back({a, t, 1, kC});
    }
  pool.push_back({2, 1, 1, kR});
  if (!inter) pool.push_back({3, 1, 1, kC});  // into the middle of a function, as a branch of hand-written code
  PickEdges(c, w, pool, mc::tier(3, 4), c.flip() ? std::vector<int>{1, 250000000} : std::vector<int>{1, 6, 60});
  RunLayout(c, w, p, ref);
}
// Chains given at the start and cloned blocks.
void Initial(Ctx& c, bool ref) {
  World w;
  bool inter = c.flip();
  w.AddFn(5, c.flip() ? std::vector<int>{8, 8, 16, 8} : std::vector<int>{8, 0, 600, 0});
  int cl = w.Clone(0, 1, {2});
  if (inter) w.AddFn(8, {8, 8});
  Params p = PickParams(c, inter, ref, true);
  std::vector<E> pool;
  for (int a : w.f[0].nodes)
    for (int b : w.f[0].nodes)
      if (w.n[b].bb) pool.push_back({a, b, 1, kB});
  if (inter) pool.push_back({1, 5, 1, kC}), pool.push_back({5, 0, 1, kC});
  std::map<int, std::vector<std::vector<int>>> init;
  static const std::vector<std::vector<std::vector<int>>> inits = {{}, {{0, 1, 2}}, {{0, 2, 1}, {3, 4}}, {{2, 1, 3}}, {{0, 1, 2, 3}}, {{1, 4, 3}}};
  auto in = c.of(inits);
  if (!in.empty()) init[0] = in;
  (void)cl;
  PickEdges(c, w, pool, mc::tier(3, 4), {3, 20});
  RunLayout(c, w, p, ref, init);
}
void Sections(Ctx& c) {
  World w;
  int nf = 2 + c.pick(2);
  bool sec[3] = {false, false, false};
  for (int i = 0; i < nf; ++i) {
    w.AddFn(4 - i, {8, 8});
    sec[i] = c.flip();
    if (sec[i]) w.f[i].section = ".text.hot";
  }
  Params p = PickParams(c, c.flip(), true, true);
  std::vector<E> pool;
  auto& n = w.n;
  for (size_t a = 0; a < n.size(); ++a) {
    if (n[a].bb == 0) pool.push_back({static_cast<int>(a), static_cast<int>(a) + 1, 1, kB});
    for (size_t b = 0; b < n.size(); ++b)
      if (n[a].f != n[b].f) pool.push_back({static_cast<int>(a), static_cast<int>(b), 1, n[b].bb ? kR : kC, sec[n[a].f] != sec[n[b].f]});
  }
  PickEdges(c, w, pool, mc::tier(3, 4), {3, 20});
  w.Build();
  std::string note = Str(p) + " " + w.Str();
  c.say(note);
  PropellerStats::CodeLayoutStats st;
  auto all = GenerateLayoutBySection(*w.prog, p, st);
  c.transition();
  size_t want = 0;
  double score[4] = {0, 0, 0, 0};
  MStats ms;
  for (int s = 0; s < 2; ++s) {
    std::vector<int> fns;
    for (int i = nf - 1; i >= 0; --i)
      if (sec[i] == s) fns.push_back(i);
    if (fns.empty()) continue;
    ++want;
    std::string name = s ? ".text.hot" : ".text";
    c.check(all.contains(name), "section", note);
    auto& infos = all[name];
    PropellerStats::CodeLayoutStats own;
    for (auto& i : infos) {
      own.original_intra_score += i.original_score.intra_score;
      own.optimized_intra_score += i.optimized_score.intra_score;
      own.original_inter_score += i.original_score.inter_out_score;
      own.optimized_inter_score += i.optimized_score.inter_out_score;
    }
    Invariants(c, w, p, fns, infos, own, note);
    // Sections do not depend on each other.
    MLayout m = Reference(w, p, fns);
    Flat got = Flatten(c, w, infos, fns, note);
    c.eq(Nodes(got.order), Nodes(m.order), "layout", note);
    score[0] += own.original_intra_score, score[1] += own.optimized_intra_score;
    score[2] += own.original_inter_score, score[3] += own.optimized_inter_score;
    ms.single += m.st.single, ms.multi += m.st.multi;
    for (auto& [o, k] : m.st.orders) ms.orders[o] += k;
  }
  c.eq(all.size(), want, "sections", note);
  double have[4] = {st.original_intra_score, st.optimized_intra_score, st.original_inter_score, st.optimized_inter_score};
  for (int k = 0; k < 4; ++k) c.check(std::abs(have[k] - score[k]) < 1e-9, "score-sums", note);
  c.eq(st.n_single_node_chains, ms.single, "single-chains", note);
  c.eq(st.n_multi_node_chains, ms.multi, "multi-chains", note);
  int total = 0, got = 0;
  for (auto& [o, k] : ms.orders) total += k;
  for (auto& [o, k] : st.n_assemblies_by_merge_order) got += k;
  c.eq(got, total, "merges", note);
  if (want == 2) c.nontrivial();
  c.outcome(note);
}
// ---------------------------------------------------------------- C05
void Scorer(Ctx& c) {
  World w;
  Params p;
  if (c.flip()) p.set_fallthrough_weight(c.of<uint32_t>({0, 1, 4000000000u})), p.set_forward_jump_weight(c.of<uint32_t>({0, 7, 3000000000u})), p.set_backward_jump_weight(c.of<uint32_t>({0, 5, 3000000000u}));
  if (c.flip()) p.set_forward_jump_distance(c.of<uint32_t>({0, 1, 64})), p.set_backward_jump_distance(c.of<uint32_t>({0, 1, 48}));
  std::vector<int> sz = {c.of<int>({0, 1, 8, 33}), c.of<int>({0, 9, 40})};
  w.AddFn(1, sz);
  w.e.push_back({0, 1, c.of<int>({0, 1, 100, 500000000, 0x7fffffff}), c.pick(3)});
  w.Build();
  c.say(Str(p) + w.Str());
  PropellerCodeLayoutScorer scorer(p);
  for (int d = -1100; d <= 1100; ++d) {
    int a = std::abs(d);
    if (a > 110 && a % 341 > 2 && !(a > 640 && a < 690) && !(a > 1004 && a < 1030)) continue;
    double want = Score(w, p, w.e[0], d), got = scorer.GetEdgeScore(*w.edges[0], d);
    c.check(std::abs(got - want) <= 1e-9 * (1 + std::abs(want)), "edge-score", w.Str() + " distance " + std::to_string(d) + " got " + std::to_string(got) + " want " + std::to_string(want));
    c.transition();
  }
  c.outcome(w.Str() + p.SerializeAsString());
  if (w.e[0].w) c.nontrivial();
}
void Forced(Ctx& c) {
  World w;
  int nb = 2 + c.pick(mc::tier(3, 3));
  std::vector<int> sizes(nb, 8);
  w.AddFn(1, sizes);
  for (int a = 0; a < nb; ++a)
    for (int b = 0; b < nb; ++b) {
      if (nb == 4 && mc::tier(1, 0) && (a * 5 + b) % 5 == 4) continue;
      int x = nb <= 3 ? c.pick(4) : c.pick(2);
      if (x == 0) continue;
      w.e.push_back({a, b, x == 1 ? 5 : x == 2 ? 0 : 3, x == 3 ? (a + b) % 2 ? kC : kR : kB});
    }
  w.Build();
  c.say(w.Str());
  MStats st;
  Params p;
  Builder b{w, p, {0}, {}, st};
  auto want = b.Paths(0);
  auto got = GetForcedPaths(*w.cfgs[0]);
  c.transition();
  std::vector<std::vector<int>> g;
  for (auto& path : got) {
    g.emplace_back();
    for (auto* n : path) g.back().push_back(n->bb_index());
  }
  c.check(g == want, "forced-paths", w.Str() + " got " + std::to_string(g.size()) + " paths, want " + std::to_string(want.size()));
  if (!want.empty()) c.nontrivial();
  std::string o;
  for (auto& x : want) o += Nodes(x) + ";";
  c.outcome(o);
}
// Score gains of all ways to join two chains.
void Assembly(Ctx& c) {
  World w;
  bool inter = c.flip();
  static const std::vector<std::vector<int>> sizes = {{8, 8, 8, 8, 8}, {0, 8, 0, 0, 16}, {8, 0, 0, 600, 0}, {0, 0, 0, 0, 0}, {600, 0, 500, 0, 8}};
  w.AddFn(3, c.of(sizes));
  Params p = Base(true);
  std::vector<std::vector<int>> chains;
  int split = c.pick(4);
  if (split == 0) chains = {{0, 1, 2}, {3, 4}};
  if (split == 1) chains = {{1, 0, 2}, {4, 3}};
  if (split == 2) chains = {{2, 3, 4}, {0, 1}};
  if (split == 3) chains = {{0, 3, 1, 4}, {2}};
  if (!inter && split == 1) chains = {{0, 4, 2}, {1, 3}};
  if (inter) w.AddFn(6, {8, 8});
  p.set_inter_function_reordering(inter);
  std::vector<E> pool = IntraPool(w, 0, false);
  PickEdges(c, w, pool, mc::tier(3, 4), {3, 20});
  // The order in which edges are made is not the order of the chain.
  if (c.flip()) std::reverse(w.e.begin(), w.e.end());
  if (inter) w.e.push_back({0, 5, 1, kC});
  w.Build();
  std::string note = Str(p) + " " + w.Str() + " chains ";
  for (auto& x : chains) note += Nodes(x) + "; ";
  c.say(note);
  absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> init;
  for (auto& ch : chains) {
    auto& x = init[3].emplace_back();
    for (int i : ch) x.push_back({w.n[i].bb, 0});
  }
  if (!w.Hot(0)) c.prune();
  PropellerCodeLayoutScorer scorer(p);
  PropellerStats::CodeLayoutStats st;
  std::vector<int> fns = {0};
  if (inter) fns = {0, 1};
  std::map<int, std::vector<std::vector<int>>> minit;
  minit[0] = chains;
  MStats ms;
  Builder b{w, p, fns, minit, ms};
  b.Init();
  bool tree = c.flip();
  auto builder = tree ? NodeChainBuilder::CreateNodeChainBuilder<NodeChainAssemblyBalancedTreeQueue>(scorer, w.cfgs, init, st) : NodeChainBuilder::CreateNodeChainBuilder<NodeChainAssemblyIterativeQueue>(scorer, w.cfgs, init, st);
  builder.InitNodeChains();
  builder.InitChainEdges();
  c.eq(builder.chains().size(), b.chains.size(), "chains", note);
  auto id = [](const NodeChain& x) { return Id{x.id().function_index, x.id().intra_cfg_id.bb_index, x.id().intra_cfg_id.clone_number}; };
  auto nodes = [&](const NodeChain& x) {
    std::vector<int> v;
    x.VisitEachNodeRef([&](const CFGNode& n) {
      for (size_t i = 0; i < w.n.size(); ++i)
        if (w.n[i].p == &n) v.push_back(i);
    });
    return v;
  };
  auto score = [&](const std::vector<int>& v, const std::map<int, int>& bundle) {
    auto at = b.Offsets(v);
    double r = 0;
    for (int k : b.edges) {
      auto& e = w.e[k];
      if (at.count(e.s) && at.count(e.t) && bundle.at(e.s) != bundle.at(e.t)) r += Score(w, p, e, int64_t{at[e.t]} - at[e.s] - w.n[e.s].size);
    }
    return r;
  };
  for (auto& [i, s] : builder.chains()) {
    c.check(b.chains.count(id(*s)), "chain", note);
    MChain& m = b.chains[id(*s)];
    c.eq(Nodes(nodes(*s)), Nodes(m.Nodes()), "chain-nodes", note);
    c.eq(s->size(), m.size, "chain-size", note);
    c.eq(s->freq(), m.freq, "chain-frequency", note);
    std::map<int, int> bundle;
    for (size_t k = 0; k < m.b.size(); ++k)
      for (int x : m.b[k]) bundle[x] = k;
    c.eq(s->score(), score(m.Nodes(), bundle), "chain-score", note);
  }
  bool any = false;
  for (auto& [i, s] : builder.chains())
    for (auto& [j, u] : builder.chains()) {
      if (s == u) continue;
      MChain &ms2 = b.chains[id(*s)], &mu = b.chains[id(*u)];
      for (int o = 0; o < 5; ++o)
        for (int k = o ? 1 : -1; o ? k < static_cast<int>(ms2.b.size()) : k == -1; ++k) {
          bool mid, strict = (o + k) % 2;
          double g = b.Gain(ms2, mu, o, k, &mid);
          NodeChainAssembly::NodeChainAssemblyBuildingOptions opt;
          opt.merge_order = static_cast<ChainMergeOrder>(o);
          if (o) opt.slice_pos = k;
          opt.error_on_zero_score_gain = strict;
          auto a = NodeChainAssembly::BuildNodeChainAssembly(builder.node_to_bundle_mapper(), scorer, *s, *u, opt);
          c.transition();
          std::string where = note + " split " + Nodes(ms2.Nodes()) + "order " + std::to_string(o) + " at " + std::to_string(k);
          c.eq(a.ok(), !mid && (g > 0 || (g == 0 && !strict)), "assembly-allowed", where + " gain " + std::to_string(g));
          if (!a.ok()) continue;
          c.eq(a->score_gain(), g, "score-gain", where);
          any |= g > 0;
          std::vector<int> got, want;
          a->VisitEachNodeBundleInAssemblyOrder([&](const CFGNodeBundle& bd) {
            for (auto* n : bd.nodes())
              for (size_t q = 0; q < w.n.size(); ++q)
                if (w.n[q].p == n) got.push_back(q);
          });
          for (auto& bd : b.Order(ms2, mu, o, k)) want.insert(want.end(), bd.begin(), bd.end());
          c.eq(Nodes(got), Nodes(want), "assembly-order", where);
        }
    }
  // Step through the merges: each chain's score stays that of its edges.
  builder.InitChainAssemblies();
  int steps = 0;
  while (!builder.node_chain_assemblies().empty()) {
    auto best = builder.node_chain_assemblies().GetBestAssembly();
    double before = best.split_chain().score() + best.unsplit_chain().score();
    double gain = best.score_gain();
    c.check(gain > 0, "useless-merge", note);
    auto* kept = &best.split_chain();
    builder.MergeChains(std::move(best));
    std::map<int, int> bundle, at;
    int k = 0, off = 0;
    for (auto& bd : kept->node_bundles()) {
      c.check(bd->chain_mapping().chain == kept, "bundle-chain", note);
      c.eq(bd->chain_mapping().chain_index, k, "bundle-index", note);
      c.eq(bd->chain_mapping().chain_offset, off, "bundle-offset", note);
      int inner = 0;
      for (auto* n : bd->nodes()) {
        for (size_t q = 0; q < w.n.size(); ++q)
          if (w.n[q].p == n) bundle[q] = k;
        auto& me = builder.node_to_bundle_mapper().GetBundleMappingEntry(n);
        c.check(me.bundle == bd.get(), "node-bundle", note);
        c.eq(me.bundle_offset, inner, "node-offset", note);
        inner += n->size();
      }
      c.eq(bd->size(), inner, "bundle-size", note);
      off += bd->size();
      ++k;
    }
    c.eq(kept->size(), off, "merged-size", note);
    double sc = score(nodes(*kept), bundle);
    c.check(std::abs(kept->score() - sc) < 1e-9, "merged-score", note + " got " + std::to_string(kept->score()) + " want " + std::to_string(sc));
    if (kept->function_index()) c.check(std::abs(sc - before - gain) < 1e-9, "gain-realised", note);
    c.check(++steps < 16, "no-progress", note);
  }
  if (any) c.nontrivial();
  c.outcome(note);
}
// Both queues against a map, over all histories.
void Queues(Ctx& c) {
  World w;
  w.AddFn(3, {8, 8, 8, 8});
  for (auto e : {E{0, 1, 5, kB}, E{0, 2, 5, kB}, E{1, 3, 7, kB}, E{2, 3, 5, kB}, E{3, 1, 5, kB}}) w.e.push_back(e);
  w.Build();
  Params p = Base(true);
  PropellerCodeLayoutScorer scorer(p);
  PropellerStats::CodeLayoutStats st;
  auto builder = NodeChainBuilder::CreateNodeChainBuilder(scorer, w.cfgs, {{3, {{{0, 0}, {1, 0}}}}}, st);
  builder.InitNodeChains();
  builder.InitChainEdges();
  std::vector<NodeChain*> ch;
  for (auto& [i, x] : builder.chains()) ch.push_back(x.get());
  std::sort(ch.begin(), ch.end(), [](auto* a, auto* b) { return a->id() < b->id(); });
  std::vector<NodeChainAssembly> as;
  auto add = [&](int s, int u, int o, int k) {
    NodeChainAssembly::NodeChainAssemblyBuildingOptions opt;
    opt.merge_order = static_cast<ChainMergeOrder>(o);
    if (k) opt.slice_pos = k;
    opt.error_on_zero_score_gain = false;
    auto a = NodeChainAssembly::BuildNodeChainAssembly(builder.node_to_bundle_mapper(), scorer, *ch[s], *ch[u], opt);
    if (a.ok()) as.push_back(*a);
  };
  add(0, 1, 0, 0);
  add(0, 1, 2, 1);
  add(0, 2, 0, 0);
  add(1, 2, 0, 0);
  add(2, 1, 0, 0);
  add(0, 2, 2, 1);
  c.check(as.size() >= 5, "setup", "too few assemblies");
  NodeChainAssemblyIterativeQueue it;
  NodeChainAssemblyBalancedTreeQueue tr;
  std::map<std::pair<NodeChain*, NodeChain*>, NodeChainAssembly> m;
  std::string hist;
  int len = mc::tier(5, 6);
  for (int k = 0; k < len; ++k) {
    int op = c.pick(as.size() + 3);
    c.transition();
    if (op < static_cast<int>(as.size())) {
      hist += "i" + std::to_string(op);
      it.InsertAssembly(as[op]);
      tr.InsertAssembly(as[op]);
      m.insert_or_assign({&as[op].split_chain(), &as[op].unsplit_chain()}, as[op]);
    } else {
      int q = op - as.size();
      NodeChainPair pr{.split_chain = ch[q == 2 ? 1 : 0], .unsplit_chain = ch[q == 0 ? 1 : 2]};
      hist += "r" + std::to_string(q);
      it.RemoveAssembly(pr);
      tr.RemoveAssembly(pr);
      m.erase({pr.split_chain, pr.unsplit_chain});
    }
    c.eq(it.empty(), m.empty(), "queue-empty", hist);
    c.eq(tr.empty(), m.empty(), "queue-empty", hist);
    if (m.empty()) continue;
    auto key = [](const NodeChainAssembly& a) {
      return std::make_tuple(a.score_gain(), -a.split_chain().id().intra_cfg_id.bb_index, -a.unsplit_chain().id().intra_cfg_id.bb_index, static_cast<int>(a.merge_order()), a.slice_pos().value_or(-1));
    };
    auto best = m.begin();
    for (auto x = m.begin(); x != m.end(); ++x)
      if (key(best->second) < key(x->second)) best = x;
    c.check(key(it.GetBestAssembly()) == key(best->second), "best", hist);
    c.check(key(tr.GetBestAssembly()) == key(best->second), "best", hist);
    c.nontrivial();
  }
  c.outcome(hist);
}
// ---------------------------------------------------------------- C06
std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream i(s);
  std::string l;
  while (std::getline(i, l)) v.push_back(l);
  return v;
}
void Writer(Ctx& c) {
  World w;
  int nf = c.pick(mc::tier(3, 4));
  static const std::vector<std::vector<std::string>> names = {{"f"}, {"_ZC2", "_ZC1"}, {"a.llvm.1", "b", "c"}};
  PropellerProfile prof;
  struct Inf {
    int sec;
    std::vector<std::pair<unsigned, std::vector<int>>> clusters;
    unsigned cold;
    CFGScore so, sn;
  };
  PropellerOptions opt;
  bool v0 = c.flip();
  opt.set_cluster_out_version(v0 ? VERSION_0 : VERSION_1);
  if (!v0 && c.flip()) opt.clear_cluster_out_version();
  bool verbose = c.flip(), dump = c.flip();
  opt.set_verbose_cluster_output(verbose);
  for (int f = 0; f < nf; ++f) {
    w.AddFn(f * 3, f == 0 ? std::vector<int>{8, 4, 8} : std::vector<int>{8, 4});
    w.f[f].names = f == 0 ? c.of(names) : std::vector<std::string>{"g" + std::to_string(f)};
    if (f < 2 && c.flip()) w.f[f].module = f ? "" : "dir/m.cc";
    if (f == 1 && c.flip()) w.f[f].section = ".text.hot";
    if (f == 1) w.n[w.f[f].nodes[0]].id = 7, w.n[w.f[f].nodes[1]].id = 0;
    if (f == 0 && !v0 && c.flip()) w.Clone(0, 1, c.flip() ? std::vector<int>{2} : std::vector<int>{2, 2});
  }
  if (nf) {
    w.e.push_back({0, 1, 12, kB});
    w.e.push_back({0, 2, 3, kB});
    w.e.push_back({2, 0, 9, kC});
  }
  if (nf > 1) w.e.push_back({1, 3, 4, kC}), w.e.push_back({3, 1, 4, kR});
  std::vector<Inf> inf(nf);
  std::map<std::string, std::vector<std::pair<int, int>>> order;  // section -> (function, cluster) in layout order
  std::map<std::string, std::vector<int>> coldorder;
  for (int f = 0; f < nf; ++f) {
    auto nodes = w.f[f].nodes;
    static const std::vector<std::vector<std::vector<int>>> shapes3 = {{{0, 1, 2}}, {{0}, {2, 1}}, {{2}}, {{0, 2}}, {{1, 2}, {0}}};
    auto sh = f == 0 ? c.of(shapes3) : c.flip() ? std::vector<std::vector<int>>{{0}} : std::vector<std::vector<int>>{{0, 1}};
    if (nodes.size() > 3 && f == 0) {
      int k = c.pick(3);
      if (k == 1) sh.back().push_back(3);
      if (k == 2) sh.push_back({3});  // a cluster that begins with a cloned block
    }
    for (auto& cl : sh) {
      std::vector<int> v;
      for (int x : cl) v.push_back(nodes[x]);
      inf[f].clusters.push_back({0, v});
    }
    inf[f].so = {1.5 + f, 0.25};
    inf[f].sn = {2.75 * f, 1e7};
    auto& o = order[w.f[f].section];
    for (size_t k = 0; k < sh.size(); ++k) o.insert(o.begin() + (f == 0 && k == 0 ? 0 : c.pick(std::min<int>(o.size() + 1, 3))), {f, static_cast<int>(k)});
    auto& co = coldorder[w.f[f].section];
    co.insert(co.begin() + c.pick(co.size() + 1), f);
  }
  for (auto& [s, o] : order)
    for (size_t i = 0; i < o.size(); ++i) inf[o[i].first].clusters[o[i].second].first = i;
  for (auto& [s, o] : coldorder)
    for (size_t i = 0; i < o.size(); ++i) inf[o[i]].cold = i;
  w.Build();
  for (int f = 0; f < nf; ++f) {
    FunctionClusterInfo fi;
    fi.function_index = w.f[f].index;
    for (auto& [at, v] : inf[f].clusters) {
      fi.clusters.emplace_back(at);
      for (int x : v) fi.clusters.back().full_bb_ids.push_back({w.n[x].id, {w.n[x].bb, w.n[x].clone}});
    }
    fi.original_score = inf[f].so;
    fi.optimized_score = inf[f].sn;
    fi.cold_cluster_layout_index = inf[f].cold;
    prof.functions_cluster_info_by_section_name[w.cfgs[f]->section_name()].push_back(fi);
  }
  // Expected files
  std::string cc, ld;
  if (!v0) cc += "v1\n";
  char buf[256];
  for (auto& [sec, o] : order) {
    if (verbose) cc += "#section " + sec + "\n";
    for (int f = 0; f < nf; ++f) {
      auto& fn = w.f[f];
      if (fn.section != sec) continue;
      if (!v0 && fn.module) cc += "m " + *fn.module + "\n";
      cc += v0 ? "!" : "f ";
      for (size_t i = 0; i < fn.names.size(); ++i) cc += (i ? v0 ? "/" : " " : "") + fn.names[i];
      if (v0 && fn.module) cc += " M=" + *fn.module;
      cc += "\n";
      for (auto& cp : fn.clones) {
        cc += "p";
        for (size_t i = 0; i < cp.size(); ++i) cc += (i ? " " : "") + std::to_string(w.n[fn.nodes[cp[i]]].id);
        cc += "\n";
      }
      if (verbose) {
        snprintf(buf, sizeof buf, "#ext-tsp score: [intra: %f -> %f] [inter: %f -> %f]\n#entry-freq %d\n", inf[f].so.intra_score, inf[f].sn.intra_score, inf[f].so.inter_out_score, inf[f].sn.inter_out_score, w.Freq(fn.nodes[0]));
        cc += buf;
      }
      for (auto& [at, v] : inf[f].clusters) {
        for (size_t i = 0; i < v.size(); ++i) cc += (i ? " " : v0 ? "!!" : "c") + std::to_string(w.n[v[i]].id) + (w.n[v[i]].clone ? "." + std::to_string(w.n[v[i]].clone) : "");
        cc += "\n";
      }
      if (verbose)
        for (int i : fn.nodes) {
          cc += "#cfg-prof " + std::to_string(w.n[i].id) + ":" + std::to_string(w.Freq(i));
          for (auto& e : w.e)
            if (e.s == i && e.k == kB) cc += " " + std::to_string(w.n[e.t].id) + ":" + std::to_string(e.w);
          cc += "\n";
        }
    }
    for (auto& [f, k] : o)
      for (auto& nm : w.f[f].names) ld += nm + (w.n[inf[f].clusters[k].second[0]].bb == 0 ? "" : ".__part." + std::to_string(k)) + "\n";
    for (int f : coldorder[sec]) {
      size_t placed = 0;
      bool entry = false;
      for (auto& [at, v] : inf[f].clusters) placed += v.size(), entry |= w.n[v[0]].bb == 0;
      if (placed == w.f[f].nodes.size()) continue;
      for (auto& nm : w.f[f].names) ld += nm + (entry ? ".cold" : "") + "\n";
    }
  }
  prof.program_cfg = std::move(w.prog);
  std::string a = ScratchFile("cc"), b = ScratchFile("ld"), d = ScratchFile("dump");
  opt.set_cluster_out_name(a);
  opt.set_symbol_order_out_name(b);
  if (dump) opt.set_cfg_dump_dir_name(d);
  c.say(cc + "--\n" + ld);
  PropellerProfileWriter(opt).Write(prof);
  c.transition();
  c.eq(ReadFile(a), cc, "cluster-file");
  c.eq(ReadFile(b), ld, "symbol-order");
  if (dump) {
    std::string idx = "Function.Name Function.Address N_Nodes N_Clusters Original.ExtTSP.Score Optimized.ExtTSP.Score\n";
    for (auto& [sec, o] : order)
      for (int f = 0; f < nf; ++f) {
        if (w.f[f].section != sec) continue;
        std::ostringstream s;
        s << w.f[f].names[0] << " 0x" << std::hex << w.n[w.f[f].nodes[0]].addr << std::dec << " " << w.f[f].nodes.size() << " " << inf[f].clusters.size() << " " << inf[f].so.intra_score << " " << inf[f].sn.intra_score << "\n";
        idx += s.str();
        std::ostringstream fname;
        fname << d << "/0x" << std::hex << w.n[w.f[f].nodes[0]].addr << ".dot";
        absl::flat_hash_map<CFGNode::IntraCfgId, int> lay;
        for (auto& [at, v] : inf[f].clusters)
          for (size_t i = 0; i < v.size(); ++i) lay.insert({{w.n[v[i]].bb, w.n[v[i]].clone}, static_cast<int>(at + i)});
        std::ostringstream dot;
        w.cfgs[f]->WriteDotFormat(dot, lay);
        c.eq(ReadFile(fname.str()), dot.str(), "dot");
        unlink(fname.str().c_str());
      }
    c.eq(ReadFile(d + "/cfg-index.txt"), idx, "cfg-index");
    unlink((d + "/cfg-index.txt").c_str());
    rmdir(d.c_str());
  }
  unlink(a.c_str());
  unlink(b.c_str());
  if (nf) c.nontrivial();
  c.outcome(cc + ld);
}
}  // namespace
int main(int argc, char** argv) {
  FLAGS_minloglevel = 3;
  return mc::Main(argc, argv, {
      {"C04/one-function", [](Ctx& c) { Intra(c, false); }, 6},
      {"C04/long", [](Ctx& c) { Long(c, false); }, 4},
      {"C04/large", [](Ctx& c) { Large(c, false); }, 3},
      {"C04/across-functions", [](Ctx& c) { Inter(c, false); }, 6},
      {"C04/calls", [](Ctx& c) { Calls(c, false, false); }, 5},
      {"C04/calls-across", [](Ctx& c) { Calls(c, false, true); }, 5},
      {"C04/initial-chains", [](Ctx& c) { Initial(c, false); }, 5},
      {"C04/sections", Sections, 6},
      {"C05/scorer", Scorer, 4},
      {"C05/forced-paths", Forced, 5},
      {"C05/assemblies", Assembly, 5},
      {"C05/queues", Queues, 3},
      {"C05/one-function", [](Ctx& c) { Intra(c, true); }, 6},
      {"C05/long", [](Ctx& c) { Long(c, true); }, 4},
      {"C05/large", [](Ctx& c) { Large(c, true); }, 3},
      {"C05/across-functions", [](Ctx& c) { Inter(c, true); }, 6},
      {"C05/initial-chains", [](Ctx& c) { Initial(c, true); }, 5},
      {"C12/functions", [](Ctx& c) { Calls(c, true, false); }, 5},
      {"C12/across", [](Ctx& c) { Calls(c, true, true); }, 5},
      {"C06/files", Writer, 6},
  });
}
