// Profiles described as records, built with the real API and in the model.
#ifndef VERIF_PROFGEN_H_
#define VERIF_PROFGEN_H_
#include <string.h>
#include <set>
#include "profmodel.h"
#include "symbol_map.h"
using namespace devtools_crosstool_autofdo;
// Strings that live as long as the process (source stacks keep pointers).
inline const char* Intern(const std::string& s) {
  static std::set<std::string>* all = new std::set<std::string>;
  return all->insert(s).first->c_str();
}
// Leaf-first stacks; each frame is (function, line offset, discriminator).
struct Rec {
  std::vector<std::pair<std::string, uint64_t>> frames;  // leaf first: name, location
  uint64_t count;
};
struct Prof {
  std::vector<Rec> recs;
  std::vector<std::pair<Rec, std::string>> targets;
  std::map<std::string, std::pair<uint64_t, uint64_t>> head;  // head, timestamp
  std::map<std::string, std::string> files;
};
inline SourceStack Stack(const Prof& p, const Rec& r, std::vector<std::string>* keep) {
  SourceStack st;
  for (auto& f : r.frames) {
    auto it = p.files.find(f.first);
    st.push_back(SourceInfo(Intern(f.first), "", it == p.files.end() ? "" : it->second, 0, f.second >> 32, f.second & 0xffffffff));
  }
  return st;
}
inline void Build(const Prof& p, SymbolMap* sm) {
  std::vector<std::string> keep;
  for (auto& h : p.head) {
    sm->AddSymbol(h.first);
    sm->AddSymbolEntryCount(h.first, h.second.first);
    sm->AddSymbolTimestamp(h.first, h.second.second);
  }
  for (auto& r : p.recs) {
    sm->AddSymbol(r.frames.back().first);
    sm->AddSourceCount(r.frames.back().first, Stack(p, r, &keep), r.count, 1);
  }
  for (auto& t : p.targets) {
    sm->AddSymbol(t.first.frames.back().first);
    sm->AddIndirectCallTarget(t.first.frames.back().first, Stack(p, t.first, &keep), t.second, t.first.count);
  }
}
inline MProf Model(const Prof& p) {
  MProf m;
  for (auto& h : p.head) {
    m[h.first].head = h.second.first;
    m[h.first].ts = h.second.second;
  }
  auto leaf = [&](const Rec& r, uint64_t add) -> MPos& {
    MSym* s = &m[r.frames.back().first];
    s->total += add;
    for (int i = r.frames.size() - 1; i > 0; --i) {
      s = &s->calls[{r.frames[i].second, r.frames[i - 1].first}];
      s->total += add;
    }
    return s->pos[r.frames[0].second];
  };
  for (auto& r : p.recs) {
    MPos& q = leaf(r, r.count);
    q.count += r.count;
    ++q.inst;
  }
  for (auto& t : p.targets) leaf(t.first, 0).targets[t.second] += t.first.count;
  return m;
}
// More functions, positions, call sites, targets or levels than small integer
// types count: shape 0 functions, 1 positions, 2 call sites, 3 targets, 4 levels,
// 5 callees inlined at one call site.
inline Prof LargeProfile(int shape, int n) {
  Prof p;
  p.recs.push_back({{{"main", Loc(1, 0)}}, 12});
  for (int i = 0; i < n; ++i) {
    std::string name = "n" + std::to_string(i);
    uint64_t at = Loc(i % 65536, i / 65536);
    if (shape == 0) {
      p.recs.push_back({{{name, Loc(1, 0)}}, 20ull + i});
      p.head[name] = {1ull + i, 2ull + i};
      if (i % 1000 == 7) p.files[name] = "file" + std::to_string(i) + ".c";
    } else if (shape == 1) {
      p.recs.push_back({{{"main", at}}, 1ull + i});
    } else if (shape == 2) {
      p.recs.push_back({{{name, Loc(2, 0)}, {"main", at}}, 1ull + i});
    } else if (shape == 3) {
      p.targets.push_back({{{{"main", Loc(1, 0)}}, 1ull + i}, name});
    } else if (shape == 4) {
      auto f = p.recs.back().frames;
      f.insert(f.begin(), {name, Loc(3, 0)});
      p.recs.push_back({f, 30ull + i});
    } else {
      p.recs.push_back({{{name, Loc(2, 0)}, {"main", Loc(1, 0)}}, 1ull + i});
    }
  }
  return p;
}
// The numbers of things tried for each shape.
inline std::vector<int> LargeSizes(int shape) {
  if (shape == 4) return {130, 260};
  if (shape == 2 || shape == 5) return {130, 260, 3000};  // call sites are slow to find
  return {130, 260, 33000, 66000};
}
#endif
