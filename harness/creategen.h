// A small program with symbols, inline stacks and samples, and what the
// profile of those samples has to say.  Independent of /repo's algorithms.
#ifndef VERIF_CREATEGEN_H_
#define VERIF_CREATEGEN_H_
#include <functional>
#include <set>
#include "dwarfgen.h"
#include "elfgen.h"
#include "linegen.h"
#include "profmodel.h"
namespace cg {
struct Frame {
  const char* fn;
  const char* file;
  uint32_t start, line, disc;
  uint32_t base = 0, dup = 1;  // what disc says
};
using FS = std::vector<Frame>;  // leaf first
inline bool Bad(const Frame& f) { return f.start == 0 || f.line == 0; }
inline bool& Encoded() {  // discriminators carry a duplication factor and more
  static bool e = false;
  return e;
}
inline uint64_t Off(const Frame& f) { return Loc(static_cast<uint32_t>(f.line - f.start), Encoded() ? f.base : f.disc); }
struct Part {
  std::string name, base;  // base: without compiler suffix
  uint64_t start, size;
  std::vector<std::string> alias;
  int type = 2;
  uint64_t end() const { return start + size; }
};
constexpr uint64_t kText = 0x500402000, kFileOff = 0x1000;  // file offset of kText
struct World {
  std::vector<Part> parts;
  std::map<uint64_t, FS> stack;
  const Part* At(uint64_t a) const {
    for (auto& p : parts)
      if (a >= p.start && a < p.end()) return &p;
    return nullptr;
  }
  FS Of(uint64_t a) const {
    auto it = stack.find(a);
    return it == stack.end() ? FS() : it->second;
  }
};
using Counts = std::map<std::pair<uint64_t, uint64_t>, uint64_t>;
struct Samples {  // by link-time address
  Counts range, branch;
  std::map<uint64_t, uint64_t> addr, time;
  uint64_t Total() const {
    uint64_t t = 0;
    if (range.empty())
      for (auto& [a, n] : addr) t += n;
    for (auto& [r, n] : range) t += n * (r.second - r.first + 1);
    return t;
  }
  std::string Show() const {
    std::string o;
    char b[100];
    for (auto& [r, n] : range) snprintf(b, 100, "range %lx-%lx*%lu; ", r.first, r.second, n), o += b;
    for (auto& [r, n] : branch) snprintf(b, 100, "branch %lx->%lx*%lu; ", r.first, r.second, n), o += b;
    for (auto& [a, n] : addr) snprintf(b, 100, "addr %lx*%lu; ", a, n), o += b;
    for (auto& [a, n] : time) snprintf(b, 100, "time %lx@%lu; ", a, n), o += b;
    return o;
  }
};
struct Flags {
  bool lbr = true, llc = false;
  double frac = 0;
  int policy = 1;  // 0 none, 1 selected, 2 all
};
inline int64_t Threshold(const Samples& s, const Flags& f) { return std::max<int64_t>(10, static_cast<int64_t>(s.Total() * f.frac)); }
// Adds to the totals along the stack; the leaf, unless a frame says nothing.
inline MSym* Walk(MSym* s, const FS& f, uint64_t add, bool strict) {
  if (f.empty()) return nullptr;
  s->total += add;
  if (s->file.empty()) s->file = f.back().file;
  for (size_t i = f.size() - 1; i > 0; --i) {
    if (strict && Bad(f[i])) return nullptr;
    auto k = std::make_pair(Off(f[i]), std::string(f[i - 1].fn));
    bool fresh = !s->calls.count(k);
    s = &s->calls[k];
    if (fresh) s->file = f[i - 1].file;
    s->total += add;
  }
  return strict && Bad(f[0]) ? nullptr : s;
}
inline uint64_t Earliest(uint64_t a, uint64_t b) { return !a ? b : !b ? a : std::min(a, b); }
inline void Join(MSym& a, const MSym& b) {
  a.total += b.total;
  a.head += b.head;
  a.ts = Earliest(a.ts, b.ts);
  if (a.file.empty()) a.file = b.file;
  for (auto& p : b.pos) {
    a.pos[p.first].count += p.second.count;
    for (auto& t : p.second.targets) a.pos[p.first].targets[t.first] += t.second;
  }
  for (auto& c : b.calls) Join(a.calls[c.first], c.second);
}
inline std::string Base(const World& w, const std::string& name, int policy) {
  if (!policy) return name;
  for (auto& p : w.parts)
    if (p.name == name) return p.base;
  return name;
}
// Functions whose names differ only by suffixes become one.
inline MProf Elide(const World& w, const std::map<std::string, MSym>& by_part, int policy) {
  MProf m;
  for (auto& [name, s] : by_part)
    if (Base(w, name, policy) == name) m[name] = s;
  for (auto& [name, s] : by_part)
    if (Base(w, name, policy) != name) Join(m[Base(w, name, policy)], s);
  MProf out = m;
  for (auto& p : w.parts)
    if (by_part.count(p.name))
      for (auto& a : p.alias) out[a] = m[Base(w, p.name, policy)];
  return out;
}
inline MProf Expect(const World& w, const Samples& s, const Flags& f) {
  int64_t thr = Threshold(s, f);
  std::map<std::string, MSym> got;
  if (f.llc) {
    for (auto& p : w.parts)
      for (auto& [a, n] : s.addr) {
        if (w.At(a) != &p) continue;
        FS st = w.Of(a);
        if (!got.count(p.name)) {
          if (st.empty()) continue;
          Walk(&got[p.name], st, thr + 1, false);
        }
        if (MSym* leaf = Walk(&got[p.name], st, 0, false)) leaf->pos[Off(st[0])].targets["__llc_misses__"] += n;
      }
    return Elide(w, got, f.policy);
  }
  std::map<std::string, uint64_t> weight;
  std::map<std::string, Samples> per;
  for (auto& [r, n] : s.range)
    if (auto* p = w.At(r.first)) per[p->name].range[r] = n;
  for (auto& [r, n] : s.branch)
    if (auto* p = w.At(r.first)) per[p->name].branch[r] = n;
  for (auto& [a, n] : s.addr)
    if (auto* p = w.At(a)) per[p->name].addr[a] = n;
  for (auto& [a, n] : s.time)
    if (auto* p = w.At(a)) per[p->name].time[a] = n;
  for (auto& p : w.parts) weight[Base(w, p.name, f.policy)] += per[p.name].Total();
  auto emitted = [&](const std::string& name) { return static_cast<int64_t>(weight[Base(w, name, f.policy)]) > thr; };
  for (auto& p : w.parts)
    if (emitted(p.name)) got[p.name];
  for (auto& p : w.parts) {
    if (!emitted(p.name)) continue;
    MSym& m = got[p.name];
    const Samples& mine = per[p.name];
    for (auto& [a, t] : mine.time) m.ts = Earliest(m.ts, t);
    for (uint64_t a = p.start; a < p.end(); ++a) {
      FS st = w.Of(a);
      if (MSym* leaf = Walk(&m, st, 0, true)) leaf->pos[Off(st[0])];
    }
    if (f.lbr && mine.range.empty()) continue;
    std::map<uint64_t, uint64_t> at = mine.addr;
    if (f.lbr) {
      at.clear();
      for (auto& [r, n] : mine.range)
        for (uint64_t a = r.first; a <= r.second && a < p.end(); ++a) at[a] += n;
    }
    for (auto& [a, n] : at) {
      FS st = w.Of(a);
      if (st.empty()) continue;
      uint64_t v = n * st[0].dup;
      if (MSym* leaf = Walk(&m, st, v, true)) {
        MPos& q = leaf->pos[Off(st[0])];
        q.count = std::max(q.count, v);
      }
    }
    for (auto& [b, n] : mine.branch) {
      const Part* to = nullptr;
      for (auto& q : w.parts)
        if (q.start == b.second) to = &q;
      if (!to || !emitted(to->name)) continue;
      got[to->name].head += n;
      FS st = w.Of(b.first);
      if (MSym* leaf = Walk(&m, st, 0, true)) leaf->pos[Off(st[0])].targets[Base(w, to->name, f.policy)] += n;
    }
  }
  return Elide(w, got, f.policy);
}
inline World TheWorld(int kind, std::function<uint32_t(uint32_t, uint32_t)> encode = nullptr) {
  World w;
  w.parts = {{"main", "main", kText, 6, {}, 2},
             {"foo", "foo", kText + 8, 4, {}, 2},
             {"foo.cold", "foo", kText + 12, 3, {}, 0},
             {"bar.llvm.9", "bar", kText + 16, 4, {"baz"}, 2}};
  auto put = [&](int at, FS f) { w.stack[kText + at] = f; };
  for (auto& p : w.parts) {
    const char* fn = p.base == "main" ? "main" : p.base == "foo" ? "foo" : "bar";
    uint32_t start = p.base == "main" ? 10 : p.base == "foo" ? 30 : 40;
    for (uint64_t i = 0; i < p.size; ++i) put(p.start - kText + i, {{fn, p.base == "bar" ? "bar.c" : "main.c", start, uint32_t(start + 1 + i / 2 + (p.type ? 0 : 3)), 0}});
  }
  if (kind == 1) {
    FS call = {{"inl", "inc.h", 50, 52, 0}, {"main", "main.c", 10, 12, 0}};
    put(2, call);
    call[0].line = 53;
    put(3, call);
    put(4, {{"deep", "inc.h", 60, 61, 2}, {"inl", "inc.h", 50, 54, 1}, {"main", "main.c", 10, 12, 0}});
    put(9, {});                                                             // nothing known
    put(10, {{"foo", "main.c", 30, 0, 0}});                                 // no line
    put(16, {{"inl", "inc.h", 50, 51, 0}, {"bar", "bar.c", 40, 0, 0}});     // inlined nowhere
    put(17, {{"inl", "inc.h", 0, 51, 0}, {"bar", "bar.c", 40, 42, 0}});     // leaf without start
    put(12, {{"inl", "inc.h", 50, 51, 0}, {"foo", "main.c", 30, 35, 0}});
    put(11, {{"inl", "inc.h", 50, 51, 0}, {"foo", "main.c", 30, 35, 0}});   // shared by both parts
  }
  if (kind == 3) {
    put(2, {{"inl", "inc.h", 50, 52, 0}, {"main", "main.c", 10, 12, 0}});
    put(3, {{"inl", "inc.h", 50, 53, 0}, {"main", "main.c", 10, 12, 0}});
    put(1, {{"main", "main.c", 10, 11, 3}});
  }
  if (kind == 2 && encode) {
    put(0, {{"main", "main.c", 10, 11, encode(1, 3), 1, 3}});
    put(1, {{"main", "main.c", 10, 11, encode(1, 1), 1, 1}});
    put(8, {{"foo", "main.c", 30, 29, encode(2, 2), 2, 2}});  // before the function
    put(16, {{"inl", "inc.h", 50, 51, encode(0, 4), 0, 4}, {"bar", "bar.c", 40, 42, encode(3, 5), 3, 5}});
  }
  return w;
}
// The same binary with debug information (kinds 0 and 3; 3: with inl in main).
inline std::string Binary(const World& w, bool debug, const std::string& build_id = "") {
  using namespace dw;
  ElfGen g;
  g.etype = 2;
  ElfSegment data, code;
  data.flags = 4;
  data.offset = 0;
  data.vaddr = 0x400000;
  data.filesz = data.memsz = 0x800;
  code.offset = kFileOff;
  code.vaddr = kText;
  code.filesz = code.memsz = 0x1000;
  g.segs = {data, code};
  g.Add(".text", std::string(64, '\x90'));
  g.secs.back().flags = 6;
  g.secs.back().addr = kText;
  g.secs.back().align = 0x1000;
  std::vector<ElfSym> syms;
  for (auto& p : w.parts) {
    ElfSym s;
    s.value = p.start;
    s.size = p.size;
    s.type = p.type;
    s.name = p.name;
    syms.push_back(s);
    for (auto& a : p.alias) s.name = a, syms.push_back(s);
  }
  g.AddSymtab(".symtab", 2, ".strtab", syms);
  if (!build_id.empty()) {
    Buf n(false);
    n.u32(4).u32(build_id.size()).u32(3).raw(std::string("GNU\0", 4)).raw(build_id);
    g.Add(".note.gnu.build-id", n.s, 7);
    g.secs.back().align = 4;
  }
  if (!debug) return g.Build();
  dw::File f;
  dw::Unit u(&f, 4);
  Die* root = u.root;
  u.String(root, AT_name, F_string, "main.c");
  u.String(root, AT_comp_dir, F_string, "/comp");
  u.Addr(root, AT_low_pc, F_addr, 0);
  u.Unsigned(root, AT_stmt_list, F_sec_offset, 0);
  uint64_t cu_ranges = f.ranges.size();
  f.ranges.u64(kText).u64(kText + 6).u64(kText + 8).u64(kText + 15).u64(kText + 16).u64(kText + 20).u64(0).u64(0);
  u.Unsigned(root, AT_ranges, F_sec_offset, cu_ranges);
  std::map<std::string, Die*> abs;
  auto sub = [&](const char* name, int line) {
    Die* d = f.New(TAG_subprogram, root);
    u.String(d, AT_name, F_string, name);
    u.Unsigned(d, AT_decl_file, F_data1, 1);
    u.Unsigned(d, AT_decl_line, F_data1, line);
    return d;
  };
  std::map<std::string, int> starts = {{"main", 10}, {"foo", 30}, {"bar", 40}};
  for (auto& [name, line] : starts) {
    std::vector<const Part*> mine;
    for (auto& p : w.parts)
      if (p.base == name) mine.push_back(&p);
    Die* d = sub(name.c_str(), line);
    auto pc = [&](Die* d, std::vector<std::pair<uint64_t, uint64_t>> r) {
      if (r.size() == 1) {
        u.Addr(d, AT_low_pc, F_addr, r[0].first);
        u.Unsigned(d, AT_high_pc, F_data4, r[0].second - r[0].first);
      } else {
        uint64_t at = f.ranges.size();
        for (auto& x : r) f.ranges.u64(x.first).u64(x.second);
        f.ranges.u64(0).u64(0);
        u.Unsigned(d, AT_ranges, F_sec_offset, at);
      }
    };
    std::vector<std::pair<uint64_t, uint64_t>> r;
    for (auto* p : mine) {
      if (!r.empty() && r.back().second == p->start) r.back().second = p->end();
      else r.push_back({p->start, p->end()});
    }
    pc(d, r);
    // Inlined calls: runs of addresses with the same outer frame.
    std::vector<std::pair<uint64_t, uint64_t>> in;
    Frame call{};
    for (auto* p : mine)
      for (uint64_t a = p->start; a < p->end(); ++a) {
        FS s = w.Of(a);
        if (s.size() != 2) continue;
        call = s[1];
        if (!in.empty() && in.back().second == a) ++in.back().second;
        else in.push_back({a, a + 1});
      }
    if (in.empty()) continue;
    if (!abs["inl"]) {
      abs["inl"] = sub("inl", 50);
      u.Unsigned(abs["inl"], AT_inline, F_data1, 1);
    }
    Die* i = f.New(TAG_inlined_subroutine, d);
    u.Ref(i, AT_abstract_origin, F_ref4, abs["inl"]);
    pc(i, in);
    u.Unsigned(i, AT_call_file, F_data1, 1);
    u.Unsigned(i, AT_call_line, F_data1, call.line);
  }
  u.Finish();
  PatchRefs(&f);
  LineParams lp;
  LineProgram prog(lp);
  uint64_t last = 0;
  uint32_t line = 1;
  for (auto& [a, s] : w.stack) {
    if (s.empty()) continue;
    if (last && a != last + 1) {
      prog.AdvancePc(1);
      prog.EndSequence();
      last = 0;
    }
    if (!last) prog.SetAddress(a), line = 1;
    else prog.AdvancePc(1);
    prog.SetFile(std::string(s[0].file) == "main.c" ? 1 : std::string(s[0].file) == "inc.h" ? 2 : 3);
    prog.AdvanceLine(int64_t(s[0].line) - line);
    line = s[0].line;
    if (s[0].disc) prog.SetDiscriminator(s[0].disc);
    prog.Copy();
    last = a;
  }
  prog.AdvancePc(1);
  prog.EndSequence();
  Buf tab;
  tab.u8(0).str("main.c").u8(0).u8(0).u8(0).str("inc.h").u8(0).u8(0).u8(0).str("bar.c").u8(0).u8(0).u8(0).u8(0);
  f.line.raw(LineUnit(lp, tab.s, prog.bytes()));
  g.Add(".debug_info", f.info.s);
  g.Add(".debug_abbrev", f.abbrev.s);
  g.Add(".debug_line", f.line.s);
  g.Add(".debug_ranges", f.ranges.s);
  return g.Build();
}
}  // namespace cg
#endif
