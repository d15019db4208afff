// S07: programs whose units are split (-gsplit-dwarf) between the executable
// and .dwo files or a .dwp package.
#define VERIF_INLINE_LIB
#include "isolate.h"
#include "h_inline.cc"
namespace {
const TempDir& Dir() {
  static TempDir* d = new TempDir;
  return *d;
}
struct SectionSet {
  std::string info, abbrev, str_offsets, rnglists;
};
struct Part {
  uint64_t id;
  SectionSet s;
};
std::string DwoFile(const dw::File& d, int bits) {
  ElfGen g;
  g.bits = bits;
  g.machine = bits == 64 ? 62 : 3;
  g.etype = 1;
  g.Add(".debug_info.dwo", d.info.s);
  g.Add(".debug_abbrev.dwo", d.abbrev.s);
  if (d.str.size() > 1) g.Add(".debug_str.dwo", d.str.s);
  if (d.str_offsets.size()) g.Add(".debug_str_offsets.dwo", d.str_offsets.s);
  if (d.rnglists.size()) g.Add(".debug_rnglists.dwo", d.rnglists.s);
  return g.Build();
}
// A package in the format of GNU dwp (index version 2), or in the older format
// with a list of sections per unit (version 1).  `order` permutes the columns.
std::string DwpFile(int version, const std::vector<Part>& parts, const std::string& str, uint32_t slots, int order, int bits) {
  ElfGen g;
  g.bits = bits;
  g.machine = bits == 64 ? 62 : 3;
  g.etype = 1;
  std::vector<uint64_t> sig(slots, 0);
  std::vector<uint32_t> row(slots, 0);
  std::vector<uint32_t> val(parts.size());
  Buf pool;
  auto place = [&] {
    for (size_t i = 0; i < parts.size(); ++i) {
      uint64_t s = parts[i].id;
      uint32_t h = s & (slots - 1), step = ((s >> 32) & (slots - 1)) | 1;
      while (sig[h]) h = (h + step) & (slots - 1);
      sig[h] = s;
      row[h] = val[i];
    }
  };
  Buf idx;
  if (version == 1) {
    pool.u32(0);
    for (size_t i = 0; i < parts.size(); ++i) {
      val[i] = pool.size() / 4;
      std::vector<std::pair<std::string, const std::string*>> s = {{".debug_info.dwo", &parts[i].s.info}, {".debug_abbrev.dwo", &parts[i].s.abbrev}, {".debug_line.dwo", nullptr}};
      if (!parts[i].s.str_offsets.empty()) s.push_back({".debug_str_offsets.dwo", &parts[i].s.str_offsets});
      if (order) std::reverse(s.begin(), s.end());
      for (auto& x : s) pool.u32(g.Add(x.first, x.second ? *x.second : std::string("\0\0", 2)));
      pool.u32(0);
    }
    place();
    idx.u32(1).u32(0).u32(parts.size()).u32(slots);
  } else {
    Buf info, abbrev, so, line;
    std::vector<std::array<uint32_t, 4>> off, len;
    line.u32(0);
    for (size_t i = 0; i < parts.size(); ++i) {
      val[i] = i + 1;
      off.push_back({uint32_t(info.size()), uint32_t(abbrev.size()), uint32_t(so.size()), 0});
      len.push_back({uint32_t(parts[i].s.info.size()), uint32_t(parts[i].s.abbrev.size()), uint32_t(parts[i].s.str_offsets.size()), 4});
      info.raw(parts[i].s.info);
      abbrev.raw(parts[i].s.abbrev);
      so.raw(parts[i].s.str_offsets);
    }
    place();
    std::vector<int> cols = order == 0 ? std::vector<int>{0, 1, 2, 3} : order == 1 ? std::vector<int>{3, 2, 1, 0} : std::vector<int>{1, 0, 2};
    static const int ids[] = {1, 3, 6, 4};  // info, abbrev, str_offsets, line
    idx.u32(2).u32(cols.size()).u32(parts.size()).u32(slots);
    for (auto s : sig) idx.u64(s);
    for (auto r : row) idx.u32(r);
    for (int c : cols) idx.u32(ids[c]);
    for (auto& o : off)
      for (int c : cols) idx.u32(o[c]);
    for (auto& o : len)
      for (int c : cols) idx.u32(o[c]);
    g.Add(".debug_info.dwo", info.s);
    g.Add(".debug_abbrev.dwo", abbrev.s);
    if (so.size()) g.Add(".debug_str_offsets.dwo", so.s);
    g.Add(".debug_line.dwo", line.s);
  }
  if (version == 1) {
    for (auto s : sig) idx.u64(s);
    for (auto r : row) idx.u32(r);
    idx.raw(pool.s);
  }
  if (version == 9) idx.set(0, 9, 4);
  if (str.size() > 1) g.Add(".debug_str.dwo", str);
  g.Add(".debug_cu_index", idx.s);
  return g.Build();
}
enum Kind { kOrdinary, kSplit, kWrongId, kNoFile, kSkeletonInlines, kNotElf };
struct Prog {
  std::vector<CU> cus;
  std::vector<Kind> kind;
  std::vector<bool> packaged;
  int dwp = 0;  // 0: none, else index version (9: unknown)
  uint32_t slots = 4;
  int order = 0;
  bool empty_dwp = false;
};
void Run(mc::Ctx& c, Prog p, const std::string& label) {
  c.say(label);
  std::string dir = Dir().path;
  Gen g;
  std::vector<CU> model;
  std::vector<Part> parts;
  std::vector<std::string> files;
  dw::File shared;
  int bits = p.cus[0].e.addr_size * 8;
  for (size_t i = 0; i < p.cus.size(); ++i) {
    CU& cu = p.cus[i];
    cu.split = p.kind[i] != kOrdinary;
    cu.skeleton_inlines = p.kind[i] == kSkeletonInlines;
    cu.dwo_name = dir + "/u" + std::to_string(i) + ".dwo";
    dw::File d;
    if (p.packaged[i]) d.str = shared.str, d.str_at = shared.str_at;
    g.dwo = &d;
    g.Add(cu);
    PatchRefs(&d);
    if (p.packaged[i]) shared.str = d.str, shared.str_at = d.str_at;
    CU m = cu;
    if (cu.split) {
      bool found = p.packaged[i] ? p.dwp == 1 || p.dwp == 2 : true;
      if (p.kind[i] == kNoFile || p.kind[i] == kNotElf || p.kind[i] == kWrongId) found = false;
      if (p.kind[i] == kSkeletonInlines) {
        for (auto& t : m.tops) {
          t.kids.clear();
          t.cells = (1u << m.ncells) - 1;
        }
        for (auto& f : m.fns) f.linkage = f.name = "skeleton_" + f.name, f.decl_line = 0;
      } else if (!found) {
        m.tops.clear();
      }
      if (p.kind[i] == kWrongId) {  // the file is of another compilation
        if (cu.e.version == 5) d.info.set(cu.e.offset_size == 8 ? 24 : 12, cu.dwo_id + 1, 8);
        else d.info.s.replace(d.info.s.find([&] { Buf b; b.u64(cu.dwo_id); return b.s; }()), 8, [&] { Buf b; b.u64(cu.dwo_id + 1); return b.s; }());
      }
      if (p.packaged[i]) parts.push_back({cu.dwo_id, {d.info.s, d.abbrev.s, d.str_offsets.s, d.rnglists.s}});
      if (p.kind[i] == kNotElf) {
        WriteFile(cu.dwo_name, "not an object file");
        files.push_back(cu.dwo_name);
      } else if (p.kind[i] != kNoFile && !p.packaged[i]) {
        WriteFile(cu.dwo_name, DwoFile(d, bits));
        files.push_back(cu.dwo_name);
      }
    }
    model.push_back(m);
  }
  std::string prog = dir + "/prog";
  WriteFile(prog, g.Elf());
  files.push_back(prog);
  if (p.dwp) {
    WriteFile(prog + ".dwp", p.empty_dwp ? std::string("not an object file") : DwpFile(p.dwp, parts, shared.str.s, p.slots, p.order, bits));
    files.push_back(prog + ".dwp");
  }
  CheckFile(c, prog, model, p.cus, label, "split-stack");
  for (auto& f : files) unlink(f.c_str());
}
CU SplitUnit(const Enc& e, int i, int variant, uint64_t id) {
  CU cu = Fixed(e, kText + 0x1000 * i, variant);
  cu.dwo_id = id;
  if (i) {
    cu.comp_dir = "/comp" + std::to_string(i);
    for (auto& f : cu.fns) f.name += std::to_string(i), f.linkage += std::to_string(i), f.decl_line += i;
  }
  return cu;
}
Enc SplitEnc(int v) {
  Enc e = V(v);
  if (v == 5) e.name_form = F_strx, e.low_form = F_addrx, e.range_form = 1, e.rng_kind = 3, e.line_dir_form = F_line_strp;
  else e.name_form = F_GNU_str_index, e.low_form = F_GNU_addr_index;
  return e;
}
// One or two split units in every encoding.
std::vector<std::pair<std::string, std::function<bool(CU*)>>> SplitOptions() {
  std::vector<std::pair<std::string, std::function<bool(CU*)>>> o;
  auto add = [&](const std::string& n, std::function<bool(CU*)> f) { o.push_back({n, f}); };
  for (int f : {F_string, F_strp, F_strx1, F_strx2, F_strx3, F_strx4})
    add("name" + std::to_string(f), [f](CU* c) { if (f >= F_strx1 && c->e.version < 5) return false; c->e.name_form = f; return true; });
  for (int f : {F_strp, F_strx, F_strx1, F_strx2, F_strx3, F_strx4, F_GNU_str_index})
    add("cu" + std::to_string(f), [f](CU* c) {
      if (f == F_GNU_str_index ? c->e.version == 5 : f != F_strp && c->e.version < 5) return false;
      c->e.cu_form = f;
      return true;
    });
  for (int f : {F_addr, F_addrx1, F_addrx2, F_addrx3, F_addrx4})
    add("low" + std::to_string(f), [f](CU* c) { if (f != F_addr && c->e.version < 5) return false; c->e.low_form = f; return true; });
  for (int k : {0, 1, 2, 4, 5, 6}) add("rngkind" + std::to_string(k), [k](CU* c) { if (c->e.version < 5 && k > 1) return false; c->e.rng_kind = k; return true; });
  add("cu-base-0", [](CU* c) { c->e.cu_ranges = true; return true; });
  add("skeleton-list", [](CU* c) { c->skeleton_pc = 1; return true; });
  add("skeleton-listx", [](CU* c) { c->skeleton_pc = 2; return c->e.version == 5; });
  for (int k : {1, 2}) add("comp-dir" + std::to_string(k), [k](CU* c) { c->comp_dir_in = k; return true; });
  add("early-bases", [](CU* c) { c->early_bases = true; return true; });
  for (int k = 1; k <= 3; ++k) add("origin" + std::to_string(k), [k](CU* c) { c->e.origin = k; return true; });
  add("linkage1", [](CU* c) { c->e.linkage = 1; return true; });
  add("abstract-last", [](CU* c) { c->e.abstract_last = true; return true; });
  add("blocks", [](CU* c) { c->e.blocks = true; return true; });
  add("pc-at-end", [](CU* c) { c->e.pc_at_end = true; return true; });
  add("pad130", [](CU* c) { c->e.pad = 130; return true; });
  add("extra", [](CU* c) { c->e.extra = true; return true; });
  add("addr4", [](CU* c) { c->e.addr_size = 4; return true; });
  add("dwarf64", [](CU* c) { c->e.offset_size = 8; return true; });
  for (int k = 1; k <= 3; ++k) add("types" + std::to_string(k), [k](CU* c) { c->e.types = k; return c->e.version == 5; });
  add("wide", [](CU* c) { return c->e.addr_size == 8; });
  return o;
}
void SplitEncodings(mc::Ctx& c, int deviations, int ncu) {
  static auto opts = SplitOptions();
  int v = c.of({5, 4}), variant = c.pick(2);
  Prog p;
  p.dwp = v == 4 ? c.of({0, 2, 1}) : 0;
  std::string l = "v" + std::to_string(v) + " variant" + std::to_string(variant) + " dwp" + std::to_string(p.dwp);
  std::vector<int> picks;
  int prev = -1;
  for (int d = 0; d < deviations; ++d) {
    int k = prev + 1 + c.pick(int(opts.size()) - prev);
    if (k >= int(opts.size())) break;
    picks.push_back(k);
    l += " " + opts[k].first;
    prev = k;
  }
  Wide(!picks.empty() && opts[picks.back()].first == "wide");
  for (int i = 0; i < ncu; ++i) {
    CU cu = SplitUnit(SplitEnc(v), i, variant, 0x1234567800000000ull * (i + 1) + 77 * i + 5);
    for (int k : picks)
      if (!opts[k].second(&cu)) c.prune();
    if (ncu > 1) l += "";
    p.cus.push_back(cu);
    p.kind.push_back(kSplit);
    p.packaged.push_back(p.dwp != 0);
  }
  Run(c, p, "@split-encodings units" + std::to_string(ncu) + " " + l);
}
// Programs of several units, each ordinary or split in one of the ways.
void Mixes(mc::Ctx& c) {
  int v = c.of({5, 4});
  int n = 1 + c.pick(mc::tier(3, 4));
  Prog p;
  p.dwp = v == 4 ? c.of({0, 1, 2, 9}) : c.of({0, 9});
  p.slots = 8;
  Wide(n < 3 && c.flip());
  std::string l = "v" + std::to_string(v) + " dwp" + std::to_string(p.dwp);
  bool any = false;
  for (int i = 0; i < n; ++i) {
    Kind k = Kind(c.pick(6));
    if (n >= 3 && k == kNotElf) c.prune();
    int ord = k == kOrdinary ? c.pick(3) : 0;
    Enc e = k == kOrdinary ? V(ord ? 5 : 4) : SplitEnc(v);
    if (k == kOrdinary && e.version == 5) e.range_form = 1, e.rng_kind = 2, e.line_dir_form = F_line_strp, e.name_form = F_strp, e.low_form = ord == 2 ? F_addrx : F_addr;
    bool pk = k != kOrdinary && k != kNoFile && k != kNotElf && p.dwp && c.flip();
    any = any || pk;
    CU cu = SplitUnit(e, i, i % 2, 0x1234567800000000ull * (i + 1) + 77 * i + 5);
    p.cus.push_back(cu);
    p.kind.push_back(k);
    p.packaged.push_back(pk);
    l += " " + std::to_string(k) + (pk ? "p" : "") + (k == kOrdinary ? "v" + std::to_string(e.version) + (ord == 2 ? "x" : "") : "");
  }
  if (p.dwp && !any) p.empty_dwp = c.flip();
  Run(c, p, "@split-mix " + l + (p.empty_dwp ? " bad-package" : ""));
}
// Packages: every placement of up to n units in the hash table.
void Packages(mc::Ctx& c) {
  Wide(false);
  Prog p;
  p.dwp = c.of({2, 1});
  p.slots = c.of({4, 8});
  int n = 1 + c.pick(mc::tier(3, 4));
  if (n >= int(p.slots)) c.prune();
  p.order = c.pick(p.dwp == 2 ? 3 : 2);
  std::string l = "dwp" + std::to_string(p.dwp) + " slots" + std::to_string(p.slots) + " order" + std::to_string(p.order);
  int absent = c.pick(n + 1);  // this unit is not in the package and has no file
  for (int i = 0; i < n; ++i) {
    uint64_t low = c.pick(4), high = c.pick(2) * 2;
    uint64_t id = (uint64_t(0x1000 * (i + 1)) + high) << 32 | uint64_t(0x10 * (i + 1)) << 8 | low;
    p.cus.push_back(SplitUnit(SplitEnc(4), i, i % 2, id));
    p.packaged.push_back(i + 1 != absent);
    p.kind.push_back(i + 1 == absent ? kNoFile : kSplit);
    char b[40];
    snprintf(b, 40, " %llx%s", (unsigned long long)id, i + 1 == absent ? "-" : "");
    l += b;
  }
  Run(c, p, "@split-package " + l);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"split-encodings", [](mc::Ctx& c) { SplitEncodings(c, mc::tier(2, 3), 1); }, 4},
                   {"split-encodings-two", [](mc::Ctx& c) { SplitEncodings(c, mc::tier(2, 3), 2); }, 4},
                   {"split-mixes", Mixes, 5},
                   {"split-packages", Packages, 5}});
}
