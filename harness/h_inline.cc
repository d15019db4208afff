// S04 (GCOV build) and S08 (LLVM build): the inline stack reported for every
// address of a generated binary.
#include <filesystem>
#include <functional>
#include <memory>
#include "mc.h"
#include "dwarfgen.h"
#include "elfgen.h"
#include "linegen.h"
#include "addr2line.h"
#if defined(HAVE_LLVM)
#include "addr2cu.h"
#include "isolate.h"
#include "llvm/Object/ELFObjectFile.h"
#include "llvm/Support/MemoryBuffer.h"
#endif
#include "source_info.h"
using namespace devtools_crosstool_autofdo;
using namespace dw;
namespace {
#if defined(HAVE_LLVM)
constexpr bool kLlvm = true;
#else
constexpr bool kLlvm = false;
#endif
// Where the code is: in most runs below 4 GB, in some above.
uint64_t kSeg = 0x400000, kText = 0x401000, kOther = 0x501000;
uint32_t kLine = 0;  // added to every source line
void Wide(bool wide) {
  kSeg = wide ? 0x5555fff00000 : 0x400000;
  kText = kSeg + 0x1000;
  kOther = kSeg + 0x101000;
  kLine = wide ? 0x13456 : 0;
}
constexpr int kCell = 8;
struct Fn {
  std::string name, linkage;
  uint32_t decl_line;
};
struct Inst {
  int fn = 0;
  uint32_t cells = 0;  // bit set of cells covered
  uint64_t base = kText;
  bool inlined = false;
  int call_file = 1;
  uint32_t call_line = 0, call_disc = 0;
  int range_style = 0;  // 0: low/high when contiguous, 1: range list, 2: range list with one entry per cell
  std::vector<Inst> kids;
  bool Covers(uint64_t a, int ncells) const { return a >= base && a < base + uint64_t(ncells) * kCell && (cells >> ((a - base) / kCell) & 1); }
};
struct Enc {
  int version = 4, addr_size = 8, offset_size = 4;
  int name_form = F_string, cu_form = F_string, low_form = F_addr, high_form = F_data8;
  int range_form = 0;  // 0: sec_offset (data4 before v4), 1: rnglistx
  int rng_kind = 0;    // v5: see PutRng
  int ref_form = F_ref4, line_form = F_data2, decl_form = F_data1, disc_form = F_data1, file_form = F_data1;
  int linkage = 0;     // 0: AT_linkage_name, 1: AT_MIPS_linkage_name, 2: only AT_name, 3: linkage before name
  int origin = 0;      // 0: concrete out-of-line from abstract, 1: direct, 2: specification, 3: abstract with specification
  bool abstract_last = false, blocks = false, extra = false, noise = false, pc_at_end = false, cu_ranges = false, attr_order = false;
  int pad = 0;
  bool call_file0 = false, bases_last = false, cu_list = false, cu_list_early = false, md5 = false;
  int line_dir_form = F_string;
  int partial = 0;     // abstract instances in a partial unit (as dwz makes), 1: before the unit, 2: after it
  int types = 0;       // v5: type units, 1: before the unit, 2: after it, 3: both
  std::string Show() const {
    char b[300];
    snprintf(b, 300, "v%d a%d o%d name%x cu%x low%x high%x rf%d rk%d ref%x line%x decl%x disc%x file%x lk%d or%d al%d bl%d ex%d no%d pe%d cr%d ao%d pad%d cf%d ldf%x bl%d cl%d cle%d md%d", version, addr_size, offset_size,
             name_form, cu_form, low_form, high_form, range_form, rng_kind, ref_form, line_form, decl_form, disc_form, file_form, linkage, origin, abstract_last, blocks, extra, noise, pc_at_end, cu_ranges,
             attr_order, pad, call_file0, line_dir_form, bases_last, cu_list, cu_list_early, md5);
    return b;
  }
};
struct Fix {
  std::string label;
};
struct CU {
  Enc e;
  std::string comp_dir = "/comp";
  int ncells = 4;
  std::vector<Fn> fns;
  std::vector<Inst> tops;
  struct R { uint64_t addr; int file; uint32_t line, disc; };
  // Split units.
  uint64_t dwo_id = 0;
  bool split = false, skeleton_inlines = false;
  std::string dwo_name;
  int skeleton_pc = 0;   // 0: low/high or low only, 1: range list by offset, 2: by index (version 5)
  int comp_dir_in = 0;   // 0: skeleton, 1: both, 2: full unit only
  bool early_bases = false;
  std::vector<std::vector<R>> seqs;  // rows; last element of each is the end address
};
using R = CU::R;
std::vector<std::pair<uint64_t, uint64_t>> Ranges(const Inst& i, int ncells, bool per_cell) {
  std::vector<std::pair<uint64_t, uint64_t>> r;
  for (int k = 0; k < ncells; ++k)
    if (i.cells >> k & 1) {
      uint64_t a = i.base + k * kCell;
      if (!per_cell && !r.empty() && r.back().second == a) r.back().second += kCell;
      else r.push_back({a, a + kCell});
    }
  return r;
}
// Directory/file tables of every generated unit.
const char* FileName(int f) { return f <= 1 ? "main.c" : f == 2 ? "inc.h" : "abs.h"; }
std::string DirOf(const CU& cu, int f) { return f <= 1 ? cu.comp_dir : f == 2 ? (cu.comp_dir.empty() ? "" : cu.comp_dir + "/") + "include" : "/usr/include"; }

class Gen {
 public:
  dw::File f;
  dw::File* dwo = nullptr;  // where the next split unit goes
  void Add(CU& cu) {
    const Enc& e = cu.e;
    f.addr_size = e.addr_size;
    f.offset_size = e.offset_size;
    dw::File* df = cu.split ? dwo : &f;
    df->addr_size = e.addr_size;
    df->offset_size = e.offset_size;
    ranges_base_ = 0;
    if (cu.split && e.version < 5) {
      if (f.ranges.size()) ranges_base_ = f.ranges.size();
      else f.ranges.u(0, e.addr_size).u(0, e.addr_size), ranges_base_ = f.ranges.size();
    }
    if (e.types & 1) TypeUnit(df, cu, 1);
    Unit u(df, e.version, &f);
    u.pad_index = e.pad;
    if (cu.split) u.unit_type = 5, u.dwo_id = cu.dwo_id;
    std::vector<Die*> abstract(cu.fns.size(), nullptr);
    uint64_t cu_base = cu.tops.empty() ? 0 : cu.tops[0].base;
    bool single = cu.tops.size() == 1 && !e.cu_ranges && Ranges(cu.tops[0], cu.ncells, false).size() == 1;
    // rnglists of this unit
    std::vector<std::string> lists;
    Die* root = u.root;
    bool idx = e.name_form == F_strx || (e.name_form >= F_strx1 && e.name_form <= F_strx4) || e.cu_form == F_strx || e.cu_form >= F_strx1;
    bool adx = e.low_form >= F_addrx || e.rng_kind >= 3;
    bool rlx = e.range_form == 1;
    auto bases = [&] {
      if (e.version != 5 || cu.split) return;
      if (idx) u.Unsigned(root, AT_str_offsets_base, F_sec_offset, u.str_base);
      if (adx) u.Unsigned(root, AT_addr_base, F_sec_offset, u.addr_base);
      if (rlx) rng_base_attr_ = root->attrs.size(), u.Unsigned(root, AT_rnglists_base, F_sec_offset, 0);
    };
    uint64_t base_for_lists = single || !e.cu_ranges ? cu_base : 0;
    auto cu_list = [&] {
      std::vector<std::pair<uint64_t, uint64_t>> all;
      for (auto& t : cu.tops)
        for (auto& r : Ranges(t, cu.ncells, false)) all.push_back(r);
      RangeList(&u, root, e, all, base_for_lists, &lists);
    };
    bool want_list = !single && !cu.split && (kLlvm || e.cu_list || e.cu_list_early);
    if (want_list && e.cu_list_early) cu_list();
    if (e.extra) u.String(root, AT_producer, e.cu_form, "gcc"), u.Unsigned(root, AT_language, F_data1, 12);
    if (!e.attr_order) bases();
    u.String(root, AT_name, e.cu_form, "main.c");
    if (cu.split && e.version < 5) u.Unsigned(root, AT_GNU_dwo_id, F_data8, cu.dwo_id);
    if (!cu.comp_dir.empty() && (!cu.split || cu.comp_dir_in)) u.String(root, AT_comp_dir, e.cu_form, cu.comp_dir);
    if (e.attr_order && !e.bases_last) bases();
    if (cu.split) {
    } else if (single) {
      u.Addr(root, AT_low_pc, e.low_form, cu_base);
      High(&u, root, e, cu_base, Ranges(cu.tops[0], cu.ncells, false)[0].second);
    } else {
      u.Addr(root, AT_low_pc, F_addr, e.cu_ranges ? 0 : cu_base);
    }
    if (want_list && !e.cu_list_early) cu_list();
    if (!cu.split) u.Unsigned(root, AT_stmt_list, e.version >= 4 ? F_sec_offset : F_data4, f.line.size());
    if (e.attr_order && e.bases_last) bases();
    if (e.noise) {
      Die* t = f.New(TAG_base_type, root);
      u.String(t, AT_name, e.name_form, "int");
      u.Unsigned(t, 0x0b, F_data1, 4);
      Die* s = f.New(TAG_structure_type, root);
      u.String(s, AT_name, e.name_form, "S");
      u.Block(s, 0x38, F_block1, "xyz");
      Die* m = f.New(0x0d, s);
      u.Unsigned(m, AT_const_value, F_sdata, -5);
      u.Unsigned(m, 0x38, F_udata, 1000);
      u.Unsigned(m, AT_type, F_ref1, 1);
      u.Unsigned(m, 0x88, F_data16, 7);
      u.Unsigned(m, 0x8a, F_ref_sig8, 7);
      u.Block(m, AT_location, F_exprloc, std::string("\x91\x00", 2));
      u.Block(m, AT_location, F_block2, std::string(300, 'q'));
      u.Block(m, AT_location, F_block4, "1234");
      u.Block(m, AT_location, F_block, "12345");
      u.Unsigned(m, AT_declaration, F_flag, 1);
      u.Unsigned(m, AT_external, F_flag_present, 1);
      u.Unsigned(m, AT_decl_line, F_implicit_const, 77);
    }
    auto abstracts = [&] {
      for (size_t i = 0; i < cu.fns.size(); ++i)
        if (abstract[i]) continue;
        else abstract[i] = f.New(0);
    };
    abstracts();
    std::unique_ptr<Unit> pu;
    Unit* au = &u;
    Enc ae = e;
    if (e.partial) {
      pu = std::make_unique<Unit>(&f, e.version);
      pu->unit_type = 3;
      pu->root->tag = 0x3c;  // DW_TAG_partial_unit
      if (ae.name_form != F_string) ae.name_form = F_strp;
      if (idx) u.StrIndex("unused");  // the table the unit names exists
      pu->Unsigned(pu->root, AT_stmt_list, e.version >= 4 ? F_sec_offset : F_data4, f.line.size());
      pu->String(pu->root, AT_comp_dir, F_string, cu.comp_dir);
      u.Ref(f.New(0x3d, root), 0x18, F_ref_addr, pu->root);  // DW_TAG_imported_unit, DW_AT_import
      au = pu.get();
    }
    Die* aroot = au->root;
    // Abstract instances (for functions that are inlined or concrete copies).
    auto emit_abstract = [&](size_t i) {
      Die* d = abstract[i];
      if (e.origin == 3) {
        Die* s = f.New(TAG_structure_type, aroot);
        au->String(s, AT_name, ae.name_form, "K");
        Die* decl = f.New(TAG_subprogram, s);
        Names(au, decl, ae, cu.fns[i]);
        au->Unsigned(decl, AT_decl_line, e.decl_form, 1);
        au->Unsigned(decl, AT_declaration, F_flag_present, 1);
        d->tag = TAG_subprogram;
        aroot->kids.push_back(d);
        au->Ref(d, AT_specification, e.ref_form, decl);
        if (cu.fns[i].decl_line) au->Unsigned(d, AT_decl_line, Fit(e.decl_form, cu.fns[i].decl_line), cu.fns[i].decl_line);
      } else {
        d->tag = TAG_subprogram;
        aroot->kids.push_back(d);
        Names(au, d, ae, cu.fns[i]);
        au->Unsigned(d, AT_decl_file, F_data1, 1);
        if (cu.fns[i].decl_line) au->Unsigned(d, AT_decl_line, Fit(e.decl_form, cu.fns[i].decl_line), cu.fns[i].decl_line);
      }
      au->Unsigned(d, AT_inline, F_data1, 1);
      if (e.noise) {
        Die* p = f.New(TAG_formal_parameter, d);
        au->String(p, AT_name, ae.name_form, "arg");
      }
    };
    std::vector<bool> need(cu.fns.size(), false);
    std::function<void(const Inst&)> mark = [&](const Inst& i) {
      if (i.inlined || e.origin == 0 || e.origin == 3) need[i.fn] = true;
      for (auto& k : i.kids) mark(k);
    };
    for (auto& t : cu.tops) mark(t);
    if (!e.abstract_last)
      for (size_t i = 0; i < cu.fns.size(); ++i)
        if (need[i]) emit_abstract(i);
    std::function<void(Die*, const Inst&)> put = [&](Die* parent, const Inst& in) {
      if (e.blocks) {
        parent = f.New(TAG_lexical_block, parent);
        u.Addr(parent, AT_low_pc, F_addr, in.base);
        u.Unsigned(parent, AT_high_pc, F_data4, 1);
        if (in.inlined) parent = f.New(TAG_lexical_block, parent);
      }
      Die* d = f.New(in.inlined ? TAG_inlined_subroutine : TAG_subprogram, parent);
      if (in.inlined || e.origin == 0 || e.origin == 3) {
        u.Ref(d, AT_abstract_origin, e.ref_form, abstract[in.fn]);
      } else if (e.origin == 1) {
        Names(&u, d, e, cu.fns[in.fn]);
        u.Unsigned(d, AT_decl_file, F_data1, 1);
        if (cu.fns[in.fn].decl_line) u.Unsigned(d, AT_decl_line, Fit(e.decl_form, cu.fns[in.fn].decl_line), cu.fns[in.fn].decl_line);
      } else {  // 2: definition of a member declared elsewhere
        Die* s = f.New(TAG_structure_type, root);
        Die* decl = f.New(TAG_subprogram, s);
        Names(&u, decl, e, cu.fns[in.fn]);
        u.Unsigned(decl, AT_decl_line, F_data1, 2);
        u.Unsigned(decl, AT_declaration, F_flag_present, 1);
        u.Ref(d, AT_specification, e.ref_form, decl);
        if (cu.fns[in.fn].decl_line) u.Unsigned(d, AT_decl_line, Fit(e.decl_form, cu.fns[in.fn].decl_line), cu.fns[in.fn].decl_line);
      }
      auto r = Ranges(in, cu.ncells, in.range_style == 2);
      auto pc = [&] {
        if (r.size() == 1 && in.range_style == 0) {
          u.Addr(d, AT_low_pc, e.low_form, r[0].first);
          High(&u, d, e, r[0].first, r[0].second);
        } else {
          RangeList(&u, d, e, r, base_for_lists, &lists);
        }
      };
      if (!e.pc_at_end) pc();
      if (e.noise && in.inlined) u.Unsigned(d, AT_call_column, F_data1, 9);
      if (in.inlined) {
        int cf = e.call_file0 && in.call_file == 1 ? 0 : in.call_file;
        u.Unsigned(d, AT_call_file, e.file_form, cf);
        u.Unsigned(d, AT_call_line, Fit(e.line_form, in.call_line), in.call_line);
        if (in.call_disc) u.Unsigned(d, AT_GNU_discriminator, Fit(e.disc_form, in.call_disc), in.call_disc);
      }
      if (e.pc_at_end) pc();
      for (auto& k : in.kids) put(d, k);
      if (e.noise) {
        Die* v = f.New(TAG_variable, d);
        u.String(v, AT_name, e.name_form, "local");
        u.Block(v, AT_location, F_exprloc, "xy");
      }
    };
    for (auto& t : cu.tops) put(root, t);
    if (e.abstract_last)
      for (size_t i = 0; i < cu.fns.size(); ++i)
        if (need[i]) emit_abstract(i);
    // range lists of a v5 unit
    if (e.version == 5 && !lists.empty()) {
      Buf c(f.big);
      uint64_t arr = rlx ? lists.size() * e.offset_size : 0, total = 0;
      for (auto& l : lists) total += l.size();
      uint64_t len = 8 + arr + total;
      if (e.offset_size == 8) c.u32(0xffffffff).u64(len);
      else c.u32(len);
      c.u16(5).u8(e.addr_size).u8(0).u32(rlx ? lists.size() : 0);
      uint64_t rb = df->rnglists.size() + c.size(), o = arr;
      if (rlx && cu.split) {
        for (auto& l : lists) {
          c.u(o, e.offset_size);
          o += l.size();
        }
      } else if (rlx) {
        for (auto& l : lists) {
          c.u(o, e.offset_size);
          o += l.size();
        }
        Buf t(f.big);
        t.u(rb, e.offset_size);
        root->attrs[rng_base_attr_].bytes = t.s;
      } else {
        // section offsets were written relative to the contribution
        for (auto& p : rng_fix_) {
          uint64_t pos = rb;
          for (int i = 0; i < p.second; ++i) pos += lists[i].size();
          Buf t(f.big);
          t.u(pos, e.offset_size);
          p.first.first->attrs[p.first.second].bytes = t.s;
        }
      }
      for (auto& l : lists) c.raw(l);
      df->rnglists.raw(c.s);
    }
    rng_fix_.clear();
    if (e.partial == 1) pu->Finish();
    u.Finish();
    if (e.partial == 2) pu->Finish();
    if (e.types & 2) TypeUnit(df, cu, 2);
    if (cu.split) Skeleton(cu, u, cu_base, single);
    Lines(cu);
  }
  // A relocatable object whose functions are in .text at address 0; addresses
  // from kText on are relocated against it, those from kOther on against
  // another code section.
  std::string Module(bool other_first) {
    PatchRefs(&f);
    ElfGen g;
    g.etype = 1;
    auto code = [&](const char* name) {
      int i = g.Add(name, std::string(64, '\x90'));
      g.secs.back().flags = 6;
      return i;
    };
    int other = 0, text = 0;
    if (other_first) other = code(".init.text"), text = code(".text");
    else text = code(".text"), other = code(".init.text");
    auto debug = [&](const std::string& name, Buf b) {
      Buf rela;
      int n = 0;
      for (size_t i = 0; i + 8 <= b.size(); ++i) {
        uint64_t v = 0;
        for (int k = 7; k >= 0; --k) v = v << 8 | static_cast<unsigned char>(b.s[i + k]);
        bool t = v >= kText && v < kText + 64, o = v >= kOther && v < kOther + 64;
        if (!t && !o) continue;
        b.set(i, 0, 8);
        rela.u64(i).u64((t ? 1ull : 2ull) << 32 | 1).u64(v - (t ? kText : kOther));
        ++n;
      }
      int at = g.Add(name, b.s);
      if (!n) return;
      g.Add(".rela" + name, rela.s, 4);
      g.secs.back().info = at;
      g.secs.back().entsize = 24;
      g.secs.back().align = 8;
    };
    debug(".debug_info", f.info);
    g.Add(".debug_abbrev", f.abbrev.s);
    debug(".debug_line", f.line);
    if (f.str.size() > 1) g.Add(".debug_str", f.str.s);
    if (f.line_str.size() > 1) g.Add(".debug_line_str", f.line_str.s);
    if (f.ranges.size()) debug(".debug_ranges", f.ranges);
    if (f.rnglists.size()) debug(".debug_rnglists", f.rnglists);
    ElfSym a, b;
    a.type = b.type = 3;
    a.bind = b.bind = 0;
    a.shndx = text;
    b.shndx = other;
    int tab = g.AddSymtab(".symtab", 2, ".strtab", {a, b});
    g.secs[tab - 1].info = 3;
    for (auto& x : g.secs)
      if (x.type == 4) x.link = tab;
    return g.Build();
  }
  std::string Elf(bool with_info = true) {
    PatchRefs(&f);
    ElfGen g;
    g.bits = f.addr_size == 8 ? 64 : 32;
    g.machine = g.bits == 64 ? 62 : 3;
    ElfSegment seg;
    seg.vaddr = kSeg;
    seg.filesz = seg.memsz = 0x10000;
    g.segs.push_back(seg);
    g.Add(".text", std::string(64, '\x90'));
    if (with_info) {
      g.Add(".debug_info", f.info.s);
      g.Add(".debug_abbrev", f.abbrev.s);
    }
    g.Add(".debug_line", f.line.s);
    if (f.str.size() > 1) g.Add(".debug_str", f.str.s);
    if (f.line_str.size() > 1) g.Add(".debug_line_str", f.line_str.s);
    if (f.ranges.size()) g.Add(".debug_ranges", f.ranges.s);
    if (f.rnglists.size()) g.Add(".debug_rnglists", f.rnglists.s);
    if (f.addr.size()) g.Add(".debug_addr", f.addr.s);
    if (f.str_offsets.size()) g.Add(".debug_str_offsets", f.str_offsets.s);
    return g.Build();
  }

 private:
  size_t rng_base_attr_ = 0;
  uint64_t ranges_base_ = 0;
  // The unit in the executable that stands for a split unit.
  void Skeleton(const CU& cu, const Unit& full, uint64_t cu_base, bool single) {
    const Enc& e = cu.e;
    Unit u(&f, e.version);
    u.unit_type = 4;
    u.dwo_id = cu.dwo_id;
    Die* root = u.root;
    if (e.version == 5) root->tag = TAG_skeleton_unit;
    std::vector<std::pair<uint64_t, uint64_t>> all;
    for (auto& t : cu.tops)
      for (auto& r : Ranges(t, cu.ncells, false)) all.push_back(r);
    uint64_t base = single || !e.cu_ranges ? cu_base : 0;
    bool list = cu.skeleton_pc != 0;
    uint64_t rng_at = 0, rng_base = 0;
    if (list) {
      if (e.version < 5) {
        rng_at = f.ranges.size();
        for (auto& p : all) f.ranges.u(p.first - base, e.addr_size).u(p.second - base, e.addr_size);
        f.ranges.u(0, e.addr_size).u(0, e.addr_size);
      } else {
        Buf l(f.big), c(f.big);
        for (auto& p : all) l.u8(7).u(p.first, e.addr_size).uleb(p.second - p.first);
        l.u8(0);
        uint64_t len = 8 + e.offset_size + l.size();
        if (e.offset_size == 8) c.u32(0xffffffff).u64(len);
        else c.u32(len);
        c.u16(5).u8(e.addr_size).u8(0).u32(1);
        rng_base = f.rnglists.size() + c.size();
        c.u(e.offset_size, e.offset_size).raw(l.s);
        rng_at = rng_base + e.offset_size;
        f.rnglists.raw(c.s);
      }
    }
    auto bases = [&] {
      if (!full.addrs.empty()) u.Unsigned(root, e.version == 5 ? AT_addr_base : AT_GNU_addr_base, F_sec_offset, full.addr_base);
      if (e.version < 5 && ranges_base_) u.Unsigned(root, AT_GNU_ranges_base, F_sec_offset, ranges_base_);
      if (list && e.version == 5 && cu.skeleton_pc == 2) u.Unsigned(root, AT_rnglists_base, F_sec_offset, rng_base);
    };
    if (cu.early_bases) bases();
    u.Unsigned(root, AT_stmt_list, F_sec_offset, f.line.size());
    if (!cu.comp_dir.empty() && cu.comp_dir_in != 2) u.String(root, AT_comp_dir, F_strp, cu.comp_dir);
    u.String(root, e.version == 5 ? AT_dwo_name : AT_GNU_dwo_name, F_strp, cu.dwo_name);
    if (e.version < 5) u.Unsigned(root, AT_GNU_dwo_id, F_data8, cu.dwo_id);
    u.Addr(root, AT_low_pc, F_addr, base);
    if (list) u.Unsigned(root, AT_ranges, cu.skeleton_pc == 2 ? F_rnglistx : F_sec_offset, cu.skeleton_pc == 2 ? 0 : rng_at);
    else if (single) u.Unsigned(root, AT_high_pc, F_data8, Ranges(cu.tops[0], cu.ncells, false)[0].second - cu_base);
    if (!cu.early_bases) bases();
    if (cu.skeleton_inlines) {  // -fsplit-dwarf-inlining: functions in the skeleton as well
      for (auto& t : cu.tops) {
        Die* d = f.New(TAG_subprogram, root);
        u.String(d, AT_name, F_strp, "skeleton_" + cu.fns[t.fn].name);
        u.Addr(d, AT_low_pc, F_addr, t.base);
        u.Unsigned(d, AT_high_pc, F_data4, cu.ncells * kCell);
      }
    }
    u.Finish();
  }
  // What a compiler makes of a class with -fdebug-types-section.
  void TypeUnit(dw::File* df, const CU& cu, uint64_t n) {
    Unit u(df, 5);
    u.unit_type = cu.split ? 6 : 2;
    u.dwo_id = 0x7799000000000000ull + cu.dwo_id + n;
    u.root->tag = 0x41;  // DW_TAG_type_unit
    u.Unsigned(u.root, AT_language, F_data1, 0x1a);
    Die* st = df->New(0x13, u.root);
    u.String(st, AT_name, F_string, "Class");
    for (int i = 0; i < 2; ++i) {
      Die* m = df->New(TAG_subprogram, st);
      u.String(m, AT_name, F_string, i ? "method" : "other");
      u.Unsigned(m, AT_decl_line, F_data1, 9 + i);
      u.Unsigned(m, AT_declaration, F_flag_present, 1);
    }
    u.Finish();
  }
  std::vector<std::pair<std::pair<Die*, size_t>, int>> rng_fix_;
  static int Fit(int form, uint64_t v) {
    if (form == F_data1 && v > 255) form = F_data2;
    if (form == F_data2 && v > 65535) form = F_data4;
    return form;
  }
  void Names(Unit* u, Die* d, const Enc& e, const Fn& fn) {
    if (e.linkage == 3) u->String(d, AT_linkage_name, e.name_form, fn.linkage);
    u->String(d, AT_name, e.name_form, fn.name);
    if (e.linkage == 0) u->String(d, AT_linkage_name, e.name_form, fn.linkage);
    if (e.linkage == 1) u->String(d, AT_MIPS_linkage_name, e.name_form, fn.linkage);
  }
  void High(Unit* u, Die* d, const Enc& e, uint64_t lo, uint64_t hi) {
    if (e.high_form == F_addr || e.version < 4) u->Addr(d, AT_high_pc, F_addr, hi);
    else u->Unsigned(d, AT_high_pc, e.high_form, hi - lo);
  }
  void RangeList(Unit* u, Die* d, const Enc& e, const std::vector<std::pair<uint64_t, uint64_t>>& r, uint64_t base, std::vector<std::string>* lists) {
    if (e.version < 5) {
      u->Unsigned(d, AT_ranges, e.version >= 4 ? F_sec_offset : F_data4, f.ranges.size() - ranges_base_);
      uint64_t max = e.addr_size == 4 ? 0xffffffffull : ~0ull;
      uint64_t b = base;
      if (e.rng_kind % 2) {
        b = kSeg;
        f.ranges.u(max, e.addr_size).u(b, e.addr_size);
      }
      for (auto& p : r) f.ranges.u(p.first - b, e.addr_size).u(p.second - b, e.addr_size);
      f.ranges.u(0, e.addr_size).u(0, e.addr_size);
      return;
    }
    Buf l(f.big);
    for (size_t i = 0; i < r.size(); ++i) {
      auto& p = r[i];
      switch (e.rng_kind) {
        case 0: l.u8(4).uleb(p.first - base).uleb(p.second - base); break;
        case 1:
          if (i == 0) l.u8(5).u(kSeg, e.addr_size);
          l.u8(4).uleb(p.first - kSeg).uleb(p.second - kSeg);
          break;
        case 2: l.u8(7).u(p.first, e.addr_size).uleb(p.second - p.first); break;
        case 3: l.u8(3).uleb(u->AddrIndex(p.first)).uleb(p.second - p.first); break;
        case 4:
          if (i == 0) l.u8(1).uleb(u->AddrIndex(r[0].first));
          l.u8(4).uleb(p.first - r[0].first).uleb(p.second - r[0].first);
          break;
        case 5: l.u8(2).uleb(u->AddrIndex(p.first)).uleb(u->AddrIndex(p.second)); break;
        case 6: l.u8(6).u(p.first, e.addr_size).u(p.second, e.addr_size); break;
      }
    }
    l.u8(0);
    if (e.range_form == 1) {
      u->Unsigned(d, AT_ranges, F_rnglistx, lists->size());
    } else {
      rng_fix_.push_back({{d, d->attrs.size()}, int(lists->size())});
      u->Unsigned(d, AT_ranges, F_sec_offset, 0);
    }
    lists->push_back(l.s);
  }
  void Lines(const CU& cu) {
    LineParams p;
    p.version = cu.e.version;
    p.addr_size = cu.e.addr_size;
    p.offset_size = cu.e.offset_size;
    Buf t(f.big);
    if (p.version == 5) {
      auto s = [&](const std::string& x) {
        if (cu.e.line_dir_form == F_line_strp) t.u(f.LineStrp(x), p.offset_size);
        else if (cu.e.line_dir_form == F_strp) t.u(f.Strp(x), p.offset_size);
        else t.str(x);
      };
      t.u8(1).uleb(1).uleb(cu.e.line_dir_form).uleb(3);
      s(cu.comp_dir), s("include"), s("/usr/include");
      t.u8(2 + cu.e.md5).uleb(1).uleb(cu.e.line_dir_form).uleb(2).uleb(F_udata);
      if (cu.e.md5) t.uleb(5).uleb(F_data16);
      t.uleb(4);
      auto file = [&](const char* name, int dir) {
        s(name), t.uleb(dir);
        if (cu.e.md5) t.raw(std::string(16, '\xfe'));
      };
      file("main.c", 0), file("main.c", 0), file("inc.h", 1), file("abs.h", 2);
    } else {
      t.str("include").str("/usr/include").u8(0);
      t.str("main.c").uleb(0).uleb(0).uleb(0).str("inc.h").uleb(1).uleb(0).uleb(0).str("abs.h").uleb(2).uleb(0).uleb(0).u8(0);
    }
    LineProgram g(p);
    for (auto& seq : cu.seqs) {
      for (size_t i = 0; i < seq.size(); ++i) {
        auto& r = seq[i];
        if (i == 0) g.SetAddress(r.addr);
        else g.AdvancePc(r.addr - g.address());
        if (i + 1 == seq.size()) {
          g.EndSequence();
          break;
        }
        g.SetFile(r.file);
        g.AdvanceLine(int64_t(r.line) - (i ? int64_t(seq[i - 1].line) : 1));
        if (r.disc) g.SetDiscriminator(r.disc);
        g.Copy();
      }
    }
    f.line.raw(LineUnit(p, t.s, g.bytes()));
  }
};
std::string Norm(std::string d) {
  while (d.size() > 1 && d.back() == '/') d.pop_back();
  return d;
}
std::string Frame(const std::string& fn, const std::string& dir, const std::string& file, uint32_t start, uint32_t line, uint32_t disc) {
  return "[" + fn + " " + Norm(dir) + "/" + file + " start=" + std::to_string(start) + " line=" + std::to_string(line) + " disc=" + std::to_string(disc) + "]";
}
std::string Got(const SourceStack& s) {
  std::string o;
  for (auto& f : s) o += Frame(f.func_name ? f.func_name : "-", std::string(f.dir_name), std::string(f.file_name), f.start_line, f.line, f.discriminator);
  return o;
}
const std::string& Name(const Enc& e, const Fn& f) { return e.linkage == 2 ? f.name : f.linkage; }
#if defined(HAVE_LLVM)
// Directory names are those of the line table; empty for the directory of the
// compilation.  Frames are reported wherever there are functions, with line 0
// where the line table does not say.
std::string Want(const std::vector<CU>& cus, uint64_t a) {
  std::string out;
  for (auto& cu : cus)
    for (auto& t : cu.tops) {
      if (!t.Covers(a, cu.ncells)) continue;
      std::vector<const Inst*> chain;
      for (const Inst* i = &t; i;) {
        chain.push_back(i);
        const Inst* next = nullptr;
        for (auto& k : i->kids)
          if (k.Covers(a, cu.ncells)) next = &k;
        i = next;
      }
      const R* row = nullptr;
      for (auto& s : cu.seqs)
        for (size_t i = 0; i + 1 < s.size(); ++i)
          if (s[i].addr <= a && a < s[i + 1].addr) row = &s[i];
      int file = row ? row->file : -1;
      uint32_t line = row ? row->line : 0, disc = row ? row->disc : 0;
      for (size_t k = chain.size(); k-- > 0;) {
        const Fn& fn = cu.fns[chain[k]->fn];
        out += Frame(Name(cu.e, fn), file == 2 ? "include" : file == 3 ? "/usr/include" : "", file < 0 ? "" : FileName(file), fn.decl_line, line, disc);
        file = chain[k]->call_file;
        line = chain[k]->call_line;
        disc = chain[k]->call_disc;
      }
    }
  return out;
}
#else
// The stack the debug information describes for address `a`.
std::string Want(const std::vector<CU>& cus, uint64_t a) {
  // The line row covering `a`: the closest preceding row of any sequence.
  std::map<uint64_t, std::pair<const CU*, const R*>> rows;
  for (auto& cu : cus)
    for (auto& s : cu.seqs)
      for (size_t i = 0; i < s.size(); ++i) rows[s[i].addr] = {&cu, i + 1 == s.size() ? nullptr : &s[i]};
  auto it = rows.upper_bound(a);
  if (it == rows.begin()) return "";
  --it;
  const R* r = it->second.second;
  const CU* lcu = it->second.first;
  if (!r || r->line == 0) return "";
  std::vector<std::pair<const CU*, const Inst*>> chain;
  for (auto& cu : cus)
    for (auto& t : cu.tops) {
      if (!t.Covers(a, cu.ncells)) continue;
      const Inst* i = &t;
      while (i) {
        chain.push_back({&cu, i});
        const Inst* next = nullptr;
        for (auto& k : i->kids)
          if (k.Covers(a, cu.ncells)) next = &k;
        i = next;
      }
    }
  std::string dir = DirOf(*lcu, r->file);
  if (chain.empty()) {
    if (lcu->e.version < 5) dir = r->file <= 1 ? "" : r->file == 2 ? "include" : "/usr/include";
    else if (r->file == 2) dir = "include";
    return Frame("-", dir, FileName(r->file), 0, r->line, r->disc);
  }
  auto fn = [&](const std::pair<const CU*, const Inst*>& p) -> const Fn& { return p.first->fns[p.second->fn]; };
  std::string out = Frame(Name(chain.back().first->e, fn(chain.back())), dir, FileName(r->file), fn(chain.back()).decl_line, r->line, r->disc);
  for (size_t k = chain.size(); k-- > 1;) {
    const Inst* i = chain[k].second;
    out += Frame(Name(chain[k - 1].first->e, fn(chain[k - 1])), DirOf(*chain[k].first, i->call_file), FileName(i->call_file), fn(chain[k - 1]).decl_line, i->call_line, i->call_disc);
  }
  return out;
}
#endif
void CheckFile(mc::Ctx& c, const std::string& path, const std::vector<CU>& model, const std::vector<CU>& cus, const std::string& label, const std::string& key) {
  std::unique_ptr<Addr2line> a(Addr2line::Create(path));
  c.check(a != nullptr, key + "-open", "cannot open");
  std::set<uint64_t> addrs = {0, 1, kText - 1};
  for (auto& cu : cus) {
    for (auto& s : cu.seqs)
      for (auto& r : s) addrs.insert({r.addr - 1, r.addr, r.addr + 1});
    for (auto& t : cu.tops)
      for (int k = 0; k <= cu.ncells; ++k) addrs.insert({t.base + k * kCell, t.base + k * kCell + 1, t.base + k * kCell - 1});
  }
  std::string all;
  for (uint64_t x : addrs) {
    SourceStack s;
    a->GetInlineStack(x, &s);
    std::string got = Got(s), want = Want(model, x);
    if (got != want) {
      char b[40];
      snprintf(b, 40, "%llx", (unsigned long long)x);
      c.fail(key, std::string("address ") + b + ": got " + got + ", the debug info says " + want + "\n" + label);
    }
    all += want;
    c.transition();
  }
  c.outcome(all);
  c.state(label);
  c.nontrivial();
}
void Check(mc::Ctx& c, std::vector<CU> cus, const std::string& label, const std::string& key, const std::vector<CU>* model = nullptr, bool with_info = true) {
  Gen g;
  for (auto& cu : cus) g.Add(cu);
  MemFile m(g.Elf(with_info));
  CheckFile(c, m.path(), model ? *model : cus, cus, label, key);
}
std::vector<Fn> Fns() {
  std::vector<Fn> f = {{"top", "_Z3topv", 10}, {"ina", "_Z3inav", 3}, {"inb", "_Z3inbi", 200}, {"inc", "_Z3incl", 70}, {"bot", "_Z3botv", 90}};
  for (auto& x : f) x.decl_line += kLine;
  return f;
}
// One row per cell plus one in the middle of cell 1.
std::vector<R> CellRows(uint64_t base, int ncells, int file_seed, uint32_t line0) {
  std::vector<R> s;
  for (int k = 0; k < ncells; ++k) {
    s.push_back({base + k * kCell, 1 + (k + file_seed) % 3, kLine + line0 + k * 7 % 5 * 30, k % 3 == 2 ? 4u : 0u});
    if (k == 1) s.push_back({base + k * kCell + 4, 1 + (k + file_seed) % 3, kLine + line0 + 300, 2});
  }
  s.push_back({base + ncells * kCell, 0, 0, 0});
  return s;
}
Inst Inl(int fn, uint32_t cells, int file, uint32_t line, uint32_t disc, int style = 0) {
  Inst i;
  i.fn = fn;
  i.cells = cells;
  i.inlined = true;
  i.call_file = file;
  i.call_line = kLine + line;
  i.call_disc = disc;
  i.range_style = style;
  return i;
}
// All inline trees over n cells: a forest of up to two inlined calls in the
// function, each cell of which may be inlined once more, with every coverage.
CU Shape(mc::Ctx& c, int ncells, const Enc& e, bool nested_two) {
  CU cu;
  cu.e = e;
  cu.ncells = ncells;
  cu.fns = Fns();
  Inst top;
  top.fn = 0;
  top.cells = (1u << ncells) - 1;
  uint32_t own[3] = {0, 0, 0}, inner[3] = {0, 0, 0};
  for (int k = 0; k < ncells; ++k) own[c.pick(3)] |= 1u << k;
  if (own[2] && !own[1]) c.prune();  // symmetric to own[1] alone
  for (int o = 1; o <= 2; ++o)
    if (own[o] && (o == 1 || nested_two))
      for (int k = 0; k < ncells; ++k)
        if (own[o] >> k & 1 && c.flip()) inner[o] |= 1u << k;
  for (int o = 1; o <= 2; ++o)
    if (own[o]) {
      Inst i = Inl(o == 1 ? 1 : 2, own[o], o == 1 ? 1 : 2, o == 1 ? 12 : 300, o == 1 ? 5 : 0);
      if (inner[o]) i.kids.push_back(Inl(3, inner[o], 3, 255, 2));
      top.kids.push_back(i);
    }
  cu.tops.push_back(top);
  cu.seqs.push_back(CellRows(kText, ncells, 0, 100));
  c.say("own " + std::to_string(own[1]) + "," + std::to_string(own[2]) + " inner " + std::to_string(inner[1]) + "," + std::to_string(inner[2]));
  return cu;
}
Enc V(int v) {
  Enc e;
  e.version = v;
  if (v < 4) e.high_form = F_addr;
  return e;
}
void Shapes(mc::Ctx& c) {
  Wide(c.flip());
  Enc e = V(c.of({4, 5, 3, 2}));
  if (e.version == 5) e.line_dir_form = F_line_strp, e.name_form = F_strp, e.range_form = c.pick(2), e.rng_kind = c.pick(3);
  e.blocks = c.flip();
  e.origin = c.pick(2);
  std::string l = "@inline-shapes " + e.Show();
  c.say(l);
  CU cu = Shape(c, mc::tier(4, 5), e, mc::thorough());
  Check(c, {cu}, c.label, "inline-shape");
}
// A fixed nontrivial tree under every one- and two-option deviation from the
// base encoding.
CU Fixed(const Enc& e, uint64_t base, int variant) {
  CU cu;
  cu.e = e;
  cu.ncells = 6;
  cu.fns = Fns();
  Inst top;
  top.fn = 0;
  top.base = base;
  top.cells = variant == 1 ? 0x37 : 0x3f;
  Inst a = Inl(1, 0x36 & top.cells, 1, 12, 5);
  Inst b = Inl(2, 0x06, 2, 300, 0);
  Inst d = Inl(3, 0x04, 3, 70000, 3);
  Inst x = Inl(3, 0x10, 2, 255, 0, 1);
  a.base = b.base = d.base = x.base = base;
  b.kids.push_back(d);
  a.kids.push_back(b);
  a.kids.push_back(x);
  top.kids.push_back(a);
  cu.tops.push_back(top);
  cu.seqs.push_back(CellRows(base, 6, variant, 100 + variant));
  return cu;
}
using Opt = std::function<bool(Enc*)>;  // false: not applicable
std::vector<std::pair<std::string, Opt>> Options() {
  std::vector<std::pair<std::string, Opt>> o;
  auto add = [&](const std::string& n, Opt f) { o.push_back({n, f}); };
  for (int f : {F_strp, F_line_strp, F_strx, F_strx1, F_strx2, F_strx3, F_strx4})
    add("name" + std::to_string(f), [f](Enc* e) { if (f != F_strp && e->version < 5) return false; e->name_form = f; return true; });
  for (int f : {F_strp, F_line_strp, F_strx, F_strx1, F_strx2, F_strx3, F_strx4})
    add("cu" + std::to_string(f), [f](Enc* e) { if (f != F_strp && e->version < 5) return false; e->cu_form = f; return true; });
  for (int f : {F_addrx, F_addrx1, F_addrx2, F_addrx3, F_addrx4})
    add("low" + std::to_string(f), [f](Enc* e) { if (e->version < 5) return false; e->low_form = f; return true; });
  for (int f : {F_addr, F_data1, F_data2, F_data4, F_udata})
    add("high" + std::to_string(f), [f](Enc* e) { if (e->version < 4) return false; e->high_form = f; return true; });
  add("rnglistx", [](Enc* e) { if (e->version < 5) return false; e->range_form = 1; return true; });
  for (int k = 1; k <= 6; ++k) add("rngkind" + std::to_string(k), [k](Enc* e) { if (e->version < 5 && k > 1) return false; e->rng_kind = k; return true; });
  for (int form : {F_ref2, F_ref8, F_ref_udata}) add("ref" + std::to_string(form), [form](Enc* e) { e->ref_form = form; return true; });
  add("ref_addr", [](Enc* e) { e->ref_form = F_ref_addr; return true; });
  for (int f : {F_data1, F_data4}) add("line" + std::to_string(f), [f](Enc* e) { e->line_form = f; return true; });
  for (int f : {F_data2, F_data4, F_udata}) add("decl" + std::to_string(f), [f](Enc* e) { e->decl_form = f; return true; });
  for (int f : {F_data2, F_data4}) add("disc" + std::to_string(f), [f](Enc* e) { e->disc_form = f; return true; });
  for (int f : {F_data2, F_data4, F_udata, F_implicit_const}) add("file" + std::to_string(f), [f](Enc* e) { if (f == F_implicit_const && e->version < 5) return false; e->file_form = f; return true; });
  add("line-implicit", [](Enc* e) { if (e->version < 5) return false; e->line_form = F_implicit_const; return true; });
  add("decl-implicit", [](Enc* e) { if (e->version < 5) return false; e->decl_form = F_implicit_const; return true; });
  add("disc-implicit", [](Enc* e) { if (e->version < 5) return false; e->disc_form = F_implicit_const; return true; });
  add("line-udata", [](Enc* e) { e->line_form = F_udata; return true; });
  add("disc-udata", [](Enc* e) { e->disc_form = F_udata; return true; });
  for (int k = 1; k <= 3; ++k) add("linkage" + std::to_string(k), [k](Enc* e) { e->linkage = k; return true; });
  for (int k = 1; k <= 3; ++k) add("origin" + std::to_string(k), [k](Enc* e) { e->origin = k; return true; });
  add("abstract-last", [](Enc* e) { e->abstract_last = true; return true; });
  add("blocks", [](Enc* e) { e->blocks = true; return true; });
  add("extra", [](Enc* e) { e->extra = true; return true; });
  add("noise", [](Enc* e) { e->noise = true; return e->version == 5; });
  add("pc-at-end", [](Enc* e) { e->pc_at_end = true; return true; });
  add("cu-base-0", [](Enc* e) { e->cu_ranges = true; return true; });
  add("bases-late", [](Enc* e) { e->attr_order = true; return e->version == 5; });
  add("bases-last", [](Enc* e) { e->attr_order = e->bases_last = true; return e->version == 5; });
  add("pad130", [](Enc* e) { e->pad = 130; return e->version == 5; });
  add("call-file-0", [](Enc* e) { e->call_file0 = true; return e->version == 5; });
  add("dirs-line_strp", [](Enc* e) { e->line_dir_form = F_line_strp; return e->version == 5; });
  add("dirs-strp", [](Enc* e) { e->line_dir_form = F_strp; return e->version == 5; });
  if (!kLlvm) {
    add("cu-list", [](Enc* e) { e->cu_list = true; return true; });
    add("cu-list-early", [](Enc* e) { e->cu_list_early = true; return true; });
  }
  for (int k = 1; k <= 2; ++k) add("partial" + std::to_string(k), [k](Enc* e) { e->partial = k; return (e->ref_form = F_ref_addr, true); });
  for (int k = 1; k <= 3; ++k) add("types" + std::to_string(k), [k](Enc* e) { e->types = k; return e->version == 5; });
  add("md5", [](Enc* e) { e->md5 = true; return e->version == 5; });
  add("addr4", [](Enc* e) { e->addr_size = 4; return true; });
  add("dwarf64", [](Enc* e) { e->offset_size = 8; return e->version >= 4; });
  add("wide", [](Enc* e) { Wide(true); return e->addr_size == 8; });
  return o;
}
bool Valid(const Enc& e) {
  bool idx1 = e.name_form == F_strx1 || e.cu_form == F_strx1;
  if (e.pad > 120 && (idx1 || e.low_form == F_addrx1)) return true;
  return true;
}
void Encodings(mc::Ctx& c, int deviations, int ncu) {
  static auto opts = Options();
  Wide(false);
  Enc e = V(c.of({5, 4, 3, 2}));
  int variant = c.pick(2);
  std::string l = "v" + std::to_string(e.version) + " variant" + std::to_string(variant);
  int prev = -1;
  for (int d = 0; d < deviations; ++d) {
    int k = prev + 1 + c.pick(static_cast<int>(opts.size()) - prev);  // == size: none
    if (k >= static_cast<int>(opts.size())) break;
    if (!opts[k].second(&e)) c.prune();
    l += " " + opts[k].first;
    prev = k;
  }
  if (!Valid(e)) c.prune();
  l += ncu > 1 ? " two-units" : "";
  c.say("@inline-encoding " + l);
  c.say(e.Show());
  std::vector<CU> cus;
  for (int i = 0; i < ncu; ++i) {
    cus.push_back(Fixed(e, kText + 0x1000 * i, variant));
    if (i) {
      cus.back().comp_dir = "/other";
      for (auto& f : cus.back().fns) f.name += "2", f.linkage += "2", f.decl_line += 1;
    }
  }
  Check(c, cus, l, "inline-encoding");
}
// Several entries claim the same code.  The rules the symbolizer documents:
// an entry below the first loadable segment is invalid; one whose ranges
// contain the start of another function is wrong; of several with the same
// start the containing one is right, and the later one if neither contains
// the other; what is inlined into a dropped entry is dropped with it.
std::vector<std::pair<uint64_t, uint64_t>> RangesOf(const CU& cu, const Inst& i) { return Ranges(i, cu.ncells, false); }
bool Subset(const std::vector<std::pair<uint64_t, uint64_t>>& b, const std::vector<std::pair<uint64_t, uint64_t>>& a) {
  for (auto& x : b) {
    bool in = false;
    for (auto& y : a) in = in || (y.first <= x.first && x.second <= y.second);
    if (!in) return false;
  }
  return true;
}
CU Surviving(const CU& cu, uint64_t first_segment) {
  CU out = cu;
  out.tops.clear();
  std::vector<Inst> t;
  for (auto& i : cu.tops) {
    auto r = RangesOf(cu, i);
    bool used = false, below = false;
    for (auto& x : r) {
      used = used || x.first != 0;
      below = below || x.first < first_segment;
    }
    if (used && !below) t.push_back(i);
  }
  std::vector<Inst> u;
  for (auto& i : t) {
    bool bad = false;
    for (auto& x : RangesOf(cu, i))
      for (auto& j : t)
        for (auto& y : RangesOf(cu, j)) bad = bad || (y.first > x.first && y.first < x.second);
    if (!bad) u.push_back(i);
  }
  std::vector<Inst> keep;
  for (auto& i : u) {
    auto ri = RangesOf(cu, i);
    bool drop = false;
    std::vector<size_t> rivals;
    for (size_t k = 0; k < keep.size(); ++k) {
      auto rk = RangesOf(cu, keep[k]);
      bool share = false;
      for (auto& x : ri)
        for (auto& y : rk) share = share || x.first == y.first;
      if (!share) continue;
      if (Subset(ri, rk)) drop = true;
      else rivals.push_back(k);
    }
    if (drop) continue;
    for (size_t k = rivals.size(); k-- > 0;) keep.erase(keep.begin() + rivals[k]);
    keep.push_back(i);
  }
  out.tops = keep;
  return out;
}
void Conflicts(mc::Ctx& c, int n, bool lists, bool low) {
  Wide(c.flip());
  CU cu;
  cu.e = V(c.of({4, 5}));
  cu.ncells = 4;
  cu.fns = Fns();
  cu.e.origin = 1;
  std::string l;
  for (int i = 0; i < n; ++i) {
    Inst t;
    t.fn = i;
    if (low && i == 0) t.base = c.of<uint64_t>({kText, 0x1000, kSeg - 8, 0});
    if (lists) {
      t.cells = 1 + c.pick(15);
    } else {
      int a = c.pick(4), b = a + 1 + c.pick(4 - a);
      t.cells = ((1u << b) - 1) & ~((1u << a) - 1);
    }
    uint32_t first = t.cells & -t.cells;
    if (c.flip()) t.kids.push_back(Inl(4, first, 2, 17, 1)), t.kids.back().base = t.base;
    cu.tops.push_back(t);
    l += " " + std::to_string(t.cells) + (t.kids.empty() ? "" : "k");
  }
  cu.seqs.push_back(CellRows(kText, 4, 0, 100));
  c.say("@inline-conflicts");
  c.say(l);
  std::vector<CU> model = {Surviving(cu, kSeg)};
  Check(c, {cu}, l, "inline-conflicts", &model);
}
// Line tables with gaps, rows without a source line, several sequences in any
// order, with and without the tree of functions.
void LineRows(mc::Ctx& c) {
  Wide(false);
  CU cu;
  cu.e = V(c.of({4, 5, 3, 2}));
  cu.ncells = 4;
  cu.fns = Fns();
  bool info = c.flip();
  Inst t;
  t.fn = 0;
  t.cells = 0xf;
  if (c.flip()) t.kids.push_back(Inl(1, 6, 2, 17, 1));
  cu.tops.push_back(t);
  std::vector<std::vector<R>> seqs(1);
  std::string l = info ? "info" : "no-info";
  // per cell: absent (ends the sequence), line 0, or one of two files
  for (int k = 0; k < 4; ++k) {
    uint64_t a = kText + k * kCell;
    int v = c.pick(5);
    l += std::to_string(v);
    if (v == 0) {
      if (!seqs.back().empty()) seqs.back().push_back({a, 0, 0, 0}), seqs.push_back({});
    } else if (v == 1) {
      seqs.back().push_back({a, 1, 0, 0});
    } else if (v == 2) {
      seqs.back().push_back({a, 1, 40, 0});
    } else if (v == 3) {
      seqs.back().push_back({a, 3, 41, 7});
    } else {  // a new sequence starts here
      if (!seqs.back().empty()) seqs.back().push_back({a, 0, 0, 0}), seqs.push_back({});
      seqs.back().push_back({a, 2, 42, 200});
    }
  }
  if (!seqs.back().empty()) seqs.back().push_back({kText + 4 * kCell, 0, 0, 0});
  else seqs.pop_back();
  // Adjacent sequences: the end of one and the start of the next coincide;
  // the order of the sequences in the table must not matter then.
  cu.seqs = seqs;
  if (seqs.size() > 1 && c.flip()) {
    bool touching = false;
    for (size_t i = 0; i + 1 < seqs.size(); ++i) touching = touching || seqs[i].back().addr == seqs[i + 1][0].addr;
    if (touching) c.prune();
    std::reverse(cu.seqs.begin(), cu.seqs.end());
    l += " reversed";
  }
  c.say("@inline-lines");
  c.say(l);
  std::vector<CU> model = {cu};
  if (!info) model[0].tops.clear();
  Check(c, {cu}, l, "inline-lines", &model, info);
}
// Units with and without their own compilation directory, in every order.
void CompDirs(mc::Ctx& c) {
  Wide(false);
  int n = mc::tier(2, 3);
  std::vector<CU> cus;
  std::string l;
  for (int i = 0; i < n; ++i) {
    Enc e = V(c.of({4, 5, 2}));
    cus.push_back(Fixed(e, kText + 0x1000 * i, i % 2));
    int d = c.pick(3);
    cus.back().comp_dir = d == 0 ? "" : d == 1 ? "/one" : "/two";
    if (e.version == 5 && d == 0) c.prune();  // directory 0 of its line table is the compilation directory
    for (auto& f : cus.back().fns) f.name += char('0' + i), f.linkage += char('0' + i), f.decl_line += i;
    l += " v" + std::to_string(e.version) + cus.back().comp_dir;
  }
  c.say("@inline-compdir");
  c.say(l);
  Check(c, cus, l, "inline-compdir");
}
#if defined(HAVE_LLVM)
// Kernel modules: relocatable objects whose code sections all start at 0.
void Modules(mc::Ctx& c) {
  Wide(false);
  CU cu;
  cu.e = V(c.of({4, 5}));
  cu.e.name_form = c.flip() ? F_strp : F_string;
  cu.ncells = 4;
  cu.fns = Fns();
  Inst t;
  t.fn = 0;
  t.cells = 0xf;
  if (c.flip()) {
    uint32_t cells = 1 + c.pick(15);
    t.kids.push_back(Inl(1, cells, 2, 17, 1));
  }
  cu.tops.push_back(t);
  // Line sequences of .text and of another section, at the same addresses.
  bool first = c.flip();
  int kind = c.pick(4);  // the other section has: nothing, shorter, equal, longer code
  std::vector<R> text, other;
  int from = c.pick(3);
  for (int k = from; k < 4; ++k)
    if (k == from || c.flip()) text.push_back({kText + k * kCell, 1 + k % 3, 100u + k, k % 2 ? 3u : 0u});
  text.push_back({kText + 4 * kCell, 0, 0, 0});
  static const int len[] = {0, 2, 4, 6};
  for (int k = 0; k < len[kind]; ++k) other.push_back({kOther + k * kCell, 1, 500u + k, 9});
  if (kind) other.push_back({kOther + len[kind] * kCell, 0, 0, 0});
  std::vector<CU> model;
  CU m = cu;
  m.seqs.push_back(text);
  model.push_back(m);
  if (kind && first) cu.seqs.push_back(other);
  cu.seqs.push_back(text);
  if (kind && !first) cu.seqs.push_back(other);
  Gen g;
  bool other_first = c.flip();
  g.Add(cu);
  std::string f = ScratchFile("mod") + ".ko";
  WriteFile(f, g.Module(other_first));
  std::unique_ptr<Addr2line> a(Addr2line::Create(f));
  unlink(f.c_str());
  c.check(a != nullptr, "module-open", "cannot open");
  for (int x = -1; x <= 4 * kCell + 1; ++x) {
    SourceStack s;
    a->GetInlineStack(static_cast<uint64_t>(static_cast<int64_t>(x)), &s);
    c.eq(Got(s), Want(model, kText + x), "kernel-module", "offset " + std::to_string(x) + " of .text");
  }
  if (kind) c.nontrivial();
  c.outcome(Want(model, kText) + Want(model, kText + 2 * kCell));
}
// ---------------------------------------------------------------- C10
// Compile-unit names by address.
struct MUnit {
  int version = 4;
  bool named = true, skeleton = false, split = false;
  std::vector<std::pair<uint64_t, uint64_t>> r;
  std::string name, dwo_name;
};
std::string AddUnit(File* f, const MUnit& m, int style, uint64_t id, std::string* dwo_info, std::string* dwo_abbrev) {
  (void)style;
  uint64_t start = f->info.size(), ab = f->abbrev.size();
  bool v5skel = m.skeleton && m.version == 5;
  Buf d;
  int code = 1;
  f->abbrev.uleb(code).uleb(v5skel ? 0x4a : TAG_compile_unit).u8(0);
  d.uleb(code);
  if (m.named && !m.skeleton) {
    f->abbrev.uleb(AT_name).uleb(F_string);
    d.str(m.name);
  }
  if (m.skeleton) {
    f->abbrev.uleb(v5skel ? 0x76 : 0x2130).uleb(F_string);  // dwo_name
    d.str("x.dwo");
    if (!v5skel) {
      f->abbrev.uleb(0x2131).uleb(F_data8);  // GNU_dwo_id
      d.u64(id);
    }
  }
  if (m.r.size() == 1 && !style) {
    f->abbrev.uleb(AT_low_pc).uleb(F_addr).uleb(AT_high_pc).uleb(F_data8);
    d.u64(m.r[0].first).u64(m.r[0].second - m.r[0].first);
  } else if (!m.r.empty()) {
    f->abbrev.uleb(AT_low_pc).uleb(F_addr).uleb(AT_ranges).uleb(F_sec_offset);
    d.u64(0);
    if (m.version == 5) {
      Buf l;
      l.u16(5).u8(8).u8(0).u32(0);
      uint64_t at = f->rnglists.size() + 4 + l.size();
      for (auto& p : m.r) l.u8(7).u64(p.first).uleb(p.second - p.first);
      l.u8(0);
      f->rnglists.u32(l.size()).raw(l.s);
      d.u32(at);
    } else {
      d.u32(f->ranges.size());
      for (auto& p : m.r) f->ranges.u64(p.first).u64(p.second);
      f->ranges.u64(0).u64(0);
    }
  }
  f->abbrev.uleb(0).uleb(0).uleb(0);
  Buf h;
  h.u16(m.version);
  if (m.version == 5) {
    h.u8(v5skel ? 4 : 1).u8(8).u32(ab);
    if (v5skel) h.u64(id);
  } else {
    h.u32(ab).u8(8);
  }
  f->info.u32(h.size() + d.size()).raw(h.s).raw(d.s);
  (void)start;
  if (m.skeleton && m.split) {  // its full unit
    Buf a, b, uh;
    a.uleb(1).uleb(TAG_compile_unit).u8(0);
    b.uleb(1);
    if (m.named) {
      a.uleb(AT_name).uleb(F_string);
      b.str(m.dwo_name);
    }
    if (m.version < 5) {
      a.uleb(0x2131).uleb(F_data8);
      b.u64(id);
    }
    a.uleb(0).uleb(0).uleb(0);
    uh.u16(m.version);
    if (m.version == 5) uh.u8(5).u8(8).u32(0).u64(id);
    else uh.u32(0).u8(8);
    Buf all;
    all.u32(uh.size() + b.size()).raw(uh.s).raw(b.s);
    *dwo_info = all.s;
    *dwo_abbrev = a.s;
  }
  return "";
}
// The package of split units, with its index.
std::string Package(int version, const std::vector<std::pair<uint64_t, std::pair<std::string, std::string>>>& units) {
  ElfGen g;
  g.etype = 1;
  Buf info, abbrev, idx;
  std::vector<std::vector<uint32_t>> off, len;
  for (auto& u : units) {
    off.push_back({uint32_t(info.size()), uint32_t(abbrev.size())});
    len.push_back({uint32_t(u.second.first.size()), uint32_t(u.second.second.size())});
    info.raw(u.second.first);
    abbrev.raw(u.second.second);
  }
  uint32_t slots = 8;
  if (version == 5) idx.u16(5).u16(0);
  else idx.u32(2);
  idx.u32(2).u32(units.size()).u32(slots);
  std::vector<uint64_t> sig(slots, 0);
  std::vector<uint32_t> row(slots, 0);
  for (size_t i = 0; i < units.size(); ++i) {
    uint64_t s = units[i].first;
    uint32_t h = s & (slots - 1), step = ((s >> 32) & (slots - 1)) | 1;
    while (row[h]) h = (h + step) & (slots - 1);
    sig[h] = s;
    row[h] = i + 1;
  }
  for (auto s : sig) idx.u64(s);
  for (auto r : row) idx.u32(r);
  idx.u32(1).u32(3);  // info, abbrev
  for (auto& o : off) idx.u32(o[0]).u32(o[1]);
  for (auto& l : len) idx.u32(l[0]).u32(l[1]);
  g.Add(".debug_info.dwo", info.s);
  g.Add(".debug_abbrev.dwo", abbrev.s);
  g.Add(".debug_cu_index", idx.s);
  return g.Build();
}
void CuNames(mc::Ctx& c) {
  File f;
  int n = c.pick(mc::tier(5, 6));
  bool dwp = c.flip();
  std::vector<MUnit> us;
  bool skeleton = false;
  std::vector<std::pair<uint64_t, std::pair<std::string, std::string>>> split;
  int layout = c.pick(3);  // consecutive; every second cell alternating; with holes
  int package_version = 0;
  for (int i = 0; i < n; ++i) {
    MUnit m;
    m.version = c.flip() ? 5 : 4;
    int kind = c.pick(4);  // plain, unnamed, skeleton with its full unit packaged, skeleton without
    if (n > 3 && kind == 1) c.prune();
    m.named = kind != 1;
    m.skeleton = kind >= 2;
    m.split = kind == 2 && dwp;
    if (kind == 2 && !dwp) c.prune();
    if (m.split && package_version && package_version != m.version) c.prune();  // one format per package
    if (m.split) package_version = m.version;
    m.name = "src/unit" + std::to_string(i) + ".cc";
    m.dwo_name = "split/unit" + std::to_string(i) + ".cc";
    uint64_t b = 0x1000;
    if (layout == 0) m.r = {{b + 0x10 * i, b + 0x10 * i + 0x10}};
    else if (layout == 1) m.r = {{b + 0x10 * i, b + 0x10 * i + 0x10}, {b + 0x100 + 0x20 * i, b + 0x100 + 0x20 * i + 8}};
    else if (i % 2) m.r = {{b + 0x40 * i, b + 0x40 * i + 1}};
    else m.r = {{b + 0x200 - 0x10 * i, b + 0x208 - 0x10 * i}, {b + 0x40 * i, b + 0x40 * i + 4}};
    if (m.skeleton && m.version == 5) skeleton = true;
    std::string di, da;
    AddUnit(&f, m, layout != 0 || m.skeleton, 0x1111111100000000ull * (i + 1) + 8 * i + 3, &di, &da);
    if (m.split) split.push_back({0x1111111100000000ull * (i + 1) + 8 * i + 3, {di, da}});
    us.push_back(m);
  }
  ElfGen g;
  g.Add(".text", std::string(64, '\x90'));
  if (n) {
    g.Add(".debug_info", f.info.s);
    g.Add(".debug_abbrev", f.abbrev.s);
    if (f.ranges.size()) g.Add(".debug_ranges", f.ranges.s);
    if (f.rnglists.size()) g.Add(".debug_rnglists", f.rnglists.s);
  }
  std::string img = g.Build(), pkg;
  if (dwp) {
    pkg = ScratchFile("pkg") + ".dwp";
    WriteFile(pkg, Package(package_version ? package_version : 5, split));
  }
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(img);
  auto obj = llvm::object::ObjectFile::createELFObjectFile(buf->getMemBufferRef());
  c.check(bool(obj), "cu-open", "object file");
  auto ctx = CreateDWARFContext(**obj, pkg);
  std::string all;
  if (skeleton && !dwp) {
    c.check(!ctx.ok() && ctx.status().code() == absl::StatusCode::kFailedPrecondition, "cu-skeleton", "skeleton units without a package accepted");
    all = "skeleton";
  } else if (n == 0) {
    c.check(!ctx.ok() && ctx.status().code() == absl::StatusCode::kFailedPrecondition, "cu-none", "binary without units accepted");
    all = "none";
  } else {
    c.check(ctx.ok(), "cu-context", "refused: " + std::string(ctx.ok() ? "" : ctx.status().message()));
    Addr2Cu a2c(**ctx);
    std::set<uint64_t> addrs = {0, 0xfff, 0x3000, ~0ull};
    for (auto& m : us)
      for (auto& r : m.r) addrs.insert({r.first - 1, r.first, (r.first + r.second) / 2, r.second - 1, r.second});
    for (int pass = 0; pass < 2; ++pass)
      for (uint64_t x : addrs) {
        std::string want = "none";
        for (auto& m : us)
          for (auto& r : m.r)
            if (r.first <= x && x < r.second) want = "=" + std::string(!m.named ? "" : !m.skeleton ? m.name : m.split ? m.dwo_name : "");
        auto got = a2c.GetCompileUnitFileNameForCodeAddress(x);
        std::string g2 = got.ok() ? "=" + std::string(*got) : got.status().code() == absl::StatusCode::kFailedPrecondition ? "none" : "other error";
        char b[40];
        snprintf(b, 40, "address %llx", (unsigned long long)x);
        c.eq(g2, want, "cu-name", b);
        all += want;
      }
  }
  if (!pkg.empty()) unlink(pkg.c_str());
  if (n > 1) c.nontrivial();
  c.outcome(all);
}
#endif
}  // namespace
#ifndef VERIF_INLINE_LIB
int main(int argc, char** argv) {
#if defined(HAVE_LLVM)
  return mc::Main(argc, argv,
                  {{"S08/encodings", [](mc::Ctx& c) { Encodings(c, mc::tier(3, 4), 1); }, 4},
                   {"S08/encodings-two-units", [](mc::Ctx& c) { Encodings(c, mc::tier(2, 3), 2); }, 4},
                   {"S08/modules", Modules, 6},
                   {"C10/cu-names", CuNames, 6},
                   {"S08/line-rows", LineRows, 4},
                   {"S08/comp-dirs", CompDirs, 3},
                   {"S08/shapes", Shapes, 6}});
#else
  return mc::Main(argc, argv,
                  {{"encodings", [](mc::Ctx& c) { Encodings(c, mc::tier(2, 3), 1); }, 4},
                   {"encodings-two-units", [](mc::Ctx& c) { Encodings(c, 2, 2); }, 4},
                   {"conflicts", [](mc::Ctx& c) { Conflicts(c, mc::tier(3, 4), false, false); }, 4},
                   {"conflict-lists", [](mc::Ctx& c) { Conflicts(c, mc::tier(2, 3), true, false); }, 3},
                   {"conflicts-low-or-unsampled", [](mc::Ctx& c) { Conflicts(c, 2, false, true); }, 4},
                   {"line-rows", LineRows, 4},
                   {"comp-dirs", CompDirs, 3},
                   {"shapes", Shapes, 6}});
#endif
}
#endif
