// Builds .debug_info and friends from a tree of DIEs (independent of /repo).
#ifndef VERIF_DWARFGEN_H_
#define VERIF_DWARFGEN_H_
#include <deque>
#include <map>
#include <string>
#include <vector>
#include "bytesbuf.h"
namespace dw {
enum {
  TAG_lexical_block = 0x0b, TAG_compile_unit = 0x11, TAG_structure_type = 0x13, TAG_inlined_subroutine = 0x1d, TAG_base_type = 0x24,
  TAG_subprogram = 0x2e, TAG_variable = 0x34, TAG_formal_parameter = 0x05, TAG_namespace = 0x39, TAG_call_site = 0x48, TAG_skeleton_unit = 0x4a, AT_dwo_name = 0x76, AT_GNU_dwo_name = 0x2130, AT_GNU_dwo_id = 0x2131, AT_GNU_ranges_base = 0x2132,
  AT_GNU_addr_base = 0x2133,
  AT_sibling = 0x01, AT_location = 0x02, AT_name = 0x03, AT_stmt_list = 0x10, AT_low_pc = 0x11, AT_high_pc = 0x12, AT_language = 0x13, AT_comp_dir = 0x1b,
  AT_const_value = 0x1c, AT_inline = 0x20, AT_producer = 0x25, AT_abstract_origin = 0x31, AT_decl_column = 0x39, AT_decl_file = 0x3a, AT_decl_line = 0x3b,
  AT_declaration = 0x3c, AT_external = 0x3f, AT_frame_base = 0x40, AT_specification = 0x47, AT_type = 0x49, AT_ranges = 0x55, AT_call_file = 0x58,
  AT_call_line = 0x59, AT_linkage_name = 0x6e, AT_str_offsets_base = 0x72, AT_addr_base = 0x73, AT_rnglists_base = 0x74, AT_call_column = 0x57,
  AT_MIPS_linkage_name = 0x2007, AT_GNU_discriminator = 0x2136,
  F_addr = 1, F_block2 = 3, F_block4 = 4, F_data2 = 5, F_data4 = 6, F_data8 = 7, F_string = 8, F_block = 9, F_block1 = 0xa, F_data1 = 0xb, F_flag = 0xc,
  F_sdata = 0xd, F_strp = 0xe, F_udata = 0xf, F_ref_addr = 0x10, F_ref1 = 0x11, F_ref2 = 0x12, F_ref4 = 0x13, F_ref8 = 0x14, F_ref_udata = 0x15,
  F_sec_offset = 0x17, F_exprloc = 0x18, F_flag_present = 0x19, F_strx = 0x1a, F_addrx = 0x1b, F_data16 = 0x1e, F_line_strp = 0x1f, F_ref_sig8 = 0x20,
  F_implicit_const = 0x21, F_rnglistx = 0x23, F_strx1 = 0x25, F_strx2 = 0x26, F_strx3 = 0x27, F_strx4 = 0x28, F_addrx1 = 0x29, F_addrx2 = 0x2a,
  F_addrx3 = 0x2b, F_addrx4 = 0x2c, F_GNU_addr_index = 0x1f01, F_GNU_str_index = 0x1f02,
};
struct Die;
struct Attr {
  int name, form;
  std::string bytes;
  Die* ref = nullptr;
  int64_t implicit = 0;
};
struct Die {
  int tag = 0;
  std::vector<Attr> attrs;
  std::vector<Die*> kids;
  bool force_children = false;
  uint64_t off = 0;  // section offset
};
// The sections shared by all units of a file.
struct File {
  bool big = false;
  int addr_size = 8, offset_size = 4;
  Buf info, abbrev, str, line_str, str_offsets, addr, ranges, rnglists, line;
  std::map<std::string, uint64_t> str_at, line_str_at;
  std::deque<Die> pool;
  std::vector<std::pair<uint64_t, Die*>> addr_fix;  // ref_addr patches
  File() { str.str(""); line_str.str(""); }
  uint64_t Strp(const std::string& s) {
    auto it = str_at.find(s);
    if (it != str_at.end()) return it->second;
    uint64_t o = str.size();
    str.str(s);
    return str_at[s] = o;
  }
  uint64_t LineStrp(const std::string& s) {
    auto it = line_str_at.find(s);
    if (it != line_str_at.end()) return it->second;
    uint64_t o = line_str.size();
    line_str.str(s);
    return line_str_at[s] = o;
  }
  Die* New(int tag, Die* parent = nullptr) {
    pool.emplace_back();
    pool.back().tag = tag;
    if (parent) parent->kids.push_back(&pool.back());
    return &pool.back();
  }
};
// One compilation unit.  Indexed strings/addresses/range lists of the unit are
// collected while DIEs are built and flushed by Finish().
struct Unit {
  File* f;
  int version;
  Die* root;
  std::vector<std::string> strx;
  std::vector<uint64_t> addrs;
  uint64_t str_base, addr_base, rng_base;
  // rnglists contribution of this unit
  std::vector<std::string> rng_body;
  bool rng_indexed = false;
  int pad_index = 0;  // unused leading table entries (makes indexes larger)
  File* af;           // the file that holds the unit's address table
  int unit_type = 1;  // version 5; 2 and 6: type units, 4 and 5 have an id
  uint64_t dwo_id = 0;
  bool raw;           // tables without headers (before version 5)
  Unit(File* file, int v, File* addr_file = nullptr) : f(file), version(v), af(addr_file ? addr_file : file), raw(v < 5) {
    root = f->New(TAG_compile_unit);
    uint64_t h = raw ? 0 : f->offset_size == 8 ? 16 : 8;
    str_base = f->str_offsets.size() + h;
    addr_base = af->addr.size() + h;
  }
  uint64_t StrIndex(const std::string& s) {
    if (strx.empty())
      for (int i = 0; i < pad_index; ++i) strx.push_back("pad" + std::to_string(i));
    for (size_t i = 0; i < strx.size(); ++i)
      if (strx[i] == s) return i;
    strx.push_back(s);
    return strx.size() - 1;
  }
  uint64_t AddrIndex(uint64_t a) {
    if (addrs.empty())
      for (int i = 0; i < pad_index; ++i) addrs.push_back(0xdead0000 + i);
    for (size_t i = 0; i < addrs.size(); ++i)
      if (addrs[i] == a) return i;
    addrs.push_back(a);
    return addrs.size() - 1;
  }
  void String(Die* d, int at, int form, const std::string& s) {
    Attr a{at, form};
    Buf b(f->big);
    switch (form) {
      case F_string: b.str(s); break;
      case F_strp: b.u(f->Strp(s), f->offset_size); break;
      case F_line_strp: b.u(f->LineStrp(s), f->offset_size); break;
      case F_strx: case F_GNU_str_index: b.uleb(StrIndex(s)); break;
      case F_strx1: b.u(StrIndex(s), 1); break;
      case F_strx2: b.u(StrIndex(s), 2); break;
      case F_strx3: b.u(StrIndex(s), 3); break;
      case F_strx4: b.u(StrIndex(s), 4); break;
    }
    a.bytes = b.s;
    d->attrs.push_back(a);
  }
  void Unsigned(Die* d, int at, int form, uint64_t v) {
    Attr a{at, form};
    Buf b(f->big);
    switch (form) {
      case F_data1: case F_flag: case F_ref1: b.u(v, 1); break;
      case F_data2: case F_ref2: b.u(v, 2); break;
      case F_data4: b.u(v, 4); break;
      case F_data8: case F_ref_sig8: b.u(v, 8); break;
      case F_data16: b.u(v, 8).u(0, 8); break;
      case F_udata: case F_rnglistx: b.uleb(v); break;
      case F_sdata: b.sleb(v); break;
      case F_sec_offset: b.u(v, f->offset_size); break;
      case F_flag_present: break;
      case F_implicit_const: a.implicit = v; break;
    }
    a.bytes = b.s;
    d->attrs.push_back(a);
  }
  void Addr(Die* d, int at, int form, uint64_t v) {
    Attr a{at, form};
    Buf b(f->big);
    switch (form) {
      case F_addr: b.u(v, f->addr_size); break;
      case F_addrx: case F_GNU_addr_index: b.uleb(AddrIndex(v)); break;
      case F_addrx1: b.u(AddrIndex(v), 1); break;
      case F_addrx2: b.u(AddrIndex(v), 2); break;
      case F_addrx3: b.u(AddrIndex(v), 3); break;
      case F_addrx4: b.u(AddrIndex(v), 4); break;
    }
    a.bytes = b.s;
    d->attrs.push_back(a);
  }
  void Ref(Die* d, int at, int form, Die* to) {
    Attr a{at, form};
    a.ref = to;
    a.bytes = std::string(form == F_ref2 ? 2 : form == F_ref8 ? 8 : form == F_ref4 || form == F_ref_udata ? 4 : version == 2 ? f->addr_size : f->offset_size, '\0');
    d->attrs.push_back(a);
  }
  void Block(Die* d, int at, int form, const std::string& payload) {
    Attr a{at, form};
    Buf b(f->big);
    switch (form) {
      case F_block1: b.u8(payload.size()); break;
      case F_block2: b.u16(payload.size()); break;
      case F_block4: b.u32(payload.size()); break;
      default: b.uleb(payload.size());
    }
    b.raw(payload);
    a.bytes = b.s;
    d->attrs.push_back(a);
  }
  void Finish() {
    Buf body(f->big);
    uint64_t abbrev_off = f->abbrev.size();
    // Header.
    body.u16(version);
    if (version == 5) {
      body.u8(unit_type).u8(f->addr_size).u(abbrev_off, f->offset_size);
      if (unit_type != 1 && unit_type != 3) body.u64(dwo_id);
      if (unit_type == 2 || unit_type == 6) body.u(0, f->offset_size);
    } else body.u(abbrev_off, f->offset_size).u8(f->addr_size);
    uint64_t start = f->info.size(), lead = f->offset_size == 8 ? 12 : 4;
    std::vector<std::pair<uint64_t, const Attr*>> fix;
    std::map<std::string, int> codes;
    Emit(root, &body, start + lead, &codes, &fix);
    if (version == 5 && (unit_type == 2 || unit_type == 6)) body.set(12 + f->offset_size, root->kids[0]->off - start, f->offset_size);
    f->abbrev.uleb(0);
    for (auto& p : fix) {
      uint64_t rel = p.second->ref->off - start;
      if (p.second->form == F_ref2) body.set(p.first, rel, 2);
      else if (p.second->form == F_ref4) body.set(p.first, rel, 4);
      else if (p.second->form == F_ref8) body.set(p.first, rel, 8);
      else if (p.second->form == F_ref_udata)  // padded to four bytes
        for (int i = 0; i < 4; ++i) body.set(p.first + i, (rel >> 7 * i & 0x7f) | (i < 3 ? 0x80 : 0), 1);
      else f->addr_fix.push_back({start + lead + p.first, p.second->ref});
    }
    if (f->offset_size == 8) f->info.u32(0xffffffff).u64(body.size());
    else f->info.u32(body.size());
    f->info.raw(body.s);
    if (!strx.empty()) {
      uint64_t len = 4 + strx.size() * f->offset_size;
      if (!raw) {
        if (f->offset_size == 8) f->str_offsets.u32(0xffffffff).u64(len);
        else f->str_offsets.u32(len);
        f->str_offsets.u16(5).u16(0);
      }
      for (auto& s : strx) f->str_offsets.u(f->Strp(s), f->offset_size);
    }
    if (!addrs.empty()) {
      uint64_t len = 4 + addrs.size() * f->addr_size;
      if (!raw) {
        if (f->offset_size == 8) af->addr.u32(0xffffffff).u64(len);
        else af->addr.u32(len);
        af->addr.u16(5).u8(f->addr_size).u8(0);
      }
      for (auto a : addrs) af->addr.u(a, f->addr_size);
    }
  }

 private:
  void Emit(Die* d, Buf* body, uint64_t base, std::map<std::string, int>* codes, std::vector<std::pair<uint64_t, const Attr*>>* fix) {
    bool kids = !d->kids.empty() || d->force_children;
    Buf ab;
    ab.uleb(d->tag).u8(kids);
    for (auto& a : d->attrs) {
      ab.uleb(a.name).uleb(a.form);
      if (a.form == F_implicit_const) ab.sleb(a.implicit);
    }
    ab.uleb(0).uleb(0);
    auto it = codes->find(ab.s);
    if (it == codes->end()) {
      it = codes->emplace(ab.s, codes->size() + 1).first;
      f->abbrev.uleb(it->second).raw(ab.s);
    }
    d->off = base + body->size();
    body->uleb(it->second);
    for (auto& a : d->attrs) {
      if (a.ref) fix->push_back({body->size(), &a});
      body->raw(a.bytes);
    }
    for (auto* k : d->kids) Emit(k, body, base, codes, fix);
    if (kids) body->uleb(0);
  }
};
inline void PatchRefs(File* f) {
  for (auto& p : f->addr_fix) f->info.set(p.first, p.second->off, f->offset_size);
}
}  // namespace dw
#endif
