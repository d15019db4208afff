// S02: .debug_line decoding (DWARF 2-5) against the line state machine.
#include "mc.h"
#include "linegen.h"
#include "symbolize/bytereader.h"
#include "symbolize/bytereader-inl.h"
#include "symbolize/dwarf2reader.h"
#include "symbolize/line_state_machine.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct Rec : LineInfoHandler {
  std::vector<std::string> out;
  int cu = 0;
  void StartCU() override { out.push_back("CU"); }
  void DefineDir(const char* n, uint32 num) override { out.push_back("D" + std::to_string(num) + "=" + n); }
  void DefineFile(const char* n, int32 num, uint32 dir, uint64 mod, uint64 len) override { out.push_back("F " + Str(FileDef{n, num, dir, mod, len})); }
  void AddLine(uint64 a, uint32 f, uint32 l, uint32 c, uint32 d, bool e) override { out.push_back("R " + Str(Row{a, f, l, c, d, e})); }
  void DefineSubprog(const char* n, uint32 num, uint32 f, uint32 l) override { out.push_back(std::string("S") + n + "#" + std::to_string(num) + " " + std::to_string(f) + ":" + std::to_string(l)); }
  void AddLogical(uint64 a, uint32 f, uint32 l, uint32 c, uint32 d, uint32 ctx, uint32 sp) override {
    out.push_back("L " + Str(Row{a, f, l, c, d, false}) + " ctx" + std::to_string(ctx) + " sp" + std::to_string(sp));
  }
  void StartActuals() override { out.push_back("ACT"); }
};
std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + "; ";
  return s;
}
// One step of the line program; `alpha` alternatives.
void Step(mc::Ctx& c, LineProgram* g, const LineParams& p, int k) {
  switch (k) {
    case 0: g->Copy(); break;
    case 1: g->Special(p.opcode_base + p.line_range * 2 + 3 <= 255 ? p.opcode_base + p.line_range * 2 + 3 : 255); break;
    case 2: g->SetDiscriminator(3); break;
    case 3: g->AdvancePc(200); break;
    case 4: g->AdvanceLine(7); break;
    case 5: g->EndSequence(); break;
    case 6: g->SetFile(2); break;
    case 7: g->SetColumn(130); break;
    case 8: g->ConstAddPc(); break;
    case 9: g->FixedAdvancePc(0x1234); break;
    case 10: g->SetAddress(0x401000); break;
    case 11: g->BasicBlock(); break;
    case 12: g->NegateStmt(); break;
    case 13: g->AdvanceLine(-70); break;
    case 14: g->Special(255); break;
    case 15: g->Special(p.opcode_base); break;
    case 16: g->DefineFile("gen.h", 1, 300, 4); break;
    case 17: g->UnknownExt(3); break;
    case 18: g->SetDiscriminator(200); break;
    case 19: g->SetFile(0x85); break;
    case 20: g->AdvancePc(3); break;
    case 21: g->PrologueEnd(); break;
    case 22: g->EpilogueBegin(); break;
    case 23: g->SetIsa(200); break;
    case 24: g->Unknown(16, 2); break;
    case 25: g->Unknown(17, 0); break;
  }
}
int Alphabet(const LineParams& p) { return p.opcode_base > 17 ? 26 : p.opcode_base >= 13 ? 24 : 21; }
bool Available(const LineParams& p, int k) {
  // With a small opcode_base, numbers at or above it are special opcodes.
  static const std::map<int, int> op = {{3, 2}, {4, 3}, {6, 4}, {7, 5}, {8, 8}, {9, 9}, {11, 7}, {12, 6}, {13, 3}, {19, 4}, {20, 2}, {0, 1}};
  auto it = op.find(k);
  return it == op.end() || it->second < p.opcode_base;
}
std::string V4Tables(int ndirs, int nfiles, std::vector<std::string>* want) {
  static const char* dn[] = {"/usr/include", "src", "x"};
  static const char* fn[] = {"a.cc", "b.h", "c.h"};
  Buf t;
  for (int i = 0; i < ndirs; ++i) {
    t.str(dn[i]);
    want->push_back("D" + std::to_string(i + 1) + "=" + dn[i]);
  }
  t.u8(0);
  for (int i = 0; i < nfiles; ++i) {
    uint64_t dir = ndirs ? (i + 1) % (ndirs + 1) : 0, mod = i == 0 ? 0 : 0x12345, len = i == 1 ? 200 : 0;
    t.str(fn[i]).uleb(dir).uleb(mod).uleb(len);
    want->push_back("F " + Str(FileDef{fn[i], i + 1, dir, mod, len}));
  }
  t.u8(0);
  return t.s;
}
// DWARF 5 tables.  Directory and file entries are numbered from `first`.
std::string V5Tables(mc::Ctx& c, const LineParams& p, int ndirs, int nfiles, int dform, int fform, int iform, bool index_first, const std::string& line_str,
                     const std::string& str, int first, std::vector<std::string>* want, int extra = -1, int extra_at = 0, bool dir_extra = false) {
  static const char* names[] = {"/comp", "include", "main.c", "inc.h", "zz"};
  Buf t(p.big);
  // Columns the reader has no use for: {content type, form}.
  static const int kExtra[][2] = {{5, 0x1e}, {4, 0x0f}, {4, 0x0b}, {4, 0x05}, {4, 0x06}, {4, 0x07}, {3, 0x0f}, {3, 0x06}, {3, 0x07}, {3, 0x09}, {0x2001, 0x1f}, {0x2001, 0x08}};
  auto extra_value = [&](int i) {
    switch (kExtra[extra][1]) {
      case 0x1e: t.raw(std::string(16, '\x80' + i)); break;
      case 0x0f: t.uleb(i ? 300 * i : 0); break;
      case 0x0b: t.u(1 + i, 1); break;
      case 0x05: t.u(1 + i, 2); break;
      case 0x06: t.u(1 + i, 4); break;
      case 0x07: t.u(1 + i, 8); break;
      case 0x09: t.uleb(i ? 130 * i : 0).raw(std::string(i ? 130 * i : 0, 'b')); break;
      case 0x1f: t.u(line_str.find("zz"), p.offset_size); break;
      case 0x08: t.str(i ? "source" : ""); break;
    }
  };
  auto put = [&](int form, int i) {
    switch (form) {
      case 0x08: t.str(names[i]); break;
      case 0x1f: t.u(line_str.find(std::string(names[i]) + '\0'), p.offset_size); break;
      case 0x0e: t.u(str.find(std::string(names[i]) + '\0'), p.offset_size); break;
      case 0x1a: t.uleb(i); break;
      case 0x25: t.u(i, 1); break;
      case 0x26: t.u(i, 2); break;
      case 0x27: t.u(i, 3); break;
      case 0x28: t.u(i, 4); break;
    }
  };
  t.u8(1 + (dir_extra && extra >= 0)).uleb(1).uleb(dform);
  if (dir_extra && extra >= 0) t.uleb(kExtra[extra][0]).uleb(kExtra[extra][1]);
  t.uleb(ndirs);
  for (int i = 0; i < ndirs; ++i) {
    put(dform, i);
    if (dir_extra && extra >= 0) extra_value(i);
    want->push_back("D" + std::to_string(i + first) + "=" + names[i]);
  }
  t.u8(extra >= 0 ? 3 : 2);
  auto column = [&](int at) {
    if (extra >= 0 && extra_at == at) t.uleb(kExtra[extra][0]).uleb(kExtra[extra][1]);
  };
  column(0);
  if (index_first) t.uleb(2).uleb(iform);
  else t.uleb(1).uleb(fform);
  column(1);
  if (index_first) t.uleb(1).uleb(fform);
  else t.uleb(2).uleb(iform);
  column(2);
  t.uleb(nfiles);
  for (int i = 0; i < nfiles; ++i) {
    uint64_t dir = ndirs ? (i + 1) % ndirs : 0;
    auto idx = [&] {
      if (iform == 0x0f) t.uleb(dir);
      else t.u(dir, iform == 0x0b ? 1 : 2);
    };
    auto cell = [&](int at) {
      if (extra >= 0 && extra_at == at) extra_value(i);
    };
    cell(0);
    if (index_first) idx();
    else put(fform, 2 + i);
    cell(1);
    if (index_first) put(fform, 2 + i);
    else idx();
    cell(2);
    want->push_back("F " + Str(FileDef{names[2 + i], i + first, dir, 0, 0}));
  }
  return t.s;
}
constexpr int kFirstV5 = 0;
struct Unit {
  std::string bytes;
  std::vector<std::string> want;
  LineParams p;
};
struct Sections {
  std::string line_str = std::string("zz\0main.c\0/comp\0include\0inc.h\0", 30);
  std::string str = std::string("include\0inc.h\0zz\0/comp\0main.c\0", 30);
  std::vector<std::string> names = {"/comp", "include", "main.c", "inc.h", "zz"};
  std::vector<uint64_t> at;  // of the names in `str`, when known
  std::string StrOffsets(const LineParams& p) const {
    Buf b(p.big);
    uint64_t n = names.size();
    if (p.offset_size == 8) b.u32(0xffffffff).u64(4 + n * 8);
    else b.u32(4 + n * 4);
    b.u16(5).u16(0);
    for (size_t i = 0; i < n; ++i) b.u(i < at.size() ? at[i] : str.find(names[i] + '\0'), p.offset_size);
    return b.s;
  }
};
// Parses consecutive units and compares every callback.
void Verify(mc::Ctx& c, const std::vector<Unit>& units, const std::string& log, const Sections& sec = Sections()) {
  const LineParams& p = units[0].p;
  std::string all;
  for (auto& u : units) all += u.bytes;
  std::string so = sec.StrOffsets(p);
  Exact e(all), ls(sec.line_str), s(sec.str), soe(so);
  ByteReader r(p.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  r.SetAddressSize(p.addr_size);
  r.SetOffsetSize(p.offset_size);
  size_t pos = 0;
  for (size_t i = 0; i < units.size(); ++i) {
    Rec h;
    LineInfo li(e.p + pos, e.n - pos, ls.p, ls.n, s.p, s.n, soe.p, soe.n, p.offset_size == 8 ? 16 : 8, &r, &h);
    uint64_t used = li.Start();
    std::vector<std::string> want = units[i].want;
    want.insert(want.begin(), "CU");
    c.check(!li.malformed(), "line-malformed", "well-formed unit rejected: " + log);
    size_t d = 0;
    while (d < want.size() && d < h.out.size() && want[d] == h.out[d]) ++d;
    if (d < want.size() || d < h.out.size())
      c.fail("line-rows", "unit " + std::to_string(i) + " callback " + std::to_string(d) + ": got " + (d < h.out.size() ? h.out[d] : "<end>") + ", reference " +
                              (d < want.size() ? want[d] : "<end>"));
    c.eq(used, uint64_t(units[i].bytes.size()), "line-consumed", "bytes consumed");
    pos += used;
    c.outcome(Join(want));
    c.transition(want.size());
  }
  c.nontrivial();
}
void Programs(mc::Ctx& c, std::vector<LineParams> ps, int depth, bool tables) {
  LineParams p = ps[c.pick(ps.size())];
  LineProgram g(p);
  g.SetAddress(0x400000);
  int al = Alphabet(p);
  int n = depth;
  for (int i = 0; i < n; ++i) {
    int k = c.pick(al + 1);
    if (k == al) break;
    if (!Available(p, k)) c.prune();
    Step(c, &g, p, k);
    c.state(g.StateHash());
  }
  if (g.open() || g.rows.empty() || !g.rows.back().end) g.EndSequence();
  Unit u;
  u.p = p;
  std::string t;
  if (p.version == 5) t = V5Tables(c, p, 2, 2, 0x1f, 0x1f, 0x0b, false, Sections().line_str, Sections().str, kFirstV5, &u.want);
  else t = V4Tables(1, 2, &u.want);
  u.bytes = LineUnit(p, t, g.bytes());
  c.say("@line-program v" + std::to_string(p.version) + " a" + std::to_string(p.addr_size) + " o" + std::to_string(p.offset_size) + " big" + std::to_string(p.big) +
        " ops: " + g.log);
  for (auto& s : g.events()) u.want.push_back(s);
  Verify(c, {u}, g.log);
}
std::vector<LineParams> Grid(bool full) {
  std::vector<LineParams> v;
  for (int ver : {4, 2, 3, 5})
    for (int big = 0; big < 2; ++big)
      for (int off : {4, 8})
        for (int as : {8, 4})
          for (int k = 0; k < 6; ++k) {
            LineParams p;
            p.version = ver;
            p.big = big;
            p.offset_size = off;
            p.addr_size = as;
            if (k == 1) p.min_inst = 4;
            if (k == 2) p.line_base = -3, p.line_range = 12, p.opcode_base = 10;
            if (k == 3) p.opcode_base = 18;
            if (k == 4) p.line_base = 1, p.line_range = 1, p.opcode_base = 4;
            if (k == 5) p.default_is_stmt = false, p.line_base = -1, p.line_range = 4, p.min_inst = 2;
            if (!full && (big + (off == 8) + (as == 4) + (k != 0) + (ver != 4) > 1)) continue;
            v.push_back(p);
          }
  return v;
}
// DWARF 5 tables with a column the reader skips, in every position.
void ExtraColumns(mc::Ctx& c) {
  std::vector<LineParams> ps;
  for (auto& p : Grid(true))
    if (p.version == 5 && p.min_inst == 1 && p.opcode_base == 13 && p.default_is_stmt) ps.push_back(p);
  LineParams p = ps[c.pick(ps.size())];
  int nd = 1 + c.pick(2), nf = 1 + c.pick(3);
  int df = c.of({0x08, 0x1f, 0x25}), ff = c.of({0x08, 0x1f, 0x1a}), xf = c.of({0x0b, 0x0f, 0x05});
  bool first = c.flip();
  int extra = c.pick(12), at = c.pick(3);
  bool dirs = c.flip();
  std::vector<Unit> us;
  for (int i = 0; i < 2; ++i) {
    Unit u;
    u.p = p;
    std::string t = V5Tables(c, p, nd, nf, df, ff, xf, first, Sections().line_str, Sections().str, kFirstV5, &u.want, i ? -1 : extra, at, dirs);
    LineProgram g(p);
    g.SetAddress(0x1000 * (i + 1));
    g.Special(100);
    g.AdvancePc(4);
    g.EndSequence();
    for (auto& s : g.events()) u.want.push_back(s);
    u.bytes = LineUnit(p, t, g.bytes());
    us.push_back(u);
  }
  std::string log = "extra column " + std::to_string(extra) + " at " + std::to_string(at) + " dirs " + std::to_string(dirs) + " forms " + std::to_string(df) + "," + std::to_string(ff) + "," + std::to_string(xf);
  c.say("@line-extra-columns " + log);
  Verify(c, us, log);
}
void Tables(mc::Ctx& c) {
  auto g = Grid(true);
  std::vector<LineParams> ps;
  for (auto& p : g)
    if (p.min_inst == 1 && p.opcode_base == 13 && p.default_is_stmt) ps.push_back(p);
  LineParams p = ps[c.pick(ps.size())];
  int units = 1 + c.pick(2);
  std::vector<Unit> us;
  std::string log;
  for (int i = 0; i < units; ++i) {
    Unit u;
    u.p = p;
    std::string t;
    bool small = units == 2;
    if (p.version == 5) {
      static const std::vector<int> forms = {0x08, 0x1f, 0x0e, 0x1a, 0x25, 0x26, 0x27, 0x28};
      static const std::vector<int> sforms = {0x08, 0x1f};
      int nd = 1 + c.pick(2), nf = small ? 1 + c.pick(2) : 1 + c.pick(3);
      int df = c.of(small ? sforms : forms), ff = c.of(small ? sforms : forms), xf = c.of({0x0b, 0x0f, 0x05});
      bool first = c.flip();
      log += "v5 dirs=" + std::to_string(nd) + " files=" + std::to_string(nf) + " forms " + std::to_string(df) + "," + std::to_string(ff) + "," + std::to_string(xf) + " idxfirst" +
             std::to_string(first) + "; ";
      t = V5Tables(c, p, nd, nf, df, ff, xf, first, Sections().line_str, Sections().str, kFirstV5, &u.want);
    } else {
      int nd = c.pick(4), nf = c.pick(4);
      log += "dirs=" + std::to_string(nd) + " files=" + std::to_string(nf) + "; ";
      t = V4Tables(nd, nf, &u.want);
    }
    LineProgram g(p);
    int seqs = 1 + c.pick(2);
    for (int s = 0; s < seqs; ++s) {
      g.SetAddress(0x1000 * (s + 1));
      g.SetFile(1 + s);
      g.Special(100);
      g.AdvancePc(4);
      g.EndSequence();
    }
    for (auto& s : g.events()) u.want.push_back(s);
    u.bytes = LineUnit(p, t, g.bytes());
    us.push_back(u);
  }
  c.say("@line-tables v" + std::to_string(p.version) + " " + log);
  c.state(log);
  Verify(c, us, log);
}
// More directories, files, rows or sequences than small integer types count, and wide values in every register.
void Large(mc::Ctx& c) {
  LineParams p;
  p.version = c.of({2, 3, 4, 5});
  p.big = c.flip();
  p.offset_size = c.of({4, 8});
  const int what = c.pick(4), n = c.of({130, 260, 70000});
  const int nd = what == 0 ? n : 2, nf = what == 1 ? n : 3, rows = what >= 2 ? n : 5;
  const int form = p.version == 5 ? c.of({0x08, 0x1f, 0x1a}) : 0, xform = p.version == 5 ? c.of(nd > 256 ? std::vector<int>{0x0f, 0x05} : std::vector<int>{0x0b, 0x0f, 0x05}) : 0;
  if (nd > 65536 && xform == 0x05) c.prune();
  if (n > 1000 && p.big == (p.offset_size == 4)) c.prune();
  std::string log = "v" + std::to_string(p.version) + " big" + std::to_string(p.big) + " o" + std::to_string(p.offset_size) + " dirs " + std::to_string(nd) + " files " + std::to_string(nf) +
                    " rows " + std::to_string(rows) + " in " + (what == 2 ? "one sequence" : "sequences") + " forms " + std::to_string(form) + "," + std::to_string(xform);
  c.say("@line-large " + log);
  Unit u;
  u.p = p;
  Sections sec;
  sec.line_str.clear();
  sec.str.clear();
  sec.names.clear();
  Buf t(p.big);
  auto dir = [](int i) { return "dir" + std::to_string(i); };
  auto file = [](int i) { return "f" + std::to_string(i) + ".c"; };
  auto put = [&](const std::string& s) {
    if (form == 0x08) t.str(s);
    if (form == 0x1f) t.u(sec.line_str.size(), p.offset_size), sec.line_str += s + '\0';
    if (form == 0x1a) t.uleb(sec.names.size()), sec.names.push_back(s);
  };
  auto of = [&](int i) { return static_cast<uint64_t>(i) * 7 % (nd + (p.version < 5)); };
  if (p.version < 5) {
    for (int i = 1; i <= nd; ++i) {
      t.str(dir(i));
      u.want.push_back("D" + std::to_string(i) + "=" + dir(i));
    }
    t.u8(0);
    for (int i = 1; i <= nf; ++i) {
      uint64_t mod = i * 0x10001ull, len = i * 0x30001ull;
      t.str(file(i)).uleb(of(i)).uleb(mod).uleb(len);
      u.want.push_back("F " + Str(FileDef{file(i), i, of(i), mod, len}));
    }
    t.u8(0);
  } else {
    t.u8(1).uleb(1).uleb(form).uleb(nd);
    for (int i = 0; i < nd; ++i) {
      put(dir(i));
      u.want.push_back("D" + std::to_string(i) + "=" + dir(i));
    }
    t.u8(2).uleb(1).uleb(form).uleb(2).uleb(xform).uleb(nf);
    for (int i = 0; i < nf; ++i) {
      put(file(i));
      if (xform == 0x0f) t.uleb(of(i));
      else t.u(of(i), xform == 0x0b ? 1 : 2);
      u.want.push_back("F " + Str(FileDef{file(i), i, of(i), 0, 0}));
    }
  }
  for (auto& x : sec.names) {
    sec.at.push_back(sec.str.size());
    sec.str += x + '\0';
  }
  LineProgram g(p);
  uint64_t at = 0x7fffff00;
  for (int i = 0; i < rows; ++i) {
    if (i == 0 || what == 3) g.SetAddress(at);
    g.SetFile(i % 3 == 0 ? nf - i % nf : 1 + i % nf);
    g.SetColumn(i * 97ull);
    if (i % 2) g.SetDiscriminator(i * 0x7fffull);
    if (i % 1000 == 3) g.AdvanceLine(0x40000000);
    if (i % 1000 == 5) g.AdvanceLine(-0x40000000);
    g.AdvancePc(i % 500 == 7 ? 0x123456789ull : i);
    g.Special(20 + i % 200);
    at = g.address() + 16;
    if (what == 3) g.EndSequence();
  }
  if (what != 3) g.EndSequence();
  for (auto& s : g.events()) u.want.push_back(s);
  u.bytes = LineUnit(p, t.s, g.bytes());
  Verify(c, {u}, log, sec);
}
// Units a reader must refuse without calling AddLine: unsupported version or a
// length that leaves the section.
void Rejects(mc::Ctx& c) {
  LineParams p;
  p.version = c.of({2, 3, 4, 5});
  p.big = c.flip();
  p.offset_size = c.of({4, 8});
  Unit u;
  u.p = p;
  std::string t = p.version == 5 ? V5Tables(c, p, 2, 2, 8, 8, 0x0b, false, "", "", kFirstV5, &u.want) : V4Tables(1, 1, &u.want);
  LineProgram g(p);
  g.SetAddress(0x1000);
  g.Copy();
  g.EndSequence();
  std::string b = LineUnit(p, t, g.bytes());
  int what = c.pick(2);
  size_t voff = p.offset_size == 8 ? 12 : 4;
  int val = 0;
  if (what == 0) {
    val = c.of({0, 1, 6, 7, 0xffff});
    Buf v(p.big);
    v.u16(val);
    b.replace(voff, 2, v.s);
  } else {
    val = 1 + c.pick(static_cast<int>(b.size()) - 20);
    b.resize(b.size() - val);
  }
  c.say("@line-reject v" + std::to_string(p.version) + (what ? " truncated by " : " version ") + std::to_string(val));
  Exact e(b);
  ByteReader r(p.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  r.SetAddressSize(8);
  Rec h;
  LineInfo li(e.p, e.n, nullptr, 0, nullptr, 0, nullptr, 0, 0, &r, &h);
  uint64_t used = li.Start();
  c.check(li.malformed(), "line-reject", "malformed unit accepted");
  c.eq(used, uint64_t(b.size()), "line-reject-consumed", "bytes to skip");
  for (auto& s : h.out) c.check(s[0] != 'R', "line-reject-row", "row reported from a malformed unit: " + s);
  c.nontrivial();
  c.outcome(std::to_string(what) + std::to_string(val));
}
// Two-level tables (version 0xf006): logical rows, then actual rows naming them.
void TwoLevel(mc::Ctx& c, int nlog, int nact) {
  bool big = c.flip();
  const int osz = c.of({4, 8});
  struct LS {
    uint64_t addr = 0;
    uint32_t file = 1, line = 1, col = 0, disc = 0, ctx = 0, sp = 0;
  } s;
  Buf lg(big);
  std::vector<LS> logicals;
  std::vector<std::string> want;
  std::string log;
  auto emit = [&] {
    logicals.push_back(s);
    want.push_back("L " + Str(Row{s.addr, s.file, s.line, s.col, s.disc, false}) + " ctx" + std::to_string(s.ctx) + " sp" + std::to_string(s.sp));
    s.disc = 0;
  };
  lg.u8(0).uleb(9).u8(2).u64(0x1000);
  s.addr = 0x1000;
  for (int i = 0; i < nlog; ++i) {
    switch (c.pick(7)) {
      case 0: lg.u8(1); emit(); log += "copy "; break;
      case 1: lg.u8(14).sleb(0).uleb(2); s.ctx = logicals.size(); s.sp = 2; log += "inlined_call "; break;
      case 2:
        lg.u8(15);
        log += "pop ";
        if (s.ctx > 0 && s.ctx <= logicals.size()) {
          LS l = logicals[s.ctx - 1];
          l.addr = s.addr;
          s = l;
        }
        break;
      case 3: lg.u8(13).uleb(1); s.sp = 1; s.ctx = 0; log += "subprog "; break;
      case 4: lg.u8(3).sleb(5); s.line += 5; log += "line "; break;
      case 5: lg.u8(0).uleb(2).u8(4).uleb(9); s.disc = 9; log += "disc "; break;
      case 6: lg.u8(2).uleb(16); s.addr += 16; log += "pc "; break;
    }
  }
  lg.u8(0).uleb(1).u8(1);
  emit();
  want.push_back("ACT");
  Buf ac(big);
  uint64_t addr = 0;
  int64_t row = 1;
  auto aemit = [&](bool end) {
    if (row >= 1 && row <= int64_t(logicals.size())) {
      auto& l = logicals[row - 1];
      want.push_back("R " + Str(Row{addr, l.file, l.line, l.col, l.disc, end}));
    }
  };
  for (int i = 0; i < nact; ++i) {
    switch (c.pick(5)) {
      case 0: ac.u8(1); aemit(false); log += "| copy "; break;
      case 1:
        ac.u8(13).sleb(1);
        row += 1;
        if (row <= int64_t(logicals.size())) addr = logicals[row - 1].addr;
        log += "| fromlogical1 ";
        break;
      case 2:
        ac.u8(13).sleb(-1);
        row -= 1;
        if (row >= 1 && row <= int64_t(logicals.size())) addr = logicals[row - 1].addr;
        log += "| fromlogical-1 ";
        break;
      case 3: ac.u8(2).uleb(3); addr += 3; log += "| pc "; break;
      case 4: ac.u8(3).sleb(1); row += 1; log += "| line "; break;
    }
    if (row < 0) c.prune();
  }
  ac.u8(0).uleb(1).u8(1);
  aemit(true);
  c.say("@two-level " + log);
  Buf rest(big);
  rest.u8(1).u8(1).u8(1).u8(-5).u8(14).u8(16);
  static const int lens[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 2, 0};
  for (int i = 1; i < 16; ++i) rest.u8(lens[i]);
  rest.raw(std::string(7, '\0'));
  Buf t2(big);
  t2.u8(1).uleb(1).uleb(8).uleb(1).str("dir");
  t2.u8(2).uleb(1).uleb(8).uleb(2).uleb(0x0b).uleb(1).str("f.c").u8(1);
  t2.u8(3).uleb(6).uleb(8).uleb(7).uleb(0x0b).uleb(8).uleb(0x05).uleb(1).str("fn").u8(1).u16(300);
  uint64_t base = rest.size() + 2 * osz + t2.size();
  rest.u(base, osz).u(base + lg.size(), osz).raw(t2.s);
  Buf unit(big);
  uint64_t len = 2 + osz + rest.size() + lg.size() + ac.size();
  if (osz == 8) unit.u32(0xffffffff).u64(len);
  else unit.u32(len);
  unit.u16(0xf006).u(rest.size(), osz).raw(rest.s).raw(lg.s).raw(ac.s);
  want.insert(want.begin(), {"D1=dir", "F " + Str(FileDef{"f.c", 1, 1, 0, 0}), "Sfn#1 1:300"});
  Unit u;
  u.bytes = unit.s;
  u.want = want;
  u.p.big = big;
  u.p.offset_size = osz;
  c.state(log);
  Verify(c, {u}, log);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"one-deviation-headers", [](mc::Ctx& c) { static auto g = Grid(false); Programs(c, g, mc::tier(3, 4), true); }, 3},
                   {"all-headers", [](mc::Ctx& c) { static auto g = Grid(true); Programs(c, g, mc::tier(2, 3), true); }, 3},
                   {"deep-programs", [](mc::Ctx& c) { Programs(c, {LineParams()}, mc::tier(4, 5), true); }, 3},
                   {"extra-columns", ExtraColumns, 4},
                   {"tables", Tables, 5},
                   {"two-level", [](mc::Ctx& c) { TwoLevel(c, mc::tier(4, 6), mc::tier(3, 4)); }, 4},
                   {"large", Large, 3},
                   {"rejects", Rejects, 2}});
}
