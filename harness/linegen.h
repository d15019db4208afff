// Generates .debug_line units (bytes) together with the rows the DWARF line
// state machine defines for them.  Independent of /repo's code.
#ifndef VERIF_LINEGEN_H_
#define VERIF_LINEGEN_H_
#include <string>
#include <vector>
#include "bytesbuf.h"
struct Row {
  uint64_t addr;
  uint32_t file, line, col, disc;
  bool end;
  bool operator==(const Row& o) const { return addr == o.addr && file == o.file && line == o.line && col == o.col && disc == o.disc && end == o.end; }
};
inline std::string Str(const Row& r) {
  char b[120];
  snprintf(b, 120, "(%llx f%u l%u c%u d%u%s)", (unsigned long long)r.addr, r.file, r.line, r.col, r.disc, r.end ? " END" : "");
  return b;
}
struct FileDef {
  std::string name;
  int num;
  uint64_t dir, mod, len;
};
inline std::string Str(const FileDef& f) { return f.name + "#" + std::to_string(f.num) + "@" + std::to_string(f.dir) + "," + std::to_string(f.mod) + "," + std::to_string(f.len); }
struct LineParams {
  int version = 4, addr_size = 8, offset_size = 4;
  bool big = false;
  int min_inst = 1, line_base = -5, line_range = 14, opcode_base = 13;
  bool default_is_stmt = true;
};
// Builds one program and interprets it at the same time (reference).
class LineProgram {
 public:
  explicit LineProgram(const LineParams& p) : p_(p), b(p.big) { Reset(); }
  std::vector<Row> rows;
  std::string log;
  const std::vector<std::string>& events() const { return ev_; }  // rows and define_file records in program order
  bool open() const { return open_; }
  uint64_t address() const { return addr_; }
  void Reset() {
    addr_ = 0;
    file_ = 1;
    line_ = 1;
    col_ = disc_ = 0;
    open_ = false;
  }
  void Special(int op) {  // op in [opcode_base, 255]
    b.u8(op);
    int a = op - p_.opcode_base;
    addr_ += uint64_t(a / p_.line_range) * p_.min_inst;
    line_ += p_.line_base + a % p_.line_range;
    Emit(false);
    log += "special" + std::to_string(op) + " ";
  }
  void Copy() { b.u8(1); Emit(false); log += "copy "; }
  void AdvancePc(uint64_t n) { b.u8(2).uleb(n); addr_ += n * p_.min_inst; open_ = true; log += "pc+" + std::to_string(n) + " "; }
  void AdvanceLine(int64_t n) { b.u8(3).sleb(n); line_ += n; open_ = true; log += "line" + std::to_string(n) + " "; }
  void SetFile(uint64_t n) { b.u8(4).uleb(n); file_ = n; open_ = true; log += "file" + std::to_string(n) + " "; }
  void SetColumn(uint64_t n) { b.u8(5).uleb(n); col_ = n; open_ = true; log += "col" + std::to_string(n) + " "; }
  void NegateStmt() { b.u8(6); open_ = true; log += "stmt "; }
  void BasicBlock() { b.u8(7); open_ = true; log += "bb "; }
  void ConstAddPc() { b.u8(8); addr_ += uint64_t((255 - p_.opcode_base) / p_.line_range) * p_.min_inst; open_ = true; log += "constpc "; }
  void FixedAdvancePc(uint16_t n) { b.u8(9).u16(n); addr_ += n; open_ = true; log += "fixed+" + std::to_string(n) + " "; }
  void PrologueEnd() { b.u8(10); open_ = true; log += "prologue_end "; }
  void EpilogueBegin() { b.u8(11); open_ = true; log += "epilogue_begin "; }
  void SetIsa(int n) { b.u8(12).uleb(n); open_ = true; log += "isa "; }
  void Unknown(int op, int args) {
    b.u8(op);
    for (int i = 0; i < args; ++i) b.uleb(i ? 0x81 : 300);
    open_ = true;
    log += "unknown" + std::to_string(op) + " ";
  }
  void SetAddress(uint64_t a) { b.u8(0).uleb(1 + p_.addr_size).u8(2).u(a, p_.addr_size); addr_ = a; open_ = true; log += "addr=" + std::to_string(a) + " "; }
  void SetDiscriminator(uint64_t d) {
    Buf t;
    t.uleb(d);
    b.u8(0).uleb(1 + t.size()).u8(4).raw(t.s);
    disc_ = d;
    open_ = true;
    log += "disc" + std::to_string(d) + " ";
  }
  void DefineFile(const std::string& n, int dir, int mod, int len) {
    Buf t;
    t.str(n).uleb(dir).uleb(mod).uleb(len);
    b.u8(0).uleb(1 + t.size()).u8(3).raw(t.s);
    ev_.push_back("F " + Str(FileDef{n, -1, uint64_t(dir), uint64_t(mod), uint64_t(len)}));
    open_ = true;
    log += "define_file ";
  }
  void UnknownExt(int n) {
    b.u8(0).uleb(1 + n).u8(0x80);
    for (int i = 0; i < n; ++i) b.u8(0);
    open_ = true;
    log += "unknown_ext ";
  }
  void EndSequence() { b.u8(0).uleb(1).u8(1); Emit(true); Reset(); log += "END "; }
  std::string bytes() const { return b.s; }
  uint64_t StateHash() const { char t[200]; snprintf(t, 200, "%llx.%u.%u.%u.%u.%d", (unsigned long long)addr_, file_, line_, col_, disc_, open_); std::string s(t); uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

 private:
  void Emit(bool end) {
    rows.push_back({addr_, file_, line_, col_, disc_, end});
    ev_.push_back("R " + Str(rows.back()));
    disc_ = 0;
    open_ = !end;
  }
  LineParams p_;
  std::vector<std::string> ev_;
  Buf b;
  uint64_t addr_;
  uint32_t file_, line_, col_, disc_;
  bool open_;
};
// The standard opcode lengths the DWARF standard assigns; opcodes above 12 are
// vendor opcodes with the argument counts given here.
inline int VendorArgs(int op) { return op == 16 ? 2 : op == 17 ? 0 : 1; }
inline int StdArgs(int op) {
  static const int n[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1};
  return op <= 12 ? n[op] : VendorArgs(op);
}
// Wraps tables + program into a unit.
inline std::string LineUnit(const LineParams& p, const std::string& tables, const std::string& program) {
  Buf head(p.big), rest(p.big), out(p.big);
  rest.u8(p.min_inst);
  if (p.version >= 4) rest.u8(1);
  rest.u8(p.default_is_stmt).u8(p.line_base).u8(p.line_range).u8(p.opcode_base);
  for (int i = 1; i < p.opcode_base; ++i) rest.u8(StdArgs(i));
  rest.raw(tables);
  head.u16(p.version);
  if (p.version == 5) head.u8(p.addr_size).u8(0);
  head.u(rest.size(), p.offset_size);
  uint64_t len = head.size() + rest.size() + program.size();
  if (p.offset_size == 8) out.u32(0xffffffff).u64(len);
  else out.u32(len);
  return out.raw(head.s).raw(rest.s).raw(program).s;
}
#endif
