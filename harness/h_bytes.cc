// S01: ByteReader against an independent arithmetic definition of every encoding.
#include "mc.h"
#include "bytesbuf.h"
#include "symbolize/bytereader.h"
#include "symbolize/bytereader-inl.h"
using namespace devtools_crosstool_autofdo;
namespace {
const std::vector<int> kA = {0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff};
uint64_t Want(const std::string& b, int n, bool big) {
  unsigned __int128 v = 0;
  for (int i = 0; i < n; ++i) v = v * 256 + static_cast<unsigned char>(b[big ? i : n - 1 - i]);
  return static_cast<uint64_t>(v);
}
void Fixed(mc::Ctx& c) {
  bool big = c.flip();
  int n = c.of({1, 2, 3, 4, 8});
  std::string b;
  if (n <= 2) {
    for (int i = 0; i < n; ++i) b += static_cast<char>(c.pick(256));
  } else {
    // n == 8: six byte values at every position would be 6^8; quick keeps the extremes.
    std::vector<int> a = kA;
    if (n == 8 && !mc::thorough()) a = {0x00, 0x7f, 0x80, 0xff};
    for (int i = 0; i < n; ++i) b += static_cast<char>(c.of(a));
  }
  Exact e(b);
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  c.say("@fixed n=" + std::to_string(n) + " big=" + std::to_string(big) + " bytes=" + Hex(b));
  uint64_t w = Want(b, n, big), g = 0;
  switch (n) {
    case 1: g = r.ReadOneByte(e.p); break;
    case 2: g = r.ReadTwoBytes(e.p); break;
    case 3: g = r.ReadThreeBytes(e.p); break;
    case 4: g = r.ReadFourBytes(e.p); break;
    case 8: g = r.ReadEightBytes(e.p); break;
  }
  c.eq(g, w, "fixed-width", "value");
  if (n == 4 || n == 8) {
    r.SetAddressSize(n);
    r.SetOffsetSize(n == 4 ? 8 : 4);
    c.eq(int(r.AddressSize()), n, "address-size", "address size");
    c.eq(r.ReadAddress(e.p), w, "read-address", "address");
    r.SetOffsetSize(n);
    r.SetAddressSize(n == 4 ? 8 : 4);
    c.eq(int(r.OffsetSize()), n, "offset-size", "offset size");
    c.eq(r.ReadOffset(e.p), w, "read-offset", "offset");
  }
  c.state(b + char(n) + char(big));
  c.outcome(w);
  c.nontrivial();
}
void Leb(mc::Ctx& c) {
  // Every byte string of up to L bytes over the alphabet, terminated properly.
  const std::vector<int> pay = {0x00, 0x01, 0x3f, 0x40, 0x7e, 0x7f};
  int len = 1 + c.pick(mc::tier(6, 8));
  std::string b;
  for (int i = 0; i < len; ++i) b += static_cast<char>(c.of(pay) | (i + 1 < len ? 0x80 : 0));
  Exact e(b);
  ByteReader r(ENDIANNESS_LITTLE);
  c.say("@leb bytes=" + Hex(b));
  unsigned __int128 u = 0;
  for (int i = len - 1; i >= 0; --i) u = u * 128 + (static_cast<unsigned char>(b[i]) & 0x7f);
  size_t l = 0;
  c.eq(r.ReadUnsignedLEB128(e.p, &l), static_cast<uint64_t>(u), "uleb", "value");
  c.eq(l, size_t(len), "uleb-len", "length");
  __int128 sv = u;
  if (b.back() & 0x40) sv -= static_cast<__int128>(1) << (7 * len);
  l = 0;
  c.eq(r.ReadSignedLEB128(e.p, &l), static_cast<int64_t>(sv), "sleb", "value");
  c.eq(l, size_t(len), "sleb-len", "length");
  c.state(b);
  c.outcome(static_cast<uint64_t>(u));
  c.nontrivial();
}
void LebValues(mc::Ctx& c) {
  // Every value around a power of two, canonical and zero padded up to 10 bytes.
  int k = c.pick(64);
  int d = c.pick(5) - 2;
  uint64_t v = (k ? (uint64_t{1} << k) : 0) + d;
  int pad = c.pick(3);
  Buf ub;
  ub.uleb(v);
  if (pad) {
    Buf t;
    t.uleb(v, std::min<int>(pad, 10 - ub.size()));
    ub = t;
  }
  Exact e(ub.s);
  ByteReader r(ENDIANNESS_LITTLE);
  c.say("@uleb value=" + std::to_string(v) + " bytes=" + Hex(ub.s));
  size_t l = 0;
  c.eq(r.ReadUnsignedLEB128(e.p, &l), v, "uleb", "value");
  c.eq(l, ub.size(), "uleb-len", "length");
  for (int64_t sv : {static_cast<int64_t>(v), -static_cast<int64_t>(v >> 1)}) {
    Buf sb;
    sb.sleb(sv);
    Exact e2(sb.s);
    l = 0;
    c.eq(r.ReadSignedLEB128(e2.p, &l), sv, "sleb", "value");
    c.eq(l, sb.size(), "sleb-len", "length");
  }
  c.state("v" + std::to_string(v));
  c.outcome(v);
}
void InitialLength(mc::Ctx& c) {
  // Sequences of initial lengths read with one reader: the offset size always
  // follows the last one read.
  bool big = c.flip();
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  int n = 1 + c.pick(3);
  std::string log;
  for (int i = 0; i < n; ++i) {
    bool is64 = c.flip();
    uint64_t v = c.of<uint64_t>({0, 1, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0x12345678});
    if (is64) v |= c.of<uint64_t>({0, uint64_t{1} << 32, uint64_t{1} << 63, 0xffffffff00000000ull});
    Buf b(big);
    if (is64) b.u32(0xffffffff).u64(v);
    else b.u32(v);
    Exact e(b.s);
    log += Hex(b.s) + " ";
    c.say("@initial-length big=" + std::to_string(big) + " " + log);
    size_t l = 99;
    c.eq(r.ReadInitialLength(e.p, &l), v, "initial-length", "value");
    c.eq(l, size_t(is64 ? 12 : 4), "initial-length-size", "field size");
    c.eq(int(r.OffsetSize()), is64 ? 8 : 4, "initial-length-offset-size", "offset size");
    Buf o(big);
    o.u(0x1122334455667788ull & (is64 ? ~0ull : 0xffffffffull), is64 ? 8 : 4);
    Exact oe(o.s);
    c.eq(r.ReadOffset(oe.p), is64 ? 0x1122334455667788ull : 0x55667788ull, "initial-length-offset", "offset after initial length");
    c.transition();
  }
  c.state(log);
  c.outcome(log);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"fixed-width", Fixed, 4}, {"leb128-bytes", Leb, 3}, {"leb128-values", LebValues, 2}, {"initial-length", InitialLength, 3}});
}
