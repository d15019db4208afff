// Byte-string builder used by the generators (independent of /repo's code).
#ifndef VERIF_BYTESBUF_H_
#define VERIF_BYTESBUF_H_
#include <stdint.h>
#include <stdio.h>
#include <string>
struct Buf {
  std::string s;
  bool big = false;
  explicit Buf(bool big_endian = false) : big(big_endian) {}
  size_t size() const { return s.size(); }
  Buf& u(uint64_t v, int n) {
    for (int i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * (big ? n - 1 - i : i)));
    return *this;
  }
  Buf& u8(uint64_t v) { return u(v, 1); }
  Buf& u16(uint64_t v) { return u(v, 2); }
  Buf& u32(uint64_t v) { return u(v, 4); }
  Buf& u64(uint64_t v) { return u(v, 8); }
  Buf& uleb(uint64_t v, int pad = 0) {
    do {
      uint8_t b = v & 0x7f;
      v >>= 7;
      if (v || pad > 0) b |= 0x80;
      s += static_cast<char>(b);
    } while (v);
    for (; pad > 0; --pad) s += static_cast<char>(pad > 1 ? 0x80 : 0);
    return *this;
  }
  Buf& sleb(int64_t v) {
    for (;;) {
      uint8_t b = v & 0x7f;
      v >>= 7;
      if ((v == 0 && !(b & 0x40)) || (v == -1 && (b & 0x40))) {
        s += static_cast<char>(b);
        return *this;
      }
      s += static_cast<char>(b | 0x80);
    }
  }
  Buf& str(const std::string& v) {
    s += v;
    s += '\0';
    return *this;
  }
  Buf& raw(const std::string& v) {
    s += v;
    return *this;
  }
  void set(size_t off, uint64_t v, int n) {
    for (int i = 0; i < n; ++i) s[off + i] = static_cast<char>(v >> (8 * (big ? n - 1 - i : i)));
  }
  void align(size_t a) {
    while (s.size() % a) s += '\0';
  }
};
inline std::string Hex(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, 4, "%02x", c);
    o += b;
  }
  return o;
}
// A heap copy of exactly the given bytes, so AddressSanitizer sees overreads.
struct Exact {
  char* p;
  size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size() + (s.empty() ? 1 : 0)]), n(s.size()) { s.copy(p, n); }
  ~Exact() { delete[] p; }
  Exact(const Exact&) = delete;
};
#endif
