// S03: .debug_ranges / .debug_rnglists decoding against the DWARF definition.
#include "mc.h"
#include "bytesbuf.h"
#include "symbolize/bytereader.h"
#include "symbolize/bytereader-inl.h"
#include "symbolize/dwarf3ranges.h"
using namespace devtools_crosstool_autofdo;
namespace {
using RL = std::vector<std::pair<uint64_t, uint64_t>>;
std::string Show(const RL& l) {
  std::string s;
  char b[64];
  for (auto& r : l) {
    if (r.first == r.second) continue;  // empty ranges cover nothing
    snprintf(b, 64, "[%llx,%llx)", (unsigned long long)r.first, (unsigned long long)r.second);
    s += b;
  }
  return s;
}
// Added to addresses and lengths: values that need all 64 bits of an address.
uint64_t g_wide = 0;
RL Conv(const AddressRangeList::RangeList& l) {
  RL r;
  for (auto& x : l) r.push_back({x.first, x.second});
  return r;
}
// One list in .debug_ranges form.
void GenRanges(mc::Ctx& c, Buf* out, int w, uint64_t base, int depth, RL* want, std::string* log) {
  const uint64_t max = w == 4 ? 0xffffffffull : ~0ull;
  const uint64_t mask = max;
  int n = c.pick(depth + 1);
  for (int i = 0; i < n; ++i) {
    int k = c.pick(5);
    char t[80];
    if (k == 4) {
      uint64_t b = c.of<uint64_t>({0, 0x4000, 0x7f000000}) + g_wide;
      out->u(max, w).u(b, w);
      base = b;
      snprintf(t, 80, "base=%llx ", (unsigned long long)b);
    } else {
      static const uint64_t pr[4][2] = {{0x10, 0x18}, {0, 8}, {0x20, 0x20}, {0x80000000 - 8, 0x80000000}};
      const uint64_t lo = pr[k][0] + (k == 2 ? 2 * g_wide : 0), hi = pr[k][1] + (k == 2 || k == 0 ? 3 * g_wide : 0);
      out->u(lo, w).u(hi, w);
      want->push_back({(lo + base) & mask, (hi + base) & mask});
      snprintf(t, 80, "pair=%llx,%llx ", (unsigned long long)lo, (unsigned long long)hi);
    }
    *log += t;
  }
  out->u(0, w).u(0, w);
}
void DebugRanges(mc::Ctx& c) {
  bool big = c.flip();
  int w = g_wide == 0 && c.flip() ? 4 : 8;
  uint64_t base = c.of<uint64_t>({0, 0x1000}) + g_wide;
  int nlists = 1 + (g_wide == 0 ? c.pick(2) : 0);
  Buf b(big);
  std::vector<uint64_t> off;
  std::vector<RL> want;
  std::string log;
  for (int i = 0; i < nlists; ++i) {
    off.push_back(b.size());
    want.emplace_back();
    log += "list: ";
    GenRanges(c, &b, w, base, g_wide ? 3 : nlists == 1 ? mc::tier(4, 6) : mc::tier(2, 3), &want.back(), &log);
  }
  c.say("@debug_ranges big=" + std::to_string(big) + " w=" + std::to_string(w) + " base=" + std::to_string(base) + " " + log);
  Exact e(b.s);
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  r.SetAddressSize(w);
  r.SetOffsetSize(4);
  AddressRangeList arl(e.p, e.n, nullptr, 0, &r, nullptr, 0);
  for (int i = nlists - 1; i >= 0; --i) {
    AddressRangeList::RangeList got;
    arl.ReadRangeList(off[i], base, &got, c.of({2, 4}));
    c.eq(Show(Conv(got)), Show(want[i]), "debug-ranges", "ranges");
    c.transition();
  }
  c.state(b.s + char(big) + char(w));
  for (auto& l : want) c.outcome(Show(l));
  c.nontrivial();
}
struct AddrTable {
  Buf b;
  uint64_t base = 0;
  std::vector<uint64_t> v;
};
void GenRng(mc::Ctx& c, Buf* out, int w, uint64_t base, const std::vector<uint64_t>& addr, int depth, RL* want, std::string* log) {
  int n = c.pick(depth + 1);
  for (int i = 0; i < n; ++i) {
    int k = 1 + c.pick(7);
    char t[96];
    auto idx = [&] { return c.pick(2) ? 2 : 0; };
    switch (k) {
      case 1: {
        int x = idx();
        out->u8(1).uleb(x);
        base = addr[x];
        snprintf(t, 96, "base_addressx(%d) ", x);
        break;
      }
      case 2: {
        int x = idx(), y = c.pick(2) ? x : x + 1;
        out->u8(2).uleb(x).uleb(y);
        want->push_back({addr[x], addr[y]});
        snprintf(t, 96, "startx_endx(%d,%d) ", x, y);
        break;
      }
      case 3: {
        uint64_t x = idx(), l = c.of<uint64_t>({0x10, 0, 0x90}) + g_wide;
        out->u8(3).uleb(x).uleb(l);
        want->push_back({addr[x], addr[x] + l});
        snprintf(t, 96, "startx_length(%llx,%llx) ", (unsigned long long)x, (unsigned long long)l);
        break;
      }
      case 4: {
        uint64_t a = c.of<uint64_t>({0, 0x85}) + (g_wide ? c.of<uint64_t>({0, g_wide}) : 0), e = a + c.of({8, 0, 0x200}) + g_wide;
        out->u8(4).uleb(a).uleb(e);
        want->push_back({a + base, e + base});
        snprintf(t, 96, "offset_pair(%llx,%llx) ", (unsigned long long)a, (unsigned long long)e);
        break;
      }
      case 5: {
        uint64_t a = c.of<uint64_t>({0x6000, 0}) + g_wide;
        out->u8(5).u(a, w);
        base = a;
        snprintf(t, 96, "base_address(%llx) ", (unsigned long long)a);
        break;
      }
      case 6: {
        uint64_t a = 0x5000 + g_wide, e = a + c.of({0x20, 0}) + g_wide;
        out->u8(6).u(a, w).u(e, w);
        want->push_back({a, e});
        snprintf(t, 96, "start_end(%llx,%llx) ", (unsigned long long)a, (unsigned long long)e);
        break;
      }
      case 7: {
        uint64_t a = 0x7000 + g_wide, l = c.of({0x20, 0, 0x81}) + g_wide;
        out->u8(7).u(a, w).uleb(l);
        want->push_back({a, a + l});
        snprintf(t, 96, "start_length(%llx,%llx) ", (unsigned long long)a, (unsigned long long)l);
        break;
      }
    }
    *log += t;
  }
  out->u8(0);
}
// One .debug_rnglists section; every list readable directly (section offset)
// and, where the contribution has an offset array, through its index.
void RngLists(mc::Ctx& c, int contributions, int lists, int depth) {
  bool big = c.flip();
  int w = g_wide == 0 && c.flip() ? 4 : 8;
  uint64_t base = c.of<uint64_t>({0, 0x1000}) + g_wide;
  // .debug_addr: optionally preceded by another contribution.
  Buf ab(big);
  const std::vector<uint64_t> addr = {0x2000 + g_wide, 0x2040 + 2 * g_wide, 0x3000 + g_wide, 0x3008 + g_wide};
  uint64_t addr_base = 0;
  int pre = c.pick(2);
  for (int k = 0; k <= pre; ++k) {
    ab.u32(4 + addr.size() * w).u16(5).u8(w).u8(0);
    addr_base = ab.size();
    for (uint64_t a : addr) ab.u(k == pre ? a : a + 0x100000, w);
  }
  Buf sec(big);
  struct L {
    uint64_t sec_off, rbase, index, rel;
    bool indexed;
    RL want;
  };
  std::vector<L> all;
  std::string log;
  // All contributions of a section share the offset size (one producer).
  bool is64 = c.flip();
  for (int k = 0; k < contributions; ++k) {
    bool indexed = c.flip();
    Buf body(big);
    std::vector<uint64_t> rel;
    std::vector<RL> wants;
    int osz = is64 ? 8 : 4;
    uint64_t arr = indexed ? lists * osz : 0;
    for (int i = 0; i < lists; ++i) {
      rel.push_back(arr + body.size());
      wants.emplace_back();
      log += indexed ? "list(indexed): " : "list: ";
      GenRng(c, &body, w, base, addr, depth, &wants.back(), &log);
    }
    uint64_t len = 2 + 1 + 1 + 4 + arr + body.size();
    if (is64) sec.u32(0xffffffff).u64(len);
    else sec.u32(len);
    sec.u16(5).u8(w).u8(0).u32(indexed ? lists : 0);
    uint64_t rbase = sec.size();
    if (indexed)
      for (auto r : rel) sec.u(r, osz);
    sec.raw(body.s);
    for (int i = 0; i < lists; ++i) all.push_back({rbase + rel[i], rbase, uint64_t(i), rel[i], indexed, wants[i]});
  }
  c.say("@debug_rnglists big=" + std::to_string(big) + " w=" + std::to_string(w) + " dwarf64=" + std::to_string(is64) + " base=" + std::to_string(base) +
        " addr_base=" + std::to_string(addr_base) + " " + log);
  Exact e(sec.s), ae(ab.s);
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  r.SetAddressSize(w);
  r.SetOffsetSize(is64 ? 8 : 4);
  AddressRangeList arl(nullptr, 0, e.p, e.n, &r, ae.p, ae.n);
  for (auto& l : all) {
    AddressRangeList::RangeList got;
    arl.ReadRangeList(l.sec_off, base, &got, 5, addr_base);
    c.eq(Show(Conv(got)), Show(l.want), "rnglists-offset", "ranges via section offset");
    if (l.indexed) {
      uint64_t o = arl.GetRngListsElementOffsetByIndex(l.rbase, l.index);
      c.eq(o, l.rel, "rnglists-index", "offset of list " + std::to_string(l.index));
      got.clear();
      arl.ReadDwarfRngListwithOffsetArray(o, base, &got, addr_base, l.rbase);
      c.eq(Show(Conv(got)), Show(l.want), "rnglists-indexed", "ranges via list index");
    }
    c.outcome(Show(l.want));
    c.transition();
  }
  c.state(sec.s + char(big) + char(w) + char(addr_base));
  c.nontrivial();
}
void Wide(mc::Ctx& c) {
  g_wide = c.of<uint64_t>({0x5500000000ull, 0x155500000000ull});
  if (c.flip()) DebugRanges(c);
  else RngLists(c, 1, 1, mc::tier(2, 3));
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"wide", Wide, 8}, {"debug_ranges", [](mc::Ctx& c) { g_wide = 0; DebugRanges(c); }, 5},
                   {"rnglists-one-list", [](mc::Ctx& c) { g_wide = 0; RngLists(c, 1, 1, mc::tier(3, 4)); }, 8},
                   {"rnglists-two-lists", [](mc::Ctx& c) { g_wide = 0; RngLists(c, 1, 2, mc::tier(1, 2)); }, 8},
                   {"rnglists-two-contributions", [](mc::Ctx& c) { g_wide = 0; RngLists(c, 2, 1, mc::tier(1, 2)); }, 8}});
}
