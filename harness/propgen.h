// Programs for the propeller harnesses: functions made of basic blocks.
#ifndef VERIF_PROPGEN_H_
#define VERIF_PROPGEN_H_
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "bb_handle.h"
#include "llvm/Object/ELFTypes.h"
#include "llvm_propeller_binary_address_mapper.h"
namespace pg {
using llvm::object::BBAddrMap;
using namespace devtools_crosstool_autofdo;
enum { kFall = 1, kRet = 2, kPad = 4, kTail = 8 };
struct Blk {
  uint32_t off = 0, size = 4;
  int flags = kFall;
  int id = 0;
};
struct Fn {
  uint64_t addr = 0;
  std::vector<Blk> blks;
  bool selected = true;
  std::vector<std::string> names{"f"};
  std::string section = ".text";
  uint64_t Start(int b) const { return addr + blks[b].off; }
  uint64_t End(int b) const { return Start(b) + blks[b].size; }
};
inline BBAddrMap::BBEntry::Metadata Md(int flags) {
  return {.HasReturn = (flags & kRet) != 0, .HasTailCall = (flags & kTail) != 0, .IsEHPad = (flags & kPad) != 0, .CanFallThrough = (flags & kFall) != 0, .HasIndirectBranch = false};
}
struct Prog {
  std::vector<Fn> fns;
  struct H {
    int f, b;
  };
  std::vector<H> handles;  // blocks of the selected functions, in order
  void Finish() {
    handles.clear();
    for (size_t f = 0; f < fns.size(); ++f)
      for (size_t b = 0; b < fns[f].blks.size(); ++b)
        if (fns[f].selected) handles.push_back({static_cast<int>(f), static_cast<int>(b)});
  }
  const Blk& B(int i) const { return fns[handles[i].f].blks[handles[i].b]; }
  uint64_t Start(int i) const { return fns[handles[i].f].Start(handles[i].b); }
  uint64_t End(int i) const { return fns[handles[i].f].End(handles[i].b); }
  // The block a branch from / to an address belongs to, or -1.
  int From(uint64_t a) const {
    for (size_t i = 0; i < handles.size(); ++i)
      if (a >= Start(i) && a < End(i)) return i;
    return -1;
  }
  int To(uint64_t a) const {
    int best = -1;
    for (size_t i = 0; i < handles.size(); ++i)  // a block that starts there
      if (Start(i) == a && (best < 0 || handles[i].f != handles[best].f)) best = i;
    return best >= 0 ? best : From(a);
  }
  bool Fall(int from, int to) const {
    if (from == to) return true;
    if (handles[from].f != handles[to].f || from > to) return false;
    for (int i = from; i < to; ++i)
      if (!(B(i).flags & kFall)) return false;
    return true;
  }
  std::unique_ptr<BinaryAddressMapper> Mapper() const {
    std::vector<BBAddrMap> maps;
    absl::btree_set<int> sel;
    std::vector<BbHandle> hs;
    absl::flat_hash_map<int, BinaryAddressMapper::FunctionSymbolInfo> info;
    for (size_t f = 0; f < fns.size(); ++f) {
      BBAddrMap m;
      BBAddrMap::BBRangeEntry r;
      r.BaseAddress = fns[f].addr;
      for (auto& b : fns[f].blks) r.BBEntries.push_back(BBAddrMap::BBEntry(b.id, b.off, b.size, Md(b.flags)));
      m.BBRanges.push_back(r);
      maps.push_back(m);
      if (!fns[f].selected) continue;
      sel.insert(f);
      for (size_t b = 0; b < fns[f].blks.size(); ++b) hs.push_back({static_cast<int>(f), static_cast<int>(b)});
      BinaryAddressMapper::FunctionSymbolInfo si;
      for (auto& n : fns[f].names) si.aliases.push_back(n);
      si.section_name = fns[f].section;
      info.emplace(f, si);
    }
    return std::make_unique<BinaryAddressMapper>(sel, maps, hs, info);
  }
  std::string Str() const {
    std::string s;
    char buf[80];
    for (size_t f = 0; f < fns.size(); ++f) {
      s += fns[f].selected ? " fn" : " unselected-fn";
      for (size_t b = 0; b < fns[f].blks.size(); ++b) {
        snprintf(buf, sizeof buf, " %d:[%lx,%lx)f%d", fns[f].blks[b].id, static_cast<long>(fns[f].Start(b)), static_cast<long>(fns[f].End(b)), fns[f].blks[b].flags);
        s += buf;
      }
    }
    return s;
  }
};
}  // namespace pg
#endif
