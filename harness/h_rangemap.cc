// S05: NonOverlappingRangeMap, every sequence of insertions up to a depth.
#include "mc.h"
#include "symbolize/nonoverlapping_range_map.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct Entry { int lo, hi, val; };
// Reference: a list of disjoint entries, semantics from the class comment.
struct Model {
  std::vector<Entry> e;
  // false: the insertion violates the precondition (partial overlap).
  bool insert(int lo, int hi, int val) {
    for (size_t i = 0; i < e.size(); ++i)
      if (e[i].lo <= lo && hi <= e[i].hi && (e[i].lo < lo || hi < e[i].hi)) {
        Entry o = e[i];
        e.erase(e.begin() + i);
        if (o.lo < lo) e.push_back({o.lo, lo, o.val});
        e.push_back({lo, hi, val});
        if (hi < o.hi) e.push_back({hi, o.hi, o.val});
        return true;
      }
    for (auto& x : e)
      if (x.lo < hi && lo < x.hi && !(lo <= x.lo && x.hi <= hi)) return false;
    std::vector<Entry> add;
    int at = lo;
    while (at < hi) {
      bool cov = false;
      for (auto& x : e)
        if (x.lo <= at && at < x.hi) { at = x.hi; cov = true; break; }
      if (cov) continue;
      int end = hi;
      for (auto& x : e)
        if (x.lo > at) end = std::min(end, x.lo);
      add.push_back({at, end, val});
      at = end;
    }
    e.insert(e.end(), add.begin(), add.end());
    return true;
  }
  int at(int a) const {
    for (auto& x : e)
      if (x.lo <= a && a < x.hi) return x.val;
    return -1;
  }
  std::string canon() {
    std::sort(e.begin(), e.end(), [](const Entry& a, const Entry& b) { return a.lo < b.lo; });
    std::string s;
    for (auto& x : e) s += std::to_string(x.lo) + "," + std::to_string(x.hi) + "=" + std::to_string(x.val) + ";";
    return s;
  }
};
uint64_t Addr(int a, uint64_t base) { return base + a; }
template <class M>
void Compare(mc::Ctx& c, M& m, const Model& ref, int N, uint64_t base) {
  const M& cm = m;
  for (int a = 0; a <= N; ++a) {
    if (base + a < base) break;
    int want = ref.at(a);
    auto it = m.Find(Addr(a, base));
    int got = it == m.End() ? -1 : it->second;
    c.eq(got, want, "find", "value at " + std::to_string(a));
    auto cit = cm.Find(Addr(a, base));
    int cgot = cit == cm.End() ? -1 : cit->second;
    c.eq(cgot, want, "const-find", "value at " + std::to_string(a));
    if (it != m.End()) c.check(it->first.first <= Addr(a, base) && Addr(a, base) < it->first.second, "find-range", "range does not contain the address");
  }
  if (base > 0) c.check(m.Find(base - 1) == m.End(), "find", "value below every range");
  uint64_t last = 0;
  bool first = true;
  for (auto it = m.Begin(); it != m.End(); ++it) {
    c.check(it->first.first < it->first.second, "iterate-empty", "empty or inverted range stored");
    c.check(first || it->first.first >= last, "iterate-overlap", "ranges overlap or are unsorted");
    for (uint64_t a = it->first.first; a != it->first.second && a - it->first.first < 64; ++a) c.eq(it->second, ref.at(int(a - base)), "iterate-value", "iterated value");
    last = it->first.second;
    first = false;
  }
  c.eq(m.Empty(), ref.e.empty(), "empty", "Empty()");
}
void Sequences(mc::Ctx& c, int N, int depth, uint64_t base) {
  NonOverlappingRangeMap<int> m;
  Model ref;
  std::vector<std::pair<int, int>> ops;
  for (int lo = 0; lo < N; ++lo)
    for (int hi = lo; hi <= N; ++hi)
      if (hi > lo || lo == N / 2) ops.push_back({lo, hi});
  for (int d = 0; d < depth; ++d) {
    auto op = c.of(ops);
    c.say("insert [" + std::to_string(op.first) + "," + std::to_string(op.second) + ") value " + std::to_string(d));
    Model next = ref;
    if (op.first != op.second && !next.insert(op.first, op.second, d)) c.prune();  // precondition of the class
    m.InsertRange(Addr(op.first, base), Addr(op.second, base), d);
    ref = next;
    c.transition();
    Compare(c, m, ref, N, base);
    c.outcome(ref.canon());
    // The map's behaviour depends only on its entries: same entries at the same depth, same futures.
    if (c.seen(ref.canon() + "#" + std::to_string(d) + "@" + std::to_string(base) + "N" + std::to_string(N))) c.prune();
  }
  c.nontrivial();
}
void Lists(mc::Ctx& c) {
  // InsertRangeList is the insertion of its ranges in order, for disjoint lists.
  const int N = 7;
  NonOverlappingRangeMap<int> m;
  Model ref;
  for (int d = 0; d < 2; ++d) {
    AddressRangeList::RangeList l;
    int at = 0;
    std::string log;
    while (at < N && l.size() < 3) {
      int lo = at + c.pick(N - at), hi = lo + 1 + c.pick(N - lo);
      l.push_back({uint64_t(lo), uint64_t(hi)});
      log += "[" + std::to_string(lo) + "," + std::to_string(hi) + ")";
      if (!ref.insert(lo, hi, d)) c.prune();
      at = hi;
      if (at >= N || !c.flip()) break;
    }
    c.say("list " + log + " value " + std::to_string(d));
    m.InsertRangeList(l, d);
    Compare(c, m, ref, N, 0);
    c.transition();
  }
  c.state(ref.canon());
  c.outcome(ref.canon());
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"insert-sequences", [](mc::Ctx& c) { Sequences(c, 6, mc::tier(4, 5), 0); }, 1},
                   {"insert-deep", [](mc::Ctx& c) { Sequences(c, 4, mc::tier(6, 8), 0); }, 1},
                   {"insert-high-addresses", [](mc::Ctx& c) { Sequences(c, 5, mc::tier(4, 5), 0xfffffffffffffff0ull); }, 1},
                   {"range-lists", Lists, 2}});
}
