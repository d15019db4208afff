// Reference model of a profile: plain nested maps.
#ifndef VERIF_PROFMODEL_H_
#define VERIF_PROFMODEL_H_
#include <stdint.h>
#include <map>
#include <sstream>
#include <string>
#include <vector>
struct MPos {
  uint64_t count = 0;
  uint64_t inst = 0;
  std::map<std::string, uint64_t> targets;
};
struct MSym {
  uint64_t total = 0, head = 0, ts = 0;
  std::string file;
  std::map<uint64_t, MPos> pos;                                // key: line << 32 | discriminator
  std::map<std::pair<uint64_t, std::string>, MSym> calls;      // (location, callee)
};
typedef std::map<std::string, MSym> MProf;
inline uint64_t Loc(uint64_t line, uint64_t disc) { return line << 32 | disc; }
inline std::string LocStr(uint64_t l) { return std::to_string(l >> 32) + "." + std::to_string(l & 0xffffffff); }
struct ShowOpt {
  bool total = true, head = true, ts = false, file = false, skip_empty = false, inst = false;
};
inline bool MEmpty(const MSym& s) {
  if (!s.pos.empty()) return false;
  for (auto& c : s.calls)
    if (!MEmpty(c.second)) return false;
  return true;
}
inline void Show(std::ostream& o, const MSym& s, const ShowOpt& so, bool top) {
  o << "{";
  if (so.total) o << "total=" << s.total << " ";
  if (so.head && top) o << "head=" << s.head << " ";
  if (so.ts && top) o << "ts=" << s.ts << " ";
  if (so.file) o << "file=" << s.file << " ";
  for (auto& p : s.pos) {
    o << LocStr(p.first) << ":" << p.second.count;
    if (so.inst) o << "/" << p.second.inst;
    for (auto& t : p.second.targets) o << " ->" << t.first << "*" << t.second;
    o << "; ";
  }
  for (auto& c : s.calls) {
    if (so.skip_empty && MEmpty(c.second)) continue;
    o << LocStr(c.first.first) << " " << c.first.second << " ";
    Show(o, c.second, so, false);
  }
  o << "}";
}
inline std::string Show(const MProf& p, ShowOpt so = ShowOpt()) {
  std::ostringstream o;
  for (auto& f : p) {
    o << f.first << " ";
    Show(o, f.second, so, true);
    o << "\n";
  }
  return o.str();
}
inline void MMerge(MSym& a, const MSym& b) {
  a.total += b.total;
  a.head += b.head;
  if (b.ts && (!a.ts || b.ts < a.ts)) a.ts = b.ts;  // the earliest; 0: unknown
  for (auto& p : b.pos) {
    a.pos[p.first].count += p.second.count;
    a.pos[p.first].inst += p.second.inst;
    for (auto& t : p.second.targets) a.pos[p.first].targets[t.first] += t.second;
  }
  for (auto& c : b.calls) MMerge(a.calls[c.first], c.second);
}
// total = sum of the body counts of the symbol and everything inlined in it
inline uint64_t Sum(const MSym& s) {
  uint64_t t = 0;
  for (auto& p : s.pos) t += p.second.count;
  for (auto& c : s.calls) t += Sum(c.second);
  return t;
}
inline void Retotal(MSym& s) {
  s.total = Sum(s);
  for (auto& c : s.calls) Retotal(c.second);
}
#ifdef AUTOFDO_SYMBOL_MAP_H_
inline MSym FromSymbol(const devtools_crosstool_autofdo::Symbol& s) {
  MSym m;
  m.total = s.total_count;
  m.head = s.head_count;
  m.ts = s.timestamp;
  m.file = s.info.file_name;
  for (auto& p : s.pos_counts) {
    MPos& q = m.pos[p.first];
    q.count = p.second.count;
    q.inst = p.second.num_inst;
    for (auto& t : p.second.target_map) q.targets[t.first] = t.second;
  }
  for (auto& c : s.callsites) m.calls[{c.first.location, c.first.callee_name ? c.first.callee_name : "(null)"}] = FromSymbol(*c.second);
  return m;
}
inline MProf FromMap(const devtools_crosstool_autofdo::SymbolMap& sm) {
  MProf p;
  for (auto& n : sm.map()) p[n.first] = FromSymbol(*n.second);
  return p;
}
#endif
#endif
