// G01-G04: the gcov stream, AutoFDO profile files, their summary, and faults.
#include "mc.h"
#include "isolate.h"
#include "bytesbuf.h"
#include "gcov.h"
#include "symbol_map.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/flag.h"
#include <sys/stat.h>
#include "profmodel.h"
#include "profgen.h"
#include <glog/logging.h>
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
namespace {
void Quiet() { google::InstallFailureFunction(reinterpret_cast<google::logging_fail_func_t>(+[]() { _exit(77); })); }
std::string File(const char* tag) { return ScratchFile(tag); }
struct Rm {
  std::string f;
  ~Rm() { unlink(f.c_str()); }
};
// ---------------------------------------------------------------- G01
struct Item {
  int kind;  // 0 unsigned 1 counter 2 string
  uint64_t v;
  std::string s;
};
std::string ItemStr(const Item& i) { return i.kind == 2 ? "s:" + (i.s.size() > 40 ? std::to_string(i.s.size()) + " bytes" : i.s) : (i.kind ? "c:" : "u:") + std::to_string(i.v); }
Item PickItem(Ctx& c, bool rich) {
  static const std::vector<uint64_t> u = {0, 1, 0x80000000u, 0xffffffffu, 0x01020304};
  static const std::vector<uint64_t> k = {0, 1, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull, 0x0102030405060708ull};
  static const std::vector<std::string> s = {"a", "ab", "abc", "abcd", "abcde", "_ZN3fooC4Ev", "f\xc3\xa9.c", "abcdefgh"};
  Item i;
  i.kind = c.pick(3);
  if (i.kind == 0) i.v = rich ? c.of(u) : u[c.pick(2) * 3];
  if (i.kind == 1) i.v = rich ? c.of(k) : k[c.pick(2) * 6];
  if (i.kind == 2) i.s = rich ? c.of(s) : s[c.pick(4)];
  return i;
}
void WriteItem(const Item& i) {
  if (i.kind == 0) gcov_write_unsigned(i.v);
  if (i.kind == 1) gcov_write_counter(i.v);
  if (i.kind == 2) gcov_write_string(i.s.c_str());
}
void EncodeItem(Buf& b, const Item& i, uint64_t version) {
  if (i.kind == 0) b.u32(i.v);
  if (i.kind == 1) b.u32(i.v & 0xffffffff).u32(i.v >> 32);
  if (i.kind == 2) {
    if (version >= 2) {
      b.u32(i.s.size() + 1).str(i.s);
    } else {
      uint32_t words = (i.s.size() + 1 + 3) / 4;
      b.u32(words).raw(i.s);
      b.s.append(words * 4 - i.s.size(), '\0');
    }
  }
}
std::string ReadItem(int kind) {
  if (kind == 0) return "u:" + std::to_string(gcov_read_unsigned());
  if (kind == 1) return "c:" + std::to_string(gcov_read_counter());
  const char* s = gcov_read_string();
  Item i{2, 0, s ? s : "(null)"};
  return ItemStr(i);
}
// Writes with the real writer, compares the bytes, reads them with the real reader.
void Stream(Ctx& c, const std::vector<Item>& items, uint64_t version, int pad, const char* key) {
  Rm f{File("stream")};
  std::string want;
  Buf bytes;
  for (int i = 0; i < pad; ++i) bytes.u32(0xabcd0000u + i);
  for (auto& i : items) {
    EncodeItem(bytes, i, version);
    want += ItemStr(i) + "|";
  }
  c.say("version=" + std::to_string(version) + " pad=" + std::to_string(pad) + " items " + want);
  auto w = Isolate([&] {
    Quiet();
    absl::SetFlag(&FLAGS_gcov_version, version);
    if (gcov_open(f.f.c_str(), -1) != 1) return std::string("open failed");
    for (int i = 0; i < pad; ++i) gcov_write_unsigned(0xabcd0000u + i);
    for (auto& i : items) WriteItem(i);
    return gcov_close() ? std::string("close failed") : std::string("ok");
  });
  c.check(w.ok && w.out == "ok", std::string(key) + "-write", "writing: " + w.how + w.out);
  std::string got = ReadFile(f.f);
  c.check(got.size() == bytes.size(), std::string(key) + "-bytes", "file has " + std::to_string(got.size()) + " bytes, format says " + std::to_string(bytes.size()));
  c.check(got == bytes.s, std::string(key) + "-bytes", "file bytes differ from the format: " + Hex(got.substr(0, 64)) + " want " + Hex(bytes.s.substr(0, 64)));
  auto r = Isolate([&] {
    Quiet();
    absl::SetFlag(&FLAGS_gcov_version, version);
    if (gcov_open(f.f.c_str(), 1) != 1) return std::string("open failed");
    for (int i = 0; i < pad; ++i)
      if (gcov_read_unsigned() != 0xabcd0000u + i) return "padding word " + std::to_string(i) + " differs";
    std::string o;
    for (auto& i : items) o += ReadItem(i.kind) + "|";
    if (gcov_close()) return std::string("close failed");
    return o;
  });
  c.check(r.ok, std::string(key) + "-read", "reading: " + r.how);
  c.eq(r.out, want, std::string(key) + "-read", "items read back");
  c.outcome(mc::Hash(want, version));
  c.nontrivial();
}
void G01Seq(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3, 0x3430372a});
  int n = 1 + c.pick(mc::tier(3, 4));
  std::vector<Item> items;
  for (int i = 0; i < n; ++i) items.push_back(PickItem(c, n <= 2));
  Stream(c, items, version, 0, "sequence");
}
// An item (and one after it) at every alignment relative to the reader's buffer end.
void G01Refill(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2});
  int base = c.of<int>({4096, 8194, 8194 + 8194, 8194 + 16384});
  int pad = base - 10 + c.pick(14);
  Item a{1, 0x1122334455667788ull, ""}, b{0, 77, ""}, s{2, 0, std::string(1 + c.pick(mc::tier(14, 40)), 'q')};
  std::vector<Item> items = {s, a, b, s};
  Stream(c, items, version, pad, "refill");
}
// Long strings; the reader's own limit is listed as a finding.
void G01Long(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  int len = c.of<int>({255, 256, 4095, 8191, 16375, 16378, 16379, 16380, 16381, 16382});
  std::vector<Item> items = {{2, 0, std::string(len, 'x')}, {1, 42, ""}, {2, 0, "tail"}};
  int pad = c.pick(2) * 8190;
  Stream(c, items, version, pad, "long");
}
void G01TooLong(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  int len = c.of<int>({16384, 20000, 70000});
  Stream(c, {{2, 0, std::string(len, 'x')}, {1, 42, ""}}, version, 0, "over-16K");
}
// ---------------------------------------------------------------- profiles
const char* kNames[] = {"main", "f", "_ZN1AC4Ev", "g.llvm.123", "name_with_len16", "_ZN1BC4EPKc"};
std::string Written(const std::string& n) {  // the documented rewriting of constructor/destructor names
  auto ends = [&](const std::string& e) { return n.size() > e.size() && n.compare(n.size() - e.size(), e.size(), e) == 0; };
  std::string o = n;
  if (n.size() > 5 && (ends("D4Ev") || ends("C4Ev"))) o[n.size() - 3] = '2';
  else if (n.size() > 7 && ends("C4EPKc")) o[n.size() - 5] = '2';
  else if (n.size() > 12 && ends("C4EPKcRKS2_")) o[n.size() - 10] = '2';
  return o;
}
MSym WrittenSym(const MSym& s) {
  MSym o = s;
  o.calls.clear();
  for (auto& p : o.pos) {
    std::map<std::string, uint64_t> t;
    for (auto& x : p.second.targets) t[Written(x.first)] += x.second;
    p.second.targets = t;
  }
  for (auto& x : s.calls) o.calls[{x.first.first, Written(x.first.second)}] = WrittenSym(x.second);
  return o;
}
void SetFiles(MProf& m, const Prof& p, bool has_files) {
  std::function<void(MSym&, const std::string&)> rec = [&](MSym& s, const std::string& name) {
    auto it = p.files.find(name);
    s.file = has_files && it != p.files.end() ? it->second : "";
    for (auto& c : s.calls) rec(c.second, c.first.second);
  };
  for (auto& f : m) rec(f.second, f.first);
}
// Independent decoder of the file format.
struct Decoded {
  std::string err;
  uint32_t version = 0;
  MProf prof;
  std::vector<std::string> names;
  std::vector<uint64_t> summary;
  std::vector<std::vector<uint64_t>> cutoffs;
  std::vector<std::pair<uint32_t, uint64_t>> ws;
};
struct Dec {
  const std::string& b;
  size_t at = 0;
  bool bad = false;
  Decoded d;
  std::vector<int32_t> name_file;
  std::vector<std::string> files;
  explicit Dec(const std::string& bytes) : b(bytes) {}
  uint32_t u() {
    if (at + 4 > b.size()) { bad = true; return 0; }
    uint32_t v = 0;
    for (int i = 3; i >= 0; --i) v = v << 8 | static_cast<unsigned char>(b[at + i]);
    at += 4;
    return v;
  }
  uint64_t k() { uint64_t lo = u(); uint64_t hi = u(); return hi << 32 | lo; }
  std::string str() {
    uint64_t n = u();
    if (d.version < 2) n *= 4;
    if (bad || n == 0 || at + n > b.size()) { bad = true; return ""; }
    std::string raw = b.substr(at, n);
    at += n;
    size_t z = raw.find('\0');
    if (z == std::string::npos || (d.version >= 2 && z + 1 != n)) bad = true;
    return raw.substr(0, z);
  }
  uint64_t loc() { uint64_t v = u(); return Loc(v >> 16, v & 0xffff); }
  std::string name(uint64_t i) {
    if (i >= d.names.size()) { bad = true; return ""; }
    return d.names[i];
  }
  void body(MSym& s, const std::string& nm, int depth) {
    if (depth > 1000) { bad = true; return; }
    uint32_t np = u(), nc = u();
    for (uint32_t i = 0; i < np && !bad; ++i) {
      uint64_t l = loc();
      uint32_t nt = u();
      MPos& p = s.pos[l];
      p.count += k();
      for (uint32_t j = 0; j < nt && !bad; ++j) {
        if (u() != HIST_TYPE_INDIR_CALL_TOPN) bad = true;
        std::string t = name(k());
        p.targets[t] += k();
      }
    }
    for (uint32_t i = 0; i < nc && !bad; ++i) {
      uint64_t l = loc();
      uint64_t idx = u();
      std::string cn = name(idx);
      if (bad) return;
      MSym& cs = s.calls[{l, cn}];
      filefor(cs, idx);
      body(cs, cn, depth + 1);
    }
  }
  void filefor(MSym& s, uint64_t idx) {
    if (idx >= name_file.size()) return;
    int32_t f = name_file[idx];
    if (f >= 0 && f >= static_cast<int32_t>(files.size())) bad = true;
    s.file = f >= 0 && f < static_cast<int32_t>(files.size()) ? files[f] : "";
  }
  Decoded run() {
    auto need = [&](uint32_t v, uint32_t w, const char* what) {
      if (v != w && d.err.empty()) d.err = std::string(what) + " is " + std::to_string(v);
    };
    need(u(), 0x67636461, "magic");
    d.version = u();
    u();
    if (d.version >= 3) {
      need(u(), 0xa8000000, "summary tag");
      for (int i = 0; i < 5; ++i) d.summary.push_back(k());
      uint64_t n = k();
      for (uint64_t i = 0; i < n && !bad; ++i) { uint64_t a = u(), x = k(), y = k(); d.cutoffs.push_back({a, x, y}); }
    }
    need(u(), 0xaa000000, "name table tag");
    u();
    if (d.version >= 3) {
      uint32_t n = u();
      for (uint32_t i = 0; i < n && !bad; ++i) files.push_back(str());
    }
    uint32_t n = u();
    for (uint32_t i = 0; i < n && !bad; ++i) {
      d.names.push_back(str());
      name_file.push_back(d.version >= 3 ? static_cast<int32_t>(u()) : -1);
    }
    need(u(), 0xac000000, "function tag");
    u();
    n = u();
    for (uint32_t i = 0; i < n && !bad; ++i) {
      uint64_t head = k(), ts = d.version >= 3 ? k() : 0;
      uint64_t idx = u();
      std::string nm = name(idx);
      if (bad) break;
      if (d.prof.count(nm)) d.err = "function " + nm + " appears twice";
      MSym& s = d.prof[nm];
      s.head = head;
      s.ts = ts;
      filefor(s, idx);
      body(s, nm, 0);
    }
    need(u(), 0xae000000, "module grouping tag");
    need(u(), 0, "module grouping length");
    need(u(), 0, "module count");
    need(u(), 0xaf000000, "working set tag");
    u();
    for (int i = 0; i < 128; ++i) { uint32_t a = u(); uint64_t x = k(); d.ws.push_back({a, x}); }
    if (bad && d.err.empty()) d.err = "malformed file";
    if (d.err.empty() && at != b.size()) d.err = "trailing bytes";
    for (auto& f : d.prof) Retotal(f.second);
    return d;
  }
};
// A profile chosen from a universe of functions, inline trees, positions and targets.
Prof PickProfile(Ctx& c, int level) {
  Prof p;
  static const std::vector<uint64_t> locs = {Loc(0, 0), Loc(1, 0), Loc(1, 3), Loc(65535, 65535)};
  static const std::vector<uint64_t> counts = {11, 0xffffffffffull, 3};
  int nf = 1 + c.pick(2);
  std::string top0 = kNames[level >= 2 ? c.pick(6) : c.pick(3)];
  std::vector<std::string> tops = {top0};
  if (nf == 2) tops.push_back(top0 == "f" ? "main" : "f");
  int shape = c.pick(level >= 2 ? 6 : 5);
  std::string callee = c.flip() ? kNames[3] : tops.back();
  for (size_t i = 0; i < tops.size(); ++i) {
    uint64_t cnt = i == 0 ? c.of(counts) : 12;
    const std::string& t = tops[i];
    uint64_t l = i == 0 ? c.of(locs) : locs[1];
    p.recs.push_back({{{t, l}}, cnt});
    p.head[t] = {i == 0 ? c.of(mc::thorough() ? std::vector<uint64_t>{0, 5, 0x123456789aull} : std::vector<uint64_t>{0, 0x123456789aull}) : 1, i == 0 ? 7 : 0x200000003ull};
    if (i) continue;
    switch (shape) {
      case 1: p.recs.push_back({{{callee, locs[2]}, {t, locs[1]}}, 6}); break;
      case 2:
        p.recs.push_back({{{callee, locs[2]}, {t, locs[1]}}, 6});
        p.recs.push_back({{{"leaf", locs[0]}, {callee, locs[3]}, {t, locs[1]}}, 9});
        break;
      case 3:
        p.recs.push_back({{{callee, locs[2]}, {t, locs[1]}}, 6});
        p.recs.push_back({{{"leaf", locs[2]}, {t, locs[1]}}, 8});
        p.recs.push_back({{{callee, locs[2]}, {t, locs[2]}}, 4});
        break;
      case 4: p.recs.push_back({{{"leaf", locs[0]}, {callee, locs[3]}, {t, locs[0]}}, 0}); break;
      case 5:
        p.recs.push_back({{{t, locs[0]}}, 100});
        p.recs.push_back({{{t, locs[1]}}, 100});
        p.recs.push_back({{{t, locs[2]}}, 50});
        break;
    }
    int tg = c.pick(4);
    if (tg & 1) p.targets.push_back({{{{t, l}}, 5}, callee});
    if (tg & 2) p.targets.push_back({{{{t, locs[1]}}, 0x300000000ull}, "_ZN1CD4Ev"});
    if (tg == 3) p.targets.push_back({{{{t, l}}, 6}, "other"});
  }
  int ff = c.pick(3);
  if (ff >= 1) p.files[tops[0]] = "a.c";
  if (ff == 2) {
    p.files[callee] = "dir/b.c";
    if (callee != "f") p.files["f"] = "a.c";
    p.files["leaf"] = "dir/b.c";
  }
  return p;
}
// More functions, positions, call sites, targets or levels than small integer
std::string ShowAll(const MProf& m, bool ts, bool file) {
  ShowOpt so;
  so.ts = ts;
  so.file = file;
  return Show(m, so);
}
std::string RunWrite(const Prof& p, uint64_t version, const std::string& file, int64_t threshold, std::vector<std::pair<uint32_t, uint64_t>> ws) {
  absl::SetFlag(&FLAGS_gcov_version, version);
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  SymbolMap sm;
  Build(p, &sm);
  sm.set_count_threshold(threshold);
  for (size_t i = 0; i < ws.size(); ++i) sm.UpdateWorkingSet(i, ws[i].first, ws[i].second);
  AutoFDOProfileWriter w(&sm, version);
  return w.WriteToFile(file) ? "ok" : "false";
}
void G02Trip(Ctx& c, int level) {
  uint64_t version = c.of<uint64_t>({3, 2, 1});
  Prof p;
  if (level == 9) {
    int shape = c.pick(6), n = c.of(LargeSizes(shape));
    c.say("large shape " + std::to_string(shape) + " of " + std::to_string(n));
    p = LargeProfile(shape, n);
  } else {
    p = PickProfile(c, level);
  }
  int mode = c.pick(2);  // force_update
  int64_t threshold = mc::thorough() ? c.of<int64_t>({-1, 10}) : mode ? 10 : -1;
  std::vector<std::pair<uint32_t, uint64_t>> ws;
  for (int i = 0; i < 128; ++i) ws.push_back({i == 127 ? 4294967290u : static_cast<uint32_t>(i * 10), i == 3 ? 0x1234567890ull : static_cast<uint64_t>(1000 - i)});
  MProf full = Model(p), want;
  for (auto& f : full)
    if (static_cast<int64_t>(f.second.total) > threshold) {
      MSym s = WrittenSym(f.second);
      std::string n = Written(f.first);
      want[n] = s;
      if (version < 3) want[n].ts = 0;
    }
  Prof pw = p;
  pw.files.clear();
  for (auto& f : p.files) pw.files[Written(f.first)] = f.second;
  SetFiles(want, pw, version >= 3);
  std::string ws_want;
  c.say("version " + std::to_string(version) + " threshold " + std::to_string(threshold) + "\n" + ShowAll(want, true, true));
  Rm f{File("prof")};
  auto w = Isolate([&] { Quiet(); return RunWrite(p, version, f.f, threshold, ws); });
  c.check(w.ok && w.out == "ok", "write", "writing ended with " + w.how + w.out);
  std::string bytes = ReadFile(f.f);
  Decoded d = Dec(bytes).run();
  c.check(d.err.empty(), "file-format", d.err);
  c.eq<uint64_t, uint64_t>(d.version, version, "file-version", "version word");
  c.eq(ShowAll(d.prof, true, true), ShowAll(want, true, true), "file-content", "profile in the file");
  for (int i = 0; i < 128; ++i) {
    c.eq<uint64_t, uint64_t>(d.ws[i].first, ws[i].first / 10, "file-working-set", "instructions of bucket " + std::to_string(i));
    c.eq<uint64_t, uint64_t>(d.ws[i].second, ws[i].second, "file-working-set", "counter of bucket " + std::to_string(i));
  }
  for (size_t i = 0; i + 1 < d.names.size(); ++i) c.check(i > 0 || d.names[0].empty(), "file-name0", "name index 0 is not the empty string");
  Rm f2{File("prof2")};
  auto r = Isolate([&] {
    Quiet();
    absl::SetFlag(&FLAGS_gcov_version, 99);
    absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
    SymbolMap sm;
    AutoFDOProfileReader rd(&sm, mode == 1);
    if (!rd.ReadFromFile(f.f)) return std::string("read failed");
    std::string o = ShowAll(FromMap(sm), true, true);
    for (int i = 0; i < 128; ++i) o += std::to_string(sm.GetWorkingSets()[i].num_counters) + "/" + std::to_string(sm.GetWorkingSets()[i].min_counter) + " ";
    o += "version " + std::to_string(absl::GetFlag(FLAGS_gcov_version));
    auto* s = rd.GetSummaryInformation();
    o += "\nsummary";
    if (s) {
      o += " " + std::to_string(s->total_count_) + " " + std::to_string(s->max_count_) + " " + std::to_string(s->max_function_count_) + " " + std::to_string(s->num_counts_) + " " + std::to_string(s->num_functions_);
      for (auto& x : s->detailed_summaries_) o += " " + std::to_string(x.cutoff_) + ":" + std::to_string(x.min_count_) + ":" + std::to_string(x.num_counts_);
    }
    sm.set_count_threshold(-1);
    AutoFDOProfileWriter w2(&sm, version);
    if (!w2.WriteToFile(f2.f)) return std::string("rewrite failed");
    return o;
  });
  c.check(r.ok, "read", "reading ended with " + r.how);
  std::string o = ShowAll(want, true, true);
  for (int i = 0; i < 128; ++i) o += std::to_string(ws[i].first / 10 * 10) + "/" + std::to_string(ws[i].second) + " ";
  o += "version " + std::to_string(version) + "\nsummary";
  if (version >= 3) {
    for (auto x : d.summary) o += " " + std::to_string(x);
    for (auto& x : d.cutoffs) o += " " + std::to_string(x[0]) + ":" + std::to_string(x[1]) + ":" + std::to_string(x[2]);
  }
  c.eq(r.out, o, "read-content", "profile read back");
  Decoded d2 = Dec(ReadFile(f2.f)).run();
  c.check(d2.err.empty(), "rewrite-format", d2.err);
  c.eq(ShowAll(d2.prof, true, true), ShowAll(want, true, true), "rewrite-content", "profile written again");
  c.outcome(o);
  c.nontrivial();
}
// ---------------------------------------------------------------- G03
std::string RefSummary(const MProf& p, int64_t threshold, const std::vector<uint32_t>& cutoffs) {
  std::vector<uint64_t> all;
  uint64_t maxf = 0, nf = 0;
  std::function<void(const MSym&)> rec = [&](const MSym& s) {
    for (auto& q : s.pos) all.push_back(q.second.count);
    for (auto& x : s.calls) rec(x.second);
  };
  for (auto& f : p) {
    if (static_cast<int64_t>(f.second.total) <= threshold) continue;
    ++nf;
    maxf = std::max(maxf, f.second.head);
    rec(f.second);
  }
  std::sort(all.begin(), all.end(), std::greater<uint64_t>());
  unsigned __int128 tot = 0;
  for (auto x : all) tot += x;
  std::ostringstream o;
  o << static_cast<uint64_t>(tot) << " " << (all.empty() ? 0 : all[0]) << " " << maxf << " " << all.size() << " " << nf;
  for (uint32_t cut : cutoffs) {
    unsigned __int128 want = tot * cut / 1000000, sum = 0;
    size_t k = 0;
    // the least count value v such that the counts >= v reach the desired sum
    uint64_t v = 0;
    while (sum < want) {
      v = all[k];
      while (k < all.size() && all[k] == v) sum += all[k++];
    }
    o << " " << cut << ":" << v << ":" << k;
  }
  return o.str();
}
void G03Summary(Ctx& c) {
  static const std::vector<uint64_t> counts = {0, 1, 2, 3, 5, 50, 1000, 0x40000000ull, 0x100000000ull, 0x0fffffffffffffffull};
  Prof p;
  int n = c.pick(mc::tier(6, 8));
  uint64_t lo = 0;
  for (int i = 0; i < n; ++i) {
    int k = lo + c.pick(counts.size() - lo);  // non-decreasing: multisets
    lo = k;
    int where = i % 3;
    std::string t = i % 2 ? "f" : "main";
    if (where == 2) p.recs.push_back({{{"in", Loc(i, 0)}, {t, Loc(2, 0)}}, counts[k]});
    else p.recs.push_back({{{t, Loc(i, where)}}, counts[k]});
  }
  p.head["main"] = {c.of<uint64_t>({0, 4}), 0};
  if (c.flip()) p.head["f"] = {9, 0};
  int64_t threshold = c.of<int64_t>({-1, 0, 2});
  std::vector<uint32_t> cutoffs;
  if (c.flip()) cutoffs.assign(ProfileSummaryInformation::default_cutoffs.begin(), ProfileSummaryInformation::default_cutoffs.end());
  else cutoffs = {1, 500000, 999999};
  MProf m = Model(p);
  std::string want = RefSummary(m, threshold, cutoffs);
  c.say(Show(m) + "threshold " + std::to_string(threshold) + " summary " + want);
  SymbolMap sm;
  Build(p, &sm);
  sm.set_count_threshold(threshold);
  auto s = ProfileSummaryComputer::Compute(sm, cutoffs);
  std::ostringstream o;
  o << s.total_count_ << " " << s.max_count_ << " " << s.max_function_count_ << " " << s.num_counts_ << " " << s.num_functions_;
  for (auto& x : s.detailed_summaries_) o << " " << x.cutoff_ << ":" << x.min_count_ << ":" << x.num_counts_;
  c.eq(o.str(), want, "summary", "summary");
  c.outcome(want);
  c.nontrivial();
}
// The summary stored in a version 3 file is the summary of the profile written.
void G03File(Ctx& c) {
  Prof p = PickProfile(c, 1);
  int64_t threshold = c.of<int64_t>({-1, 10});
  std::vector<uint32_t> cutoffs = {10000, 100000, 200000, 300000, 400000, 500000, 600000, 700000, 800000, 900000, 950000, 990000, 999000, 999900, 999990, 999999};
  std::string want = RefSummary(Model(p), threshold, cutoffs);
  c.say(Show(Model(p)) + want);
  Rm f{File("sum")};
  auto w = Isolate([&] { Quiet(); return RunWrite(p, 3, f.f, threshold, {}); });
  c.check(w.ok && w.out == "ok", "write", w.how + w.out);
  Decoded d = Dec(ReadFile(f.f)).run();
  c.check(d.err.empty(), "file-format", d.err);
  std::ostringstream o;
  for (size_t i = 0; i < d.summary.size(); ++i) o << (i ? " " : "") << d.summary[i];
  for (auto& x : d.cutoffs) o << " " << x[0] << ":" << x[1] << ":" << x[2];
  c.eq(o.str(), want, "file-summary", "summary in the file");
  c.outcome(want);
  c.nontrivial();
}
// ---------------------------------------------------------------- G04
Prof Fixed(int which) {
  Prof p;
  p.recs.push_back({{{"main", Loc(1, 0)}}, 100});
  p.head["main"] = {5, 6};
  if (which >= 1) {
    p.recs.push_back({{{"inl", Loc(2, 1)}, {"main", Loc(3, 0)}}, 50});
    p.targets.push_back({{{{"main", Loc(1, 0)}}, 30}, "tgt"});
    p.recs.push_back({{{"f", Loc(0, 0)}}, 20});
    p.files["main"] = "a.c";
  }
  return p;
}
std::string GoodFile(int which, uint64_t version, const std::string& name) {
  auto w = Isolate([&] { Quiet(); return RunWrite(Fixed(which), version, name, -1, {{20, 5}, {30, 4}}); });
  return w.ok && w.out == "ok" ? ReadFile(name) : "";
}
Isolated ReadIsolated(const std::string& name) {
  return Isolate([&] {
    Quiet();
    absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
    SymbolMap sm;
    AutoFDOProfileReader rd(&sm, true);
    bool ok = rd.ReadFromFile(name);
    return std::string(ok ? "accepted\n" : "rejected\n") + Show(FromMap(sm));
  }, 20);
}
void G04Truncate(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  int which = c.pick(2);
  Rm f{File("tr")};
  std::string good = GoodFile(which, version, f.f);
  c.check(!good.empty(), "write", "cannot write the profile");
  int cut = c.pick(good.size() + 1);
  WriteFile(f.f, good.substr(0, cut));
  c.say("version " + std::to_string(version) + " profile " + std::to_string(which) + ": " + std::to_string(cut) + " of " + std::to_string(good.size()) + " bytes");
  auto r = ReadIsolated(f.f);
  bool accepted = r.ok && r.out.rfind("accepted", 0) == 0;
  bool whole = cut == static_cast<int>(good.size());
  c.check(r.how != "hang", "truncated-hang", "reading a truncated file does not end");
  c.check(r.how.rfind("signal", 0) != 0, "truncated-crash", "reading a truncated file: " + r.how);
  if (whole) c.check(accepted, "whole-rejected", "the complete file is rejected: " + r.how + r.out);
  else c.check(!accepted, "truncated-accepted", "a file cut to " + std::to_string(cut) + " bytes is accepted as a profile:\n" + r.out);
  c.outcome((accepted ? "A" : "R") + std::to_string(version) + r.how);
  c.nontrivial();
}
// Every section tag and table index damaged, one word at a time.
void G04Corrupt(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  Rm f{File("co")};
  std::string good = GoodFile(1, version, f.f);
  c.check(!good.empty(), "write", "cannot write the profile");
  static const std::vector<uint32_t> tags = {0x67636461, 0xa8000000, 0xaa000000, 0xac000000, 0xae000000, 0xaf000000};
  int ti = c.pick(tags.size());
  if (version < 3 && ti == 1) c.prune();
  Buf t;
  t.u32(tags[ti]);
  size_t at = good.find(t.s);
  c.check(at != std::string::npos, "tag-missing", "section tag not written");
  uint32_t v = c.of<uint32_t>({0, 1, 0xffffffff, 0xaa000001, 0xac000000});
  if (v == tags[ti]) c.prune();
  std::string bad = good;
  for (int i = 0; i < 4; ++i) bad[at + i] = static_cast<char>(v >> (8 * i));
  WriteFile(f.f, bad);
  c.say("version " + std::to_string(version) + " section tag " + std::to_string(ti) + " := " + std::to_string(v));
  auto r = ReadIsolated(f.f);
  c.check(!(r.ok && r.out.rfind("accepted", 0) == 0), "corrupt-accepted", "a file with a wrong section tag is accepted");
  c.check(r.how.rfind("signal", 0) != 0 && r.how != "hang", "corrupt-crash", "reading: " + r.how);
  c.outcome(r.how + std::to_string(ti));
  c.nontrivial();
}
// Every name index in the function section replaced by one past the table.
void G04Index(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  Rm f{File("ix")};
  std::string good = GoodFile(1, version, f.f);
  c.check(!good.empty(), "write", "cannot write the profile");
  Decoded d = Dec(good).run();
  c.check(d.err.empty(), "file-format", d.err);
  Buf t;
  t.u32(0xac000000);
  size_t at = good.find(t.s) + 12 + 8 + (version >= 3 ? 8 : 0);  // the first function's name
  uint32_t v = c.of<uint32_t>({0, 1, 1000, 0xffffffff, 0x80000000});
  uint32_t n = d.names.size();
  v = v <= 1 ? n + v : v;
  std::string bad = good;
  for (int i = 0; i < 4; ++i) bad[at + i] = static_cast<char>(v >> (8 * i));
  WriteFile(f.f, bad);
  c.say("version " + std::to_string(version) + " name index " + std::to_string(v) + " of " + std::to_string(n));
  auto r = ReadIsolated(f.f);
  c.check(!(r.ok && r.out.rfind("accepted", 0) == 0), "index-accepted", "a name index outside the table is accepted");
  c.check(r.how.rfind("signal", 0) != 0 && r.how != "hang", "index-crash", "reading: " + r.how);
  c.outcome(r.how + std::to_string(v));
  c.nontrivial();
}
// The file system refuses after k bytes, for every k.
void G04Full(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  int which = c.pick(2);
  Rm f{File("fu")};
  std::string good = GoodFile(which, version, f.f);
  c.check(!good.empty(), "write", "cannot write the profile");
  int step = mc::tier(3, 1);
  int k = c.pick(good.size() / step + 2) * step;
  if (k > static_cast<int>(good.size())) k = good.size();
  unlink(f.f.c_str());
  c.say("version " + std::to_string(version) + " profile " + std::to_string(which) + " file size limit " + std::to_string(k) + " of " + std::to_string(good.size()));
  auto r = Isolate([&] {
    Quiet();
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit lim = {static_cast<rlim_t>(k), RLIM_INFINITY};
    setrlimit(RLIMIT_FSIZE, &lim);
    return RunWrite(Fixed(which), version, f.f, -1, {{20, 5}, {30, 4}});
  });
  bool said_ok = r.ok && r.out == "ok";
  bool whole = ReadFile(f.f).size() == good.size();
  if (k == static_cast<int>(good.size())) c.check(said_ok && whole, "full-whole", "writing failed although there was room: " + r.how + r.out);
  else c.check(!said_ok, "full-accepted", "the writer reports success although only " + std::to_string(k) + " bytes could be written");
  c.outcome((said_ok ? "ok" : "no") + r.how);
  c.nontrivial();
}
void G04Places(Ctx& c) {
  uint64_t version = c.of<uint64_t>({1, 2, 3});
  std::string tmp = ScratchFile("dir");
  mkdir(tmp.c_str(), 0700);
  std::string place = c.of<std::string>({std::string("/dev/full"), tmp, tmp + "/missing/x", std::string("")});
  bool reading = c.flip();
  if (reading && place == "/dev/full") { rmdir(tmp.c_str()); c.prune(); }
  c.say((reading ? "read from " : "write to ") + std::string(place == tmp ? "a directory" : place));
  auto r = reading ? ReadIsolated(place) : Isolate([&] { Quiet(); return RunWrite(Fixed(1), version, place, -1, {}); });
  rmdir(tmp.c_str());
  bool said_ok = r.ok && (r.out == "ok" || r.out.rfind("accepted", 0) == 0);
  c.check(!said_ok, "place-accepted", "success reported for an impossible file");
  c.check(r.how.rfind("signal", 0) != 0 && r.how != "hang", "place-crash", r.how);
  c.outcome(r.how + place.substr(0, 5));
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  return mc::Main(argc, argv, {
      {"G01/sequences", G01Seq, 3},
      {"G01/refill", G01Refill, 3},
      {"G01/long-strings", G01Long, 2},
      {"G01/strings-over-16K", G01TooLong, 2},
      {"G02/round-trip", [](Ctx& c) { G02Trip(c, mc::tier(1, 2)); }, 5},
      {"G02/large", [](Ctx& c) { G02Trip(c, 9); }, 2},
      {"G03/summary", G03Summary, 3},
      {"G03/summary-in-file", G03File, 4},
      {"G04/truncated", G04Truncate, 3},
      {"G04/corrupt-tags", G04Corrupt, 3},
      {"G04/name-index", G04Index, 2},
      {"G04/no-space", G04Full, 3},
      {"G04/impossible-places", G04Places, 3},
  });
}
