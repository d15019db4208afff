// P03: the command-line tools, run as a user runs them.
#include "base/logging.h"
#include "mc.h"
#include "exec.h"
#include "bytesbuf.h"
#include "elfgen.h"
#include "gcov.h"
#include "profile_creator.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "sample_reader.h"
#include "symbol_map.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
#if defined(HAVE_LLVM)
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/MD5.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "llvm/Support/raw_ostream.h"
#endif
#include "creategen.h"
#include "perfgen.h"
#include "profgen.h"
ABSL_DECLARE_FLAG(uint64_t, gcov_version);
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using mc::Ctx;
using namespace devtools_crosstool_autofdo;
namespace {
uint64_t A(int off) { return cg::kText + off; }
std::string Join(const std::vector<std::string>& v) {
  std::string o;
  for (auto& x : v) o += " " + x;
  return o;
}
cg::Samples TheSamples() {
  cg::Samples s;
  s.range[{A(0), A(5)}] = 9;
  s.range[{A(8), A(13)}] = 5;
  s.branch[{A(5), A(8)}] = 4;
  s.branch[{A(10), A(0)}] = 2;
  s.range[{A(16), A(18)}] = 4;
  return s;
}
std::string Text(const cg::Samples& s) {
  std::ostringstream o;
  auto off = [](uint64_t a) { return a - cg::kText + cg::kFileOff; };
  o << std::hex << s.range.size() << "\n";
  for (auto& [r, n] : s.range) o << off(r.first) << "-" << off(r.second) << ":" << std::dec << n << std::hex << "\n";
  o << std::dec << s.addr.size() << std::hex << "\n";
  for (auto& [a, n] : s.addr) o << off(a) << ":" << std::dec << n << std::hex << "\n";
  o << std::dec << s.branch.size() << std::hex << "\n";
  for (auto& [b, n] : s.branch) o << off(b.first) << "->" << off(b.second) << ":" << std::dec << n << std::hex << "\n";
  return o.str();
}
constexpr uint64_t kLoad = 0x7f0000400000;
std::string Perf(cg::Samples* s) {
  perfgen::Data d;
  d.MMap(1, kLoad, 0x1000, cg::kFileOff, "/usr/bin/data.binary");
  for (int k = 0; k < 4; ++k) {
    auto* x = d.Sample(1, kLoad + 8);
    perfgen::Data::Branch(x, kLoad + 11, kLoad + 16);
    perfgen::Data::Branch(x, kLoad + 5, kLoad + 8);
    perfgen::Data::Branch(x, kLoad + 19, kLoad);
    ++s->addr[A(8)];
    ++s->branch[{A(11), A(16)}];
    ++s->branch[{A(5), A(8)}];
    ++s->branch[{A(19), A(0)}];
    ++s->range[{A(8), A(11)}];
    ++s->range[{A(0), A(5)}];
  }
  return d.Ser();
}
const cg::World& W() {
  static const cg::World w = cg::TheWorld(3);
  return w;
}
MProf InFile(const MProf& m, int64_t thr, bool ts) {
  MProf o;
  for (auto& f : m)
    if (static_cast<int64_t>(f.second.total) > thr) {
      o[f.first] = f.second;
      if (!ts) o[f.first].ts = 0;
      Retotal(o[f.first]);
    }
  return o;
}
// Profiles to merge, compare and dump.
Prof Given(int kind) {
  Prof p;
  p.files = {{"main", "main.c"}, {"inl", "inc.h"}, {"foo", "foo.c"}};
  switch (kind) {
    case 0:
      p.recs = {{{{"main", Loc(1, 0)}}, 20}, {{{"main", Loc(3, 2)}}, 4}, {{{"inl", Loc(1, 0)}, {"main", Loc(2, 0)}}, 9}, {{{"foo", Loc(1, 0)}}, 15}};
      p.targets = {{{{{"main", Loc(1, 0)}}, 5}, "foo"}, {{{{"main", Loc(1, 0)}}, 7}, "bar"}, {{{{"main", Loc(1, 0)}}, 5}, "ab"}};
      p.head = {{"main", {3, 50}}, {"foo", {8, 0}}};
      break;
    case 1:
      p.recs = {{{{"main", Loc(1, 0)}}, 30}, {{{"inl", Loc(4, 1)}, {"main", Loc(2, 0)}}, 2}, {{{"deep", Loc(1, 0)}, {"inl", Loc(5, 0)}, {"main", Loc(2, 0)}}, 6}, {{{"bar", Loc(7, 0)}}, 36}};
      p.targets = {{{{{"main", Loc(1, 0)}}, 6}, "foo"}, {{{{"inl", Loc(4, 1)}, {"main", Loc(2, 0)}}, 2}, "qux"}};
      p.head = {{"main", {4, 20}}, {"bar", {1, 70}}};
      break;
    case 2:  // nothing by itself
      p.recs = {{{{"bar", Loc(7, 0)}}, 11}, {{{"foo", Loc(2, 0)}}, 12}, {{{"_Z3fooi", Loc(1, 0)}}, 300}};
      p.head = {{"bar", {0, 0}}, {"foo", {0, 10}}, {"_Z3fooi", {2, 0}}};
      break;
  }
  return p;
}
// ---------------------------------------------------------------- create
// The flags of one run, each given, left out or wrong.
struct Asked {
  std::vector<std::string> args;
  bool well = true;
  void Add(const std::string& flag, const std::string& value, int how) {
    if (how == 0) args.push_back("--" + flag + "=" + value);
    else args.push_back("--" + flag), args.push_back(value);
  }
};
// Prepares binary and samples in `dir` under the default names or others.
cg::Samples Inputs(Ctx& c, const std::string& dir, Asked* a, bool llvm) {
  cg::Samples s;
  int how = c.pick(2);
  std::string profiler = c.of<const char*>({"text", "perf", "", "bogus"});
  bool named = c.flip();
  std::string in = named ? "in put" : "perf.data", bin = named ? "data.binary" : llvm ? "a.out" : "data.binary";
  if (profiler == "text") {
    s = TheSamples();
    WriteFile(dir + "/" + in, Text(s));
  } else {
    std::string d = Perf(&s);
    size_t at;
    while (bin != "data.binary" && (at = d.find("/data.binary")) != std::string::npos) {
      perfgen::Data x;  // another name has another length
      x.p.ParseFromString(d);
      x.p.mutable_events(0)->mutable_mmap_event()->set_filename("/usr/bin/" + bin);
      d = x.Ser();
    }
    WriteFile(dir + "/" + in, d);
  }
  if (!profiler.empty()) a->Add("profiler", profiler, how);
  if (named) a->Add("profile", in, how);
  if (named || c.flip()) a->Add("binary", dir + "/" + bin, how);
  if (profiler == "bogus") a->well = false;
  if (!a->well) {
    WriteFile(dir + "/" + bin, cg::Binary(W(), true));
    return s;
  }
  switch (c.pick(4)) {
    case 0: WriteFile(dir + "/" + bin, cg::Binary(W(), true)); break;
    case 1: a->well = false; break;
    case 2: WriteFile(dir + "/" + bin, cg::Binary(W(), true)), unlink((dir + "/" + in).c_str()), a->well = false; break;
    case 3:
      WriteFile(dir + "/" + bin, cg::Binary(W(), true));
      if (c.flip()) a->args.push_back("--no_such_flag=1"), a->well = false;
      else a->args.push_back("--sample_threshold_frac=0.5");
      break;
  }
  return s;
}
double Frac(const Asked& a) {
  for (auto& x : a.args)
    if (x == "--sample_threshold_frac=0.5") return 0.5;
  return 0;
}
#if !defined(HAVE_LLVM)
std::string ReadGcov(Ctx& c, const std::string& file, uint64_t* version, const char* key) {
  std::string b = ReadFile(file);
  c.check(b.size() > 12, key, "no profile in " + file);
  *version = b.size() > 8 ? *reinterpret_cast<const uint32_t*>(b.data() + 4) : 0;
  SymbolMap got;
  got.set_suffix_elision_policy("none");
  AutoFDOProfileReader r(&got, true);
  c.check(r.ReadFromFile(file), key, "the profile cannot be read");
  ShowOpt so;
  so.ts = so.file = *version >= 3;
  return Show(FromMap(got), so);
}
void WriteGcov(const Prof& p, uint64_t version, const std::string& file) {
  SymbolMap sm;
  sm.set_suffix_elision_policy("none");
  Build(p, &sm);
  for (auto& x : p.files)
    if (sm.map().count(x.first)) const_cast<Symbol*>(sm.GetSymbolByName(x.first))->info.file_name = x.second;
  sm.set_count_threshold(0);
  AutoFDOProfileWriter w(&sm, version);
  absl::SetFlag(&FLAGS_gcov_version, version);
  if (!w.WriteToFile(file)) abort();
}
void Compiled(const std::string& name, MSym* s) {
  // A second name of a function comes without file.
  s->file = name == "baz" ? "" : "/comp/" + s->file;
  for (auto& x : s->calls) Compiled(x.first.second, &x.second);
}
void CreateGcov(Ctx& c) {
  TempDir dir;
  Asked a;
  cg::Samples s = Inputs(c, dir.path, &a, false);
  std::string out = c.flip() ? "fbdata.afdo" : "other.afdo";
  if (out != "fbdata.afdo") a.Add("gcov", out, 0);
  if (a.well && c.pick(3) == 2) a.Add("gcov", out = "none/out", 0), a.well = false;
  uint64_t version = !a.well ? 3 : c.of<uint64_t>({0x3430372a, 1, 2, 3});
  if (version <= 3) a.Add("gcov_version", std::to_string(version), 0);
  c.say("create_gcov" + Join(a.args));
  Ran r = RunTool("t_create_gcov", a.args, dir.path);
  if (!a.well) {
    c.check(r.refused(), "create_gcov/reported", "ends with " + r.Show());
  } else {
    c.check(r.ok(), "create_gcov/status", "ends with " + r.Show());
    cg::Flags f;
    f.frac = Frac(a);
    uint64_t v = 0;
    std::string got = ReadGcov(c, dir.path + "/" + out, &v, "create_gcov/profile");
    c.eq(v, version, "create_gcov/version", "version");
    MProf want = InFile(cg::Expect(W(), s, f), cg::Threshold(s, f), version >= 3);
    if (version >= 3)
      for (auto& x : want) Compiled(x.first, &x.second);
    ShowOpt so;
    so.ts = version >= 3;
    so.file = version >= 3;
    c.eq(got, Show(want, so), "create_gcov/profile", "profile");
    c.outcome(got);
  }
  c.outcome(Join(a.args) + r.Show());
  c.nontrivial();
}
void MergeGcov(Ctx& c) {
  TempDir dir;
  int n = c.pick(mc::tier(3, 4) + 1);
  uint64_t newest = 0, last = 0;
  bool well = n > 0, v3 = true;
  std::vector<std::string> ins;
  MProf sum;
  for (int i = 0; i < n; ++i) {
    std::string f = dir.path + "/in" + std::to_string(i);
    int kind = c.pick(6);
    if (kind < 4) {
      last = c.of<uint64_t>({3, 2});
      newest = std::max(newest, last);
      v3 = v3 && last >= 3;
      Prof p = Given(kind);
      WriteGcov(p, last, f);
      MProf m = Model(p);
      for (auto& x : m) {
        if (last < 3) x.second.ts = 0;
        if (x.second.total > 0) MMerge(sum[x.first], x.second);
      }
    } else {
      well = false;
      if (kind == 4) {}
      if (kind == 5) {
        WriteGcov(Given(0), 3, f);
        std::string b = ReadFile(f);
        WriteFile(f, b.substr(0, b.size() / 2));
      }
    }
    ins.push_back("in" + std::to_string(i));
  }
  std::vector<std::string> args;
  double frac = well && c.flip() ? 0.3 : 0;
  if (frac) args.push_back("--sample_threshold_frac=0.3");
  std::string out = "fbdata.afdo";
  int o = c.pick(3);
  bool after = o && c.flip();
  if (!after) args.insert(args.end(), ins.begin(), ins.end());
  if (o == 1) args.push_back("--output_file=" + (out = "out.afdo"));
  if (o == 2) args.push_back("--output_file=" + (out = "none/out.afdo")), well = false;
  if (after) args.insert(args.end(), ins.begin(), ins.end());
  c.say("profile_merger" + Join(args));
  Ran r = RunTool("t_profile_merger", args, dir.path);
  if (!well) {
    c.check(r.refused(), "merger/reported", "ends with " + r.Show());
  } else {
    c.check(r.ok(), "merger/status", "ends with " + r.Show());
    uint64_t v = 0, total = 0;
    std::string got = ReadGcov(c, dir.path + "/" + out, &v, "merger/profile");
    c.check(v == last || v == newest, "merger/version", "version " + std::to_string(v));
    for (auto& x : sum) total += x.second.total;
    MProf want = InFile(sum, std::max<int64_t>(10, static_cast<int64_t>(total * frac)), true);
    ShowOpt so;
    so.ts = v >= 3;
    std::string w = Show(want, so);
    SymbolMap again;
    again.set_suffix_elision_policy("none");
    AutoFDOProfileReader rd(&again, true);
    rd.ReadFromFile(dir.path + "/" + out);
    c.eq(Show(FromMap(again), so), w, "merger/sum", "merged profile");
    c.outcome(w);
  }
  c.outcome(Join(args) + r.Show());
  c.nontrivial();
}
// The listing of a profile, from its description.
void List(std::ostream& o, const std::string& name, const MSym& s, const std::string& file, int indent, bool v3) {
  o << name << ":" << file << " total:" << s.total;
  if (!indent) o << " head:" << s.head << " timestamp: " << s.ts;
  o << "\n";
  auto where = [&](uint64_t l) {
    o << std::string(indent + 2, ' ') << (l >> 32);
    if (l & 0xffffffff) o << "." << (l & 0xffffffff);
    o << ": ";
  };
  for (auto& p : s.pos) {
    where(p.first);
    o << p.second.count;
    std::vector<std::pair<uint64_t, std::string>> t;
    for (auto& x : p.second.targets) t.push_back({x.second, x.first});
    std::sort(t.rbegin(), t.rend());
    for (auto& x : t) o << "  " << x.second << ":" << file << ":" << x.first;
    o << "\n";
  }
  for (auto& x : s.calls) {
    where(x.first.first);
    List(o, x.first.second, x.second, !v3 ? "" : x.first.second == "inl" ? "inc.h" : "", indent + 2, v3);
  }
}
void DumpGcov(Ctx& c) {
  TempDir dir;
  int kind = c.pick(6);
  std::vector<std::string> args;
  bool well = true;
  uint64_t version = c.of<uint64_t>({3, 2, 1});
  Prof p = Given(kind);
  if (kind < 4) WriteGcov(p, version, dir.path + "/in");
  else well = false;
  if (kind == 4) {
    WriteGcov(Given(0), version, dir.path + "/in");
    std::string b = ReadFile(dir.path + "/in");
    WriteFile(dir.path + "/in", b.substr(0, b.size() - 20));
  }
  bool demangle = c.flip();
  if (demangle) args.push_back("--demangle_symbol_names");
  int files = c.pick(3);
  for (int i = 0; i < 2 - files; ++i) args.push_back("in");
  if (files != 1) well = false;
  if (c.flip()) args.push_back("--gcov_version=2");
  c.say("dump_gcov" + Join(args) + " with profile " + std::to_string(kind) + " version " + std::to_string(version));
  Ran r = RunTool("t_dump_gcov", args, dir.path);
  if (!well) {
    c.check(r.refused(), "dump/reported", "ends with " + r.Show());
  } else {
    c.check(r.ok(), "dump/status", "ends with " + r.Show());
    MProf m = Model(p);
    std::vector<std::pair<uint64_t, std::string>> order;
    for (auto& x : m) order.push_back({~x.second.total, x.first});
    std::sort(order.begin(), order.end());
    std::ostringstream o;
    for (auto& x : order) {
      if (m[x.second].total == 0) continue;
      if (version < 3) m[x.second].ts = 0;
      auto f = p.files.find(x.second);
      List(o, x.second, m[x.second], version < 3 || f == p.files.end() ? "" : f->second, 0, version >= 3);
    }
    if (demangle) {  // every name of these profiles that is mangled becomes readable, the others have no demangling
      std::string d = r.out;
      c.check(kind != 2 || d.find("foo()") != std::string::npos || d.find("foo(int)") != std::string::npos, "dump/demangle", d);
    } else {
      c.eq(r.out, o.str(), "dump/listing", "listing");
    }
    c.outcome(r.out);
  }
  c.outcome(Join(args) + r.Show());
  c.nontrivial();
}
void MergeSamples(Ctx& c) {
  TempDir dir;
  WriteFile(dir.path + "/data.binary", cg::Binary(W(), false));
  std::vector<std::string> args;
  cg::Samples sum;
  bool well = true;
  std::string profiler = c.of<const char*>({"text", "perf", "", "bogus"}), list;
  if (!profiler.empty()) args.push_back("--profiler=" + profiler);
  if (profiler == "bogus") well = false;
  auto put = [&](const std::string& name, int kind) {
    if (kind == 2) { well = false; return; }
    cg::Samples s;
    std::string b;
    if (profiler == "text" || profiler == "bogus") {
      s.range[{A(0), A(5)}] = kind + 3;
      s.branch[{A(5), A(8)}] = 2 * kind + 1;
      if (kind) s.addr[A(8)] = 5;
      b = Text(s);
    } else {
      b = Perf(&s);
    }
    WriteFile(dir.path + "/" + name, b);
    for (auto& x : s.range) sum.range[x.first] += x.second;
    for (auto& x : s.branch) sum.branch[x.first] += x.second;
    for (auto& x : s.addr) sum.addr[x.first] += x.second;
  };
  int n = c.pick(4);
  for (int i = 0; i < n; ++i) {
    put("s" + std::to_string(i), c.pick(3));
    list += (i ? "," : "") + ("s" + std::to_string(i));
  }
  int single = c.pick(3);
  if (single == 2) {
    WriteFile(dir.path + "/extra", "rubbish");
    args.push_back("--profile=extra");
  }
  if (n) {
    args.push_back("--profiles=" + list);
  } else {
    put(single == 2 ? "extra" : "data.profile", single == 1 ? 2 : 0);
  }
  std::string out = c.flip() ? "data.txt" : "out.txt";
  if (out == "out.txt") args.push_back("--output_file=" + out);
  if (c.flip()) args.push_back("--binary=" + dir.path + "/data.binary");
  c.say("sample_merger" + Join(args));
  Ran r = RunTool("t_sample_merger", args, dir.path);
  if (!well) {
    c.check(r.refused(), "sample_merger/reported", "ends with " + r.Show());
  } else {
    c.check(r.ok(), "sample_merger/status", "ends with " + r.Show());
    TextSampleReaderWriter got(dir.path + "/" + out);
    c.check(got.ReadAndSetTotalCount(), "sample_merger/readable", "the merged file cannot be read");
    cg::Samples s;
    auto back = [](uint64_t a) { return a + cg::kText - cg::kFileOff; };
    for (auto& [x, k] : got.range_count_map()) s.range[{back(x.first), back(x.second)}] = k;
    for (auto& [x, k] : got.branch_count_map()) s.branch[{back(x.first), back(x.second)}] = k;
    for (auto& [x, k] : got.address_count_map()) s.addr[back(x)] = k;
    c.eq(s.Show(), sum.Show(), "sample_merger/sum", "merged samples");
  }
  c.outcome(Join(args) + r.Show());
  c.nontrivial();
}
#else
namespace sp = llvm::sampleprof;
MSym FromSamples(const sp::FunctionSamples& fs) {
  MSym m;
  m.total = fs.getTotalSamples();
  m.head = fs.getHeadSamples();
  for (auto& b : fs.getBodySamples()) {
    MPos& p = m.pos[Loc(b.first.LineOffset, b.first.Discriminator)];
    p.count += b.second.getSamples();
    for (auto& t : b.second.getCallTargets()) p.targets[t.first.str()] += t.second;
  }
  for (auto& c : fs.getCallsiteSamples())
    for (auto& f : c.second) m.calls[{Loc(c.first.LineOffset, c.first.Discriminator), f.first.str()}] = FromSamples(f.second);
  return m;
}
struct Llvm {
  std::string err;
  MProf prof;
  sp::SampleProfileFormat format = sp::SPF_None;
  bool partial = false, md5 = false, fs = false;
  std::set<std::string> list;
  std::string sections;
};
const char* const kListed[] = {"main", "foo", "foo.cold", "bar", "bar.llvm.9", "baz", "inl", "l0", "l1", "l2"};
Llvm Load(const std::string& file) {
  Llvm o;
  llvm::LLVMContext ctx;
  sp::FunctionSamples::ProfileIsFS = false;
  sp::FunctionSamples::UseMD5 = false;
  auto r = sp::SampleProfileReader::create(file, ctx, *llvm::vfs::getRealFileSystem(), sp::FSDiscriminatorPass::PassLast);
  if (!r) return o.err = "no reader: " + r.getError().message(), o;
  if (std::error_code ec = (*r)->read()) return o.err = "read: " + ec.message(), o;
  for (auto& f : (*r)->getProfiles()) o.prof[f.second.getFunction().str()] = FromSamples(f.second);
  o.format = (*r)->getFormat();
  o.partial = (*r)->getSummary().isPartialProfile();
  o.md5 = sp::FunctionSamples::UseMD5;
  o.fs = sp::FunctionSamples::ProfileIsFS;
  if (auto l = (*r)->getProfileSymbolList())
    for (auto n : kListed)
      if (l->contains(n)) o.list.insert(n);
  llvm::raw_string_ostream os(o.sections);
  (*r)->dumpSectionInfo(os);
  os.flush();
  sp::FunctionSamples::UseMD5 = false;
  sp::FunctionSamples::ProfileIsFS = false;
  return o;
}
sp::SampleProfileFormat FormatOf(const std::string& f) { return f == "text" ? sp::SPF_Text : f == "binary" ? sp::SPF_Binary : sp::SPF_Ext_Binary; }
std::string Guid(const std::string& s) { return std::to_string(llvm::MD5Hash(s)); }
MSym Hashed(const MSym& s) {
  MSym o = s;
  o.calls.clear();
  for (auto& p : o.pos) {
    std::map<std::string, uint64_t> t;
    for (auto& x : p.second.targets) t[Guid(x.first)] += x.second;
    p.second.targets = t;
  }
  for (auto& x : s.calls) o.calls[{x.first.first, Guid(x.first.second)}] = Hashed(x.second);
  return o;
}
std::string ShowSet(const std::set<std::string>& s) {
  std::string o;
  for (auto& x : s) o += x + " ";
  return o;
}
void WriteLlvm(const Prof& p, const std::string& format, const std::string& file, sp::ProfileSymbolList* list = nullptr) {
  SymbolMap sm;
  sm.set_suffix_elision_policy("none");
  Build(p, &sm);
  sm.set_count_threshold(0);
  LLVMProfileWriter w(FormatOf(format));
  if (list) w.CreateSampleWriter(file)->setProfileSymbolList(list);
  w.setSymbolMap(&sm);
  if (!w.WriteToFile(file)) abort();
}
void CreateLlvm(Ctx& c) {
  cg::Encoded() = true;
  TempDir dir;
  Asked a;
  std::string format = c.of<const char*>({"", "text", "binary", "extbinary", "bogus"});
  // Either the inputs or the other flags are varied.
  bool varied = c.flip();
  cg::Samples s;
  std::string in = "perf.data";
  if (varied) {
    s = Inputs(c, dir.path, &a, true);
  } else {
    s = TheSamples();
    a.Add("profiler", "text", 0);
    WriteFile(dir.path + "/a.out", cg::Binary(W(), true));
    switch (c.pick(4)) {
      case 1: in = "perf;data"; a.well = false; break;
      case 2: in = "@list"; a.well = false; break;
      case 3: in = "list@x"; break;
    }
    WriteFile(dir.path + "/" + in, Text(s));
    if (in == "@list") WriteFile(dir.path + "/list", "perf.data\n");
    if (in != "perf.data") a.Add("profile", in, 0);
  }
  if (!format.empty()) a.Add("format", format, 0);
  if (format == "bogus") a.well = false;
  std::string out = "out.prof";
  bool list = false;
  if (varied) {
    a.Add("out", out, 0);
  } else {
    int o = c.pick(6);
    if (o == 0) a.Add("out", out, 1);
    if (o == 1) a.Add("gcov", out, 1);
    if (o == 2) a.Add("out", out, 0), a.Add("gcov", out, 0);
    if (o == 3) a.Add("out", out, 0), a.Add("gcov", "other", 0), a.well = false;
    if (o == 4) a.well = false;  // no output
    if (o == 5) a.Add("out", "none/out", 0), a.well = false;
    if (c.flip()) a.args.push_back("--prof_sym_list"), list = true;
    if (list && format != "extbinary") a.well = false;
    if (c.flip()) a.args.push_back("--ignore_build_id"), a.well = false;
  }
  c.say("create_llvm_prof" + Join(a.args));
  Ran r = RunTool("t_create_llvm_prof", a.args, dir.path);
  if (!a.well) {
    c.check(r.refused(), "create_llvm_prof/reported", "ends with " + r.Show());
  } else {
    c.check(r.ok(), "create_llvm_prof/status", "ends with " + r.Show());
    Llvm got = Load(dir.path + "/" + out);
    c.check(got.err.empty(), "create_llvm_prof/profile", got.err);
    sp::SampleProfileFormat want_format = FormatOf(format.empty() ? "text" : format);
    c.check(got.format == want_format, "create_llvm_prof/format", "format " + std::to_string(got.format));
    cg::Flags f;
    f.frac = Frac(a);
    MProf want;
    for (auto& x : cg::Expect(W(), s, f))
      if (static_cast<int64_t>(x.second.total) > cg::Threshold(s, f)) want[x.first] = x.second;
    ShowOpt so;
    so.skip_empty = true;
    c.eq(Show(got.prof, so), Show(want, so), "create_llvm_prof/profile", "profile");
    std::set<std::string> names;
    // Functions without a sample are listed; those below the threshold are neither.
    if (list && want.size() == 4) c.eq(ShowSet(got.list), ShowSet(names), "create_llvm_prof/list", "functions without samples");
    c.eq(got.sections.find("ProfileSymbolListSection") != std::string::npos && list, list, "create_llvm_prof/list", "a symbol list");
    c.outcome(Show(got.prof));
  }
  c.outcome(Join(a.args) + r.Show());
  c.nontrivial();
}
void MergeLlvm(Ctx& c) {
  TempDir dir;
  int n = c.pick(mc::tier(2, 3) + 1);
  bool well = n > 0;
  std::vector<std::string> ins;
  MProf sum;
  std::set<std::string> listed;
  for (int i = 0; i < n; ++i) {
    std::string f = dir.path + "/in" + std::to_string(i);
    int kind = c.pick(5);
    if (kind < 3) {
      std::string fmt = c.of<const char*>({"extbinary", "text"});
      Prof p = Given(kind);
      p.files.clear();
      sp::ProfileSymbolList list;
      std::string nm = "l" + std::to_string(i);
      bool with = fmt == "extbinary" && i < 2;
      if (with) list.add(nm, true), listed.insert(nm);
      WriteLlvm(p, fmt, f, with ? &list : nullptr);
      for (auto& x : Model(p)) MMerge(sum[x.first], x.second);
    } else {
      well = false;
      if (kind == 4) WriteFile(f, "main:x:1\n 1: 5\n");
    }
    ins.push_back("in" + std::to_string(i));
  }
  std::vector<std::string> args = {"--is_llvm"};
  std::string format = c.of<const char*>({"", "text", "binary", "extbinary", "bogus"});
  if (!well && !format.empty() && format != "extbinary") c.prune();
  if (!format.empty()) args.push_back("--format=" + format);
  if (format == "bogus") well = false;
  bool ext = format == "extbinary";
  bool compress = false, md5 = false, partial = false, list = false, split = false;
  double frac = 0;
  // One or two further flags.
  for (int i = 0; well && i < mc::tier(1, 2); ++i) {
    switch (c.pick(7)) {
      case 1: compress = true; break;
      case 2: md5 = true; break;
      case 3: partial = true; break;
      case 4: split = true; break;
      case 5: list = true; break;
      case 6: frac = 0.3; break;
    }
  }
  if (compress) args.push_back("--compress");
  if (md5) args.push_back("--use_md5");
  if (partial) args.push_back("--partial_profile");
  if (split) args.push_back("--split_layout");
  if (list) args.push_back("--include_symbol_list");
  if (frac) args.push_back("--sample_threshold_frac=0.3");
  if (!ext && (compress || md5 || partial || split)) well = false;
  std::string out = "fbdata.afdo";
  int o = well ? c.pick(3) : 0;
  if (o == 1) args.push_back("--output_file=" + (out = "out.afdo"));
  if (o == 2) args.push_back("--output_file=" + (out = "none/out.afdo")), well = false;
  args.insert(args.end(), ins.begin(), ins.end());
  c.say("profile_merger" + Join(args));
  Ran r = RunTool("t_llvm_profile_merger", args, dir.path);
  if (!well) {
    c.check(r.refused(), "llvm_merger/reported", "ends with " + r.Show());
  } else {
    c.check(r.ok(), "llvm_merger/status", "ends with " + r.Show());
    Llvm got = Load(dir.path + "/" + out);
    uint64_t total = 0;
    for (auto& x : sum) total += x.second.total;
    MProf want = InFile(sum, std::max<int64_t>(10, static_cast<int64_t>(total * frac)), false);
    if (md5) {
      MProf h;
      for (auto& x : want) h[Guid(x.first)] = Hashed(x.second);
      want = h;
    }
    c.check(got.err.empty(), "llvm_merger/profile", got.err);
    c.eq(Show(got.prof), Show(want), "llvm_merger/sum", "merged profile");
    c.check(got.format == FormatOf(format.empty() ? "binary" : format), "llvm_merger/format", "format " + std::to_string(got.format));
    c.eq(got.md5, md5, "llvm_merger/md5", "names are hashes");
    c.eq(got.partial, partial, "llvm_merger/partial", "partial profile");
    c.eq(ShowSet(got.list), ShowSet(ext && list ? listed : std::set<std::string>()), "llvm_merger/list", "symbol list");
    if (ext) c.eq(got.sections.find("compressed") != std::string::npos, compress || (list && !listed.empty() && got.sections.find("compressed") != std::string::npos), "llvm_merger/compress", "compressed sections in " + got.sections);
    c.outcome(Show(want) + got.sections);
  }
  c.outcome(Join(args) + r.Show());
  c.nontrivial();
}
// Reshaping while merging: flattening, then stripping, then cutting call sites, then targets.
void Reshape(Ctx& c) {
  TempDir dir;
  std::vector<int> kinds = {0, 1, 2};
  kinds.resize(1 + c.pick(3));
  for (size_t i = 0; i < kinds.size(); ++i) {
    Prof p = Given(kinds[i]);
    p.files.clear();
    p.recs.push_back({{{"in2", Loc(1, 0)}, {"main", Loc(2, 0)}}, 3 + i});
    WriteLlvm(p, "extbinary", dir.path + "/in" + std::to_string(i));
  }
  std::string format = c.of<const char*>({"text", "extbinary"});
  std::vector<std::string> args = {"--is_llvm", "--format=" + format};
  int nest = c.pick(3), targets = c.pick(3), cut = c.pick(3) - 1;
  std::string strip = c.of<const char*>({"", "^foo$", "inl", "ba", "_Z.*"});
  if (nest) args.push_back("--max_inline_callsite_nesting_level=" + std::to_string(nest));
  if (targets) args.push_back("--max_call_targets=" + std::to_string(targets));
  if (cut >= 0) args.push_back("--inline_instances_at_same_loc_cutoff=" + std::to_string(cut));
  if (!strip.empty()) args.push_back("--strip_symbols_regex=" + strip);
  bool special = c.flip();
  if (special) args.push_back("--merge_special_syms=false");
  for (size_t i = 0; i < kinds.size(); ++i) args.push_back("in" + std::to_string(i));
  c.say("profile_merger" + Join(args));
  Ran r = RunTool("t_llvm_profile_merger", args, dir.path);
  c.check(r.ok(), "reshape/status", "ends with " + r.Show());
  SymbolMap sm;
  absl::node_hash_set<std::string> names;
  for (size_t i = 0; i < kinds.size(); ++i) {
    LLVMProfileReader rd(&sm, names);
    c.check(rd.ReadFromFile(dir.path + "/in" + std::to_string(i)), "reshape/read", "an input cannot be read");
  }
  sm.CalculateThreshold();
  sm.FlattenNestedInlineCallsites(nest);
  if (!strip.empty()) sm.RemoveSymsMatchingRegex(strip);
  if (cut > 0) sm.throttleInlineInstancesAtSameLocation(cut);
  if (targets > 0) sm.TrimCallTargets(targets);
  MProf want;
  for (auto& x : FromMap(sm))
    if (static_cast<int64_t>(x.second.total) > 10) want[x.first] = x.second;
  Llvm got = Load(dir.path + "/fbdata.afdo");
  c.check(got.err.empty(), "reshape/profile", got.err);
  ShowOpt so;
  so.skip_empty = true;
  c.eq(Show(got.prof, so), Show(want, so), "reshape/profile", "profile");
  c.outcome(Show(want, so));
  c.nontrivial();
}
void Diff(Ctx& c) {
  TempDir dir;
  MProf m[2];
  bool well = true;
  for (int i = 0; i < 2; ++i) {
    int kind = c.pick(5);
    std::string f = dir.path + "/p" + std::to_string(i);
    if (kind < 3) {
      Prof p = Given(kind);
      p.files.clear();
      int extra = c.pick(3);
      if (extra == 1) p.recs.push_back({{{"extra" + std::to_string(c.pick(2)), Loc(1, 0)}}, 3});
      if (extra == 2) {  // a function with exactly half the samples of the hottest
        uint64_t most = 0;
        std::string hot;
        for (auto& x : Model(p))
          if (x.second.total > most) most = x.second.total, hot = x.first;
        if (most % 2) p.recs.push_back({{{hot, Loc(1, 0)}}, 1});
        p.recs.push_back({{{"extra1", Loc(1, 0)}}, (most + 1) / 2});
      }
      WriteLlvm(p, i ? "text" : "extbinary", f);
      m[i] = Model(p);
    } else {
      well = false;
      if (kind == 4) WriteFile(f, "main:x:1\n 1: 5\n");
    }
  }
  std::vector<std::string> args;
  bool functions = well && c.flip();
  int cutoff = functions ? c.of<int>({2, 0, 50}) : 2;
  if (functions) args.push_back("--compare_function");
  if (cutoff != 2) args.push_back("--dump_cutoff_percent=" + std::to_string(cutoff));
  int n = 2 + (c.pick(3) + 2) % 3 - 1;  // 1, 2 or 3 files
  for (int i = 0; i < n; ++i) args.push_back(i ? "p1" : "p0");
  if (n != 2) well = false;
  c.say("profile_diff" + Join(args) + "\n" + Show(m[0]) + "and\n" + Show(m[1]));
  Ran r = RunTool("t_profile_diff", args, dir.path);
  if (!well) {
    c.check(r.refused(), "diff/reported", "ends with " + r.Show());
    c.check(r.out.empty() || r.how == "abort" || r.code, "diff/reported", r.out);
  } else {
    c.check(r.ok(), "diff/status", "ends with " + r.Show());
    uint64_t t[2] = {0, 0}, most[2] = {0, 0};
    std::set<std::string> all;
    for (int i = 0; i < 2; ++i)
      for (auto& x : m[i]) t[i] += x.second.total, most[i] = std::max(most[i], x.second.total), all.insert(x.first);
    double overlap = 0;
    auto total = [&](int i, const std::string& f) { return m[i].count(f) ? m[i][f].total : 0; };
    for (auto& f : all) overlap += std::min(double(total(0, f)) / t[0], double(total(1, f)) / t[1]);
    size_t last = r.out.rfind('\n', r.out.empty() ? 0 : r.out.size() - 2);
    std::string number = last == std::string::npos ? r.out : r.out.substr(last + 1);
    c.check(!number.empty() && number.back() == '\n' && std::abs(atof(number.c_str()) - overlap) < 1.0001e-4, "diff/overlap", "prints " + number + " for " + std::to_string(overlap));
    std::string body = last == std::string::npos ? "" : r.out.substr(0, last + 1), want;
    if (functions) {
      // Functions hot in the first profile, hottest first; then those hot only in the second.
      for (int i = 0; i < 2; ++i) {
        std::vector<std::pair<uint64_t, std::string>> order;
        for (auto& x : m[i]) order.push_back({~x.second.total, x.first});
        std::sort(order.begin(), order.end());
        for (auto& x : order) {
          auto hot = [&](int k) { return total(k, x.second) * 100 >= most[k] * cutoff; };
          if (!total(i, x.second) || !hot(i)) continue;
          if (i == 1 && m[0].count(x.second) && total(0, x.second) && hot(0)) continue;
          char b[100];
          snprintf(b, 100, "%3.4f%% %3.4f%% ", 100. * total(0, x.second) / most[0], 100. * total(1, x.second) / most[1]);
          want += b + x.second + "\n";
        }
      }
    }
    c.eq(body, want, "diff/functions", "function lines");
    c.outcome(r.out);
  }
  c.outcome(Join(args) + r.Show());
  c.nontrivial();
}
#endif
}  // namespace
int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  return mc::Main(argc, argv, {
#if defined(HAVE_LLVM)
      {"P03/create_llvm_prof", CreateLlvm, 5},
      {"P03/llvm-merger", MergeLlvm, 4},
      {"P03/reshape", Reshape, 4},
      {"P03/diff", Diff, 4},
#else
      {"P03/create_gcov", CreateGcov, 5},
      {"P03/merger", MergeGcov, 4},
      {"P03/dump", DumpGcov, 4},
      {"P03/sample_merger", MergeSamples, 4},
#endif
  });
}
