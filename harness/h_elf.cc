// S06: ELF files are read as their headers state.
#include <algorithm>
#include "mc.h"
#include "isolate.h"
#include "elfgen.h"
#include "symbolize/elf_reader.h"
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
namespace {
std::string File(const char* tag, const std::string& data, const char* suffix = "") {
  std::string f = ScratchFile(tag) + suffix;
  WriteFile(f, data);
  return f;
}
struct Del {
  std::string f;
  ~Del() { unlink(f.c_str()); }
};
std::string Num(uint64_t v) { return std::to_string(v); }
bool Matches(const std::string& want, const std::string& have) {
  return want == have || (want.rfind(".debug_", 0) == 0 && have.rfind(".zdebug_", 0) == 0 && have.substr(8) == want.substr(7));
}
// ------------------------------------------------------------ sections
struct SecKind {
  const char* name;
  uint32_t type;
  const char* data;
  uint64_t align;
};
const SecKind kSecs[] = {{".text", 1, "text-contents", 16},   {".debug_info", 1, "info", 1}, {".zdebug_info", 1, "zinfo-bytes", 1},
                         {".data", 1, "", 0x1000},            {".text", 1, "second", 1},     {".note.x", 7, "", 4},
                         {".debug_line.dwo", 1, "dwo", 1},    {".data", 1, "", 1},           {".debug", 1, "d", 1}};
void Sections(Ctx& c) {
  ElfGen e;
  e.bits = c.flip() ? 32 : 64;
  e.many_sections = c.flip();
  e.shstrtab_first = c.flip();
  static const int types[] = {2, 3, 1};
  e.etype = types[c.pick(3)];
  bool dwp = c.flip();
  int n = c.pick(mc::tier(4, 5));
  if (n > 3 && (e.etype != 2 || e.many_sections)) c.prune();
  for (int i = 0; i < n; ++i) {
    const SecKind& k = kSecs[c.pick(sizeof kSecs / sizeof *kSecs)];
    ElfSection s;
    s.name = k.name;
    s.type = k.type;
    s.data = k.data;
    s.align = k.align;
    s.flags = 2 + i;
    s.addr = 0x400000 + 0x1000 * i;
    s.info = 7 + i;
    s.entsize = 3 * i;
    e.secs.push_back(s);
  }
  if (n) c.nontrivial();
  std::string img = e.Build();
  std::string f = File("elf", img, dwp ? ".dwp" : "");
  Del del{f};
  ElfReader r(f);
  c.eq(r.IsElf32File(), e.bits == 32, "class", "32-bit");
  c.eq(r.IsElf64File(), e.bits == 64, "class", "64-bit");
  c.eq(r.IsNativeElfFile(), e.bits == 64, "class", "native");
  c.eq(r.IsDynamicSharedObject(), e.etype == 3, "type", "shared object");
  std::vector<std::string> names{""};
  if (e.shstrtab_first) names.push_back(".shstrtab");
  int first = names.size();
  for (auto& s : e.secs) names.push_back(s.name);
  if (!e.shstrtab_first) names.push_back(".shstrtab");
  for (size_t i = 0; i < names.size(); ++i) c.eq(std::string(r.GetSectionName(i)), names[i], "name", "section " + Num(i));
  auto sec = [&](int i) -> const ElfSection* { return i >= first && i < first + n ? &e.secs[i - first] : nullptr; };
  for (int i = first; i < first + n; ++i) {
    size_t size = 999;
    const char* p = r.GetSectionByIndex(i, &size);
    c.check(p != nullptr, "by-index", "section " + Num(i) + " not found");
    c.eq(std::string(p, size), sec(i)->data, "by-index", "contents of section " + Num(i));
  }
  for (const char* want : {".text", ".data", ".debug_info", ".zdebug_info", ".debug_line", ".debug_line.dwo", ".debug", ".tex", ".texts", ".bss"}) {
    int found = -1;
    for (int k = 0; k < static_cast<int>(names.size()); ++k) {
      int i = dwp ? names.size() - 1 - k : k;
      if (Matches(want, names[i])) {
        found = i;
        break;
      }
    }
    size_t size = 999;
    const char* p = r.GetSectionByName(want, &size);
    c.eq(p != nullptr, found >= 0, "by-name", want);
    ElfReader::SectionInfo info;
    const char* q = r.GetSectionInfoByName(want, &info);
    c.eq(q != nullptr, found >= 0, "info-by-name", want);
    if (found < 0) continue;
    const ElfSection& s = *sec(found);
    c.eq(std::string(p, size), s.data, "by-name", std::string("contents of ") + want);
    c.eq(std::string(q, info.size), s.data, "info-by-name", std::string("contents of ") + want);
    c.eq(info.type, s.type, "info", "type");
    c.eq(info.flags, s.flags, "info", "flags");
    c.eq(info.addr, s.addr, "info", "addr");
    c.eq(info.size, s.data.size(), "info", "size");
    c.eq(info.link, s.link, "info", "link");
    c.eq(info.info, s.info, "info", "info");
    c.eq(info.addralign, s.align, "info", "align");
    c.eq(info.entsize, s.entsize, "info", "entsize");
    c.eq(img.substr(info.offset, s.data.size()), s.data, "info", "offset");
  }
  for (uint32_t t : {1u, 3u, 7u, 2u})
    for (int start = 0; start <= static_cast<int>(names.size()); ++start) {
      int found = -1;
      for (size_t i = start; i < names.size(); ++i) {
        uint32_t have = i == 0 ? 0 : names[i] == ".shstrtab" ? 3 : sec(i)->type;
        if (have == t) {
          found = i;
          break;
        }
      }
      c.eq(r.GetSectionIndexByType(t, start), found, "by-type", "type " + Num(t) + " from " + Num(start));
    }
  bool debug = false;
  for (auto& s : names) debug |= s.rfind(".debug", 0) == 0;
  c.eq(ElfReader::IsNonDebugStrippedELFBinary(f), debug, "stripped", "debug sections");
  c.eq(ElfReader::IsNonStrippedELFBinary(f), false, "stripped", "symbols");
  std::string o = Num(e.bits) + Num(dwp);
  for (auto& s : names) o += s + ",";
  c.outcome(o);
}
// Section tables larger than 7, 8 and 16 bits count, and large sections.
void Many(Ctx& c) {
  ElfGen e;
  e.bits = c.flip() ? 32 : 64;
  e.many_sections = c.flip();
  e.shstrtab_first = c.flip();
  bool dwp = c.flip();
  int n = c.of({3, 120, 126, 127, 128, 129, 250, 254, 255, 256, 257, 300, 33000, 65270, 66000});
  if (n > 0xff00 && !e.many_sections) c.prune();
  if (n > 1000 && e.shstrtab_first) c.prune();
  int at = c.of({0, 1, 2}), big = c.of({10, 130, 300, 40000, 70000, 200000});
  if (n > 1000 && (big > 10 && big < 200000)) c.prune();
  at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  for (int i = 0; i < n; ++i) {
    ElfSection s;
    s.name = i == at ? ".text" : i % 2 ? ".x" : ".y";
    s.data = i == at ? std::string(big, 't') + Num(i) : Num(i);
    s.type = i == at ? 7 : 1;
    s.addr = i * 16;
    e.secs.push_back(s);
  }
  c.nontrivial();
  c.say("sections " + Num(n) + " .text at " + Num(at) + " of " + Num(big) + " bytes, " + Num(e.bits) + " bits" + (dwp ? " dwp" : ""));
  int base = e.shstrtab_first ? 2 : 1;
  Del del{File("many", e.Build(), dwp ? ".dwp" : "")};
  ElfReader r(del.f);
  size_t size = 0;
  const char* p = r.GetSectionByName(".text", &size);
  c.check(p != nullptr, "by-name", "no .text");
  c.eq(size, e.secs[at].data.size(), "by-name", "size of .text");
  c.eq(std::string(p, size), e.secs[at].data, "by-name", "contents of .text");
  ElfReader::SectionInfo info;
  p = r.GetSectionInfoByName(".text", &info);
  c.check(p != nullptr && std::string(p, info.size) == e.secs[at].data && info.addr == static_cast<uint64_t>(at) * 16, "info-by-name", ".text");
  c.eq(r.GetSectionIndexByType(7, 0), base + at, "by-type", "index of .text");
  for (int i : {0, at, n / 3, n - 1}) {
    c.eq(std::string(r.GetSectionName(base + i)), e.secs[i].name, "name", "section " + Num(base + i));
    p = r.GetSectionByIndex(base + i, &size);
    c.check(p != nullptr && std::string(p, size) == e.secs[i].data, "by-index", "section " + Num(base + i));
  }
  c.outcome(Num(n) + "/" + Num(at) + "/" + Num(big));
}
// ------------------------------------------------------------ segments
void Segments(Ctx& c) {
  ElfGen e;
  e.bits = c.flip() ? 32 : 64;
  static const int types[] = {2, 3, 1};
  e.etype = types[c.pick(3)];
  e.many_sections = c.flip();
  int n = c.pick(4);
  for (int i = 0; i < n; ++i) {
    ElfSegment s;
    static const uint32_t pt[] = {1, 4, 6};
    s.type = pt[c.pick(3)];
    s.flags = c.flip() ? 5 : 6;
    static const uint64_t va[] = {0, 0x400000, 0xfffff000};
    s.vaddr = va[c.pick(3)] + (e.bits == 64 && c.flip() ? 0xffffffff00000000ull : 0);
    const uint64_t high = e.bits == 64 && n == 1 && c.flip() ? 0x500000000ull : 0;
    s.offset = 0x1000 * i + high;
    s.filesz = 0x123 + i + 2 * high;
    s.memsz = 0x456 + i + 3 * high;
    s.align = i ? 0x1000 : 0x200000;
    e.segs.push_back(s);
  }
  if (n > 1) c.nontrivial();
  e.Add(".text", "x");
  Del del{File("seg", e.Build())};
  ElfReader r(del.f);
  uint64_t first = 0;
  for (auto& s : e.segs)
    if (s.type == 1) {
      first = s.vaddr;
      break;
    }
  if (e.etype == 1) first = 0;
  c.eq(r.VaddrOfFirstLoadSegment(), first, "first-load");
  auto si = r.GetSegmentInfo();
  c.eq(si.size(), e.segs.size(), "segments", "count");
  for (int i = 0; i < n; ++i) {
    c.eq(si[i].type, e.segs[i].type, "segments", "type");
    c.eq(si[i].flags, e.segs[i].flags, "segments", "flags");
    c.eq(si[i].offset, e.segs[i].offset, "segments", "offset");
    c.eq(si[i].vaddr, e.segs[i].vaddr, "segments", "vaddr");
    c.eq(si[i].paddr, e.segs[i].vaddr, "segments", "paddr");
    c.eq(si[i].filesz, e.segs[i].filesz, "segments", "filesz");
    c.eq(si[i].memsz, e.segs[i].memsz, "segments", "memsz");
    c.eq(si[i].align, e.segs[i].align, "segments", "align");
  }
  c.outcome(Num(first) + "/" + Num(n));
}
// ------------------------------------------------------------ symbols
struct Sink : ElfReader::SymbolSink {
  std::vector<std::string> got;
  void AddSymbol(const char* name, uint64_t a, uint64_t s, int b, int t, int sec) override {
    got.push_back(std::string(name) + "@" + Num(a) + "+" + Num(s) + " " + Num(b) + "/" + Num(t) + "/" + Num(sec));
  }
};
void Symbols(Ctx& c) {
  ElfGen e;
  e.bits = c.flip() ? 32 : 64;
  static const int mach[] = {62, 40, 3, 183};
  e.machine = mach[c.pick(e.bits == 32 ? 3 : 1) + (e.bits == 32 ? 0 : (c.flip() ? 3 : 0))];
  e.shstrtab_first = c.flip();
  e.Add(".text", "0123456789");
  bool has[2];
  std::vector<ElfSym> syms[2];
  bool dyn_first = c.flip();
  int left = mc::tier(2, 3);
  for (int k = 0; k < 2; ++k) {
    has[k] = c.flip();
    if (!has[k]) continue;
    int n = c.pick(left + 1);
    left -= n;
    for (int i = 0; i < n; ++i) {
      ElfSym s;
      static const char* nm[] = {"f", "", "longer_name"};
      s.name = nm[c.pick(3)];
      s.value = c.flip() ? 0x1001 : 0xfffffffe;
      s.size = i;
      if (e.bits == 64 && k == 0 && i == 0) {
        uint64_t high = c.of<uint64_t>({0, 0x123400000000});
        s.value += high;
        s.size += high;
      }
      s.bind = c.pick(2);
      static const int ty[] = {2, 1, 0};
      s.type = ty[c.pick(3)];
      s.shndx = (i + s.bind) % 2 ? 1 : 0xfff1;
      syms[k].push_back(s);
    }
  }
  if (dyn_first && !(has[0] && has[1])) c.prune();
  auto add = [&](int k) {
    if (!has[k]) return;
    if (k == 0) e.AddSymtab(".symtab", 2, ".strtab", syms[0]);
    else e.AddSymtab(".dynsym", 11, ".dynstr", syms[1]);
  };
  add(dyn_first ? 1 : 0);
  add(dyn_first ? 0 : 1);
  if (syms[0].size() + syms[1].size()) c.nontrivial();
  Del del{File("sym", e.Build())};
  auto want = [&](int bind, int type, bool raw, bool filter) {
    std::vector<std::string> w;
    for (int k = 0; k < 2; ++k)
      for (auto& s : syms[k]) {
        if (s.name.empty()) continue;
        if (filter && s.name != "f") continue;
        if (bind >= 0 && s.bind != bind) continue;
        if (type >= 0 && s.type != type) continue;
        uint64_t v = s.value;
        if (!raw && e.machine == 40 && s.type == 2) v &= ~1ull;
        w.push_back(s.name + "@" + Num(v) + "+" + Num(s.size) + " " + Num(s.bind) + "/" + Num(s.type) + "/" + Num(s.shndx));
      }
    std::string o;
    for (auto& x : w) o += x + ";";
    return o;
  };
  ElfReader r(del.f);
  for (int bind : {-1, 0, 1})
    for (int type : {-1, 2, 0})
      for (int m = 0; m < 4; ++m) {
        Sink s;
        if (m & 2) s.filter = [](const char* name, uint64, uint64, int, int, int) { return std::string(name) == "f"; };
        if (bind == -1 && type == -1 && !(m & 1)) r.VisitSymbols(&s);
        else if (!(m & 1)) r.VisitSymbols(&s, bind, type);
        else r.VisitSymbols(&s, bind, type, true);
        std::string got;
        for (auto& x : s.got) got += x + ";";
        c.eq(got, want(bind, type, m & 1, m & 2), "symbols", "binding " + std::to_string(bind) + " type " + std::to_string(type) + (m & 1 ? " raw" : "") + (m & 2 ? " filtered" : ""));
      }
  c.eq(ElfReader::IsNonStrippedELFBinary(del.f), has[0], "stripped", "symbols");
  c.outcome(want(-1, -1, false, false));
}
// ------------------------------------------------------------ build id
void BuildIds(Ctx& c) {
  ElfGen e;
  e.bits = c.flip() ? 32 : 64;
  int nsec = c.pick(3), ids = 0, total = 0;
  std::string id;
  bool odd = false;
  for (int k = 0; k < nsec; ++k) {
    Buf b;
    int n = c.pick(mc::tier(3, 4));
    for (int i = 0; i < n; ++i) {
      if (++total > 3) c.prune();
      static const int lens[] = {20, 1, 4, 16, 21, 19};
      int len = lens[c.pick(6)];
      int kind = c.pick(4);  // the build id; other type; other owner; owner of another length
      std::string owner = kind == 2 ? std::string("GNX\0", 4) : kind == 3 ? std::string("GNUGNU\0", 7) : std::string("GNU\0", 4);
      std::string desc;
      for (int j = 0; j < len; ++j) desc += static_cast<char>(0x0f + 23 * j + i);
      b.u32(owner.size()).u32(len).u32(kind == 1 ? 1 : 3).raw(owner);
      while (b.size() % 4) b.u8(0);
      b.raw(desc);
      while (b.size() % 4) b.u8(0);
      if (kind == 0 && len <= 20) {
        ++ids;
        id.clear();
        for (unsigned char ch : desc) {
          char t[3];
          snprintf(t, 3, "%02x", ch);
          id += t;
        }
      } else {
        odd = true;
      }
    }
    ElfSection s;
    s.name = ".note." + Num(k);
    s.type = 7;
    s.align = 4;
    s.data = b.s;
    e.secs.push_back(s);
  }
  if (total > 1 || odd) c.nontrivial();
  Del del{File("note", e.Build())};
  ElfReader r(del.f);
  c.eq(r.GetBuildId(), ids == 1 ? id : "", "build-id", Num(ids) + " build ids in the file");
  c.outcome(ids == 1 ? id : Num(ids));
}
// ------------------------------------------------------------ damage
// Every query of a damaged file ends, without touching memory it does not own.
std::string Everything(const std::string& f) {
  std::string o;
  ElfReader r(f);
  bool elf = r.IsElf32File() || r.IsElf64File();
  o += elf ? "elf " : "no ";
  size_t size;
  const char* p = r.GetSectionByName(".text", &size);
  o += p ? std::string(p, size) : "-";
  ElfReader::SectionInfo info;
  o += r.GetSectionInfoByName(".debug_info", &info) ? "i" + Num(info.size) : "-";
  o += Num(r.GetSegmentInfo().size()) + " " + Num(r.VaddrOfFirstLoadSegment());
  o += r.IsDynamicSharedObject() ? "D" : "-";
  o += r.GetBuildId();
  Sink s;
  r.VisitSymbols(&s);
  for (auto& x : s.got) o += x;
  o += ElfReader::IsNonStrippedELFBinary(f) ? "S" : "-";
  o += ElfReader::IsNonDebugStrippedELFBinary(f) ? "G" : "-";
  return o;
}
ElfGen Whole(bool b32) {
  ElfGen e;
  e.bits = b32 ? 32 : 64;
  e.segs.push_back(ElfSegment());
  e.segs.back().vaddr = 0x400000;
  e.Add(".text", "text-contents");
  e.Add(".debug_info", "info");
  Buf n;
  n.u32(4).u32(4).u32(3).raw(std::string("GNU\0", 4)).u32(0x01020304);
  e.Add(".note", n.s, 7);
  ElfSym a;
  a.name = "func";
  a.value = 0x400000;
  a.size = 5;
  e.AddSymtab(".symtab", 2, ".strtab", {a});
  return e;
}
void Damage(Ctx& c) {
  ElfGen e = Whole(c.flip());
  std::string img = e.Build(), why;
  int kind = c.pick(5);
  size_t eh = e.bits == 64 ? 64 : 52, ph = e.bits == 64 ? 56 : 32, at_phoff = e.bits == 64 ? 32 : 28, at_shoff = e.bits == 64 ? 40 : 32;
  bool whole = false, headers = false;
  if (kind == 0) {
    int n = c.pick(img.size() + 1);
    whole = n == static_cast<int>(img.size());
    img.resize(n);
    why = "cut to " + Num(n) + " bytes";
  } else if (kind == 1) {
    int i = c.pick(7);
    static const int vals[] = {0, 1, 2, 3, 0xff};
    int v = vals[c.pick(5)];
    whole = static_cast<unsigned char>(img[i]) == v || i == 6;
    img[i] = v;
    why = "byte " + Num(i) + " set to " + Num(v);
    if (i == 4 && !whole) headers = true;  // read with the other word size: garbage
  } else if (kind == 2) {
    static const int et[] = {0, 1, 2, 3, 4, 0xfe00, 0xffff};
    int t = et[c.pick(7)];
    img[16] = t & 255;
    img[17] = t >> 8;
    whole = t == 1 || t == 2 || t == 3;
    why = "file type " + Num(t);
  } else if (kind == 3) {  // no section table (as sstrip leaves it)
    for (size_t i = 0; i < (e.bits == 64 ? 8u : 4u); ++i) img[at_shoff + i] = 0;
    if (c.flip()) {
      size_t o = e.bits == 64 ? 60 : 48;
      img[o] = img[o + 1] = 0;
      why = ", section count 0";
    }
    why = "no section table" + why;
  } else {  // program headers outside the file
    img[at_phoff + 2] = 1;
    headers = whole = true;
    why = "program headers out of the file";
  }
  (void)ph;
  (void)eh;
  c.say(std::to_string(e.bits) + "-bit file, " + why);
  c.nontrivial();
  std::string f = File("dmg", img);
  Del del{f};
  auto r = Isolate([&] { return Everything(f); });
  c.check(r.ok || (r.how == "abort" && headers), "damaged-file", why + ": reading ended by " + r.how);
  if (r.ok && !headers) {
    std::string all = Everything(f);
    bool complete = all.find("text-contents") != std::string::npos && all.find("func@") != std::string::npos && all.find("04030201") != std::string::npos;
    c.eq(complete, whole, "damaged-file", why + ": " + all);
    if (!whole) c.check(all.find("text-") == std::string::npos && all.find("func") == std::string::npos, "damaged-file", why + ": part of the contents reported: " + all);
    c.outcome(all);
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"S06/sections", Sections, 6}, {"S06/many", Many, 6}, {"S06/segments", Segments, 5}, {"S06/symbols", Symbols, 8}, {"S06/build-id", BuildIds, 5}, {"S06/damage", Damage, 3}});
}
