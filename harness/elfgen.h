// Builds small ELF images in memory (independent of /repo's code).
#ifndef VERIF_ELFGEN_H_
#define VERIF_ELFGEN_H_
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "bytesbuf.h"
struct ElfSection {
  std::string name;
  uint32_t type = 1;
  std::string data;
  uint64_t flags = 0, addr = 0;
  uint32_t link = 0, info = 0;
  uint64_t entsize = 0, align = 1;
  uint64_t nobits_size = 0;
};
struct ElfSegment {
  uint32_t type = 1, flags = 5;
  uint64_t offset = 0, vaddr = 0, filesz = 0, memsz = 0, align = 0x1000;
};
struct ElfSym {
  std::string name;
  uint64_t value = 0, size = 0;
  int bind = 1, type = 2, shndx = 1;
};
struct ElfGen {
  int bits = 64;
  bool big = false;
  int etype = 2, machine = 62;
  std::vector<ElfSegment> segs;
  std::vector<ElfSection> secs;  // index 1.. ; shstrtab is appended last
  bool many_sections = false;    // section count / string index in section 0
  bool shstrtab_first = false;
  int Add(const std::string& name, const std::string& data, uint32_t type = 1) {
    ElfSection s;
    s.name = name;
    s.data = data;
    s.type = type;
    secs.push_back(s);
    return secs.size() + (shstrtab_first ? 1 : 0);
  }
  // Symbol table + its string table; returns the index of the table.
  int AddSymtab(const std::string& name, uint32_t type, const std::string& strname, const std::vector<ElfSym>& syms) {
    Buf st(big), sy(big);
    st.u8(0);
    auto put = [&](uint32_t n, const ElfSym& s) {
      if (bits == 64) sy.u32(n).u8(s.bind << 4 | s.type).u8(0).u16(s.shndx).u64(s.value).u64(s.size);
      else sy.u32(n).u32(s.value).u32(s.size).u8(s.bind << 4 | s.type).u8(0).u16(s.shndx);
    };
    ElfSym z;
    z.bind = z.type = z.shndx = 0;
    put(0, z);
    for (auto& s : syms) {
      uint32_t n = 0;
      if (!s.name.empty()) {
        n = st.size();
        st.str(s.name);
      }
      put(n, s);
    }
    int stridx = Add(strname, st.s, 3);
    int idx = Add(name, sy.s, type);
    secs.back().link = stridx;
    secs.back().entsize = bits == 64 ? 24 : 16;
    secs.back().align = 8;
    return idx;
  }
  std::string Build() const {
    int W = bits == 64 ? 8 : 4;
    std::vector<ElfSection> all(1);
    all[0].type = 0;
    Buf names(big);
    names.u8(0);
    std::vector<ElfSection> in = secs;
    ElfSection shs;
    shs.name = ".shstrtab";
    shs.type = 3;
    size_t shidx;
    if (shstrtab_first) { in.insert(in.begin(), shs); shidx = 1; }
    else { in.push_back(shs); shidx = in.size(); }
    std::vector<uint32_t> noff{0};
    for (auto& s : in) {
      noff.push_back(names.size());
      names.str(s.name);
      all.push_back(s);
    }
    all[shidx].data = names.s;
    uint64_t eh = bits == 64 ? 64 : 52, ph = bits == 64 ? 56 : 32, sh = bits == 64 ? 64 : 40;
    Buf body(big);
    uint64_t pos0 = eh + ph * segs.size();
    std::vector<uint64_t> off(all.size());
    for (size_t i = 1; i < all.size(); ++i) {
      while ((pos0 + body.size()) % (all[i].align ? all[i].align : 1)) body.u8(0);
      off[i] = pos0 + body.size();
      if (all[i].type != 8) body.raw(all[i].data);
    }
    while ((pos0 + body.size()) % 8) body.u8(0);
    uint64_t shoff = pos0 + body.size();
    Buf out(big);
    out.raw("\x7f" "ELF").u8(bits == 64 ? 2 : 1).u8(big ? 2 : 1).u8(1).raw(std::string(9, '\0'));
    out.u16(etype).u16(machine).u32(1).u(0, W).u(segs.empty() ? 0 : eh, W).u(shoff, W).u32(0).u16(eh).u16(ph).u16(segs.size()).u16(sh);
    out.u16(many_sections ? 0 : all.size()).u16(many_sections ? 0xffff : shidx);
    for (auto& p : segs) {
      if (bits == 64) out.u32(p.type).u32(p.flags).u64(p.offset).u64(p.vaddr).u64(p.vaddr).u64(p.filesz).u64(p.memsz).u64(p.align);
      else out.u32(p.type).u32(p.offset).u32(p.vaddr).u32(p.vaddr).u32(p.filesz).u32(p.memsz).u32(p.flags).u32(p.align);
    }
    out.raw(body.s);
    for (size_t i = 0; i < all.size(); ++i) {
      auto& s = all[i];
      uint64_t size = s.type == 8 ? s.nobits_size : s.data.size(), link = s.link;
      if (i == 0 && many_sections) size = all.size(), link = shidx;
      out.u32(noff[i]).u32(s.type).u(s.flags, W).u(s.addr, W).u(i ? off[i] : 0, W).u(size, W).u32(link).u32(s.info).u(i ? s.align : 0, W).u(s.entsize, W);
    }
    return out.s;
  }
};
// A file that exists only in memory, with a path others can open.
class MemFile {
 public:
  explicit MemFile(const std::string& data, const char* name = "verif") {
    fd_ = memfd_create(name, 0);
    size_t o = 0;
    while (o < data.size()) {
      ssize_t n = write(fd_, data.data() + o, data.size() - o);
      if (n <= 0) _exit(95);
      o += n;
    }
    path_ = "/proc/self/fd/" + std::to_string(fd_);
  }
  ~MemFile() { close(fd_); }
  const std::string& path() const { return path_; }

 private:
  int fd_;
  std::string path_;
};
#endif
