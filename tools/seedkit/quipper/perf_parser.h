// Stand-in for quipper's PerfParser: resolves sample and branch addresses to
// (mapped file, offset) with the mmap events seen so far for the pid.
#ifndef VERIF_QUIPPER_PERF_PARSER_H_
#define VERIF_QUIPPER_PERF_PARSER_H_
#include <list>
#include <memory>

#include "perf_reader.h"

namespace quipper {
struct DSOInfo {
  std::string name;
  std::string build_id;
};
struct ParsedEvent {
  PerfDataProto_PerfEvent* event_ptr = nullptr;
  struct DSOAndOffset {
    const DSOInfo* dso_info_ = nullptr;
    uint64_t offset_ = 0;
    const std::string& dso_name() const {
      static const std::string* const kEmpty = new std::string();
      return dso_info_ ? dso_info_->name : *kEmpty;
    }
    const std::string& build_id() const {
      static const std::string* const kEmpty = new std::string();
      return dso_info_ ? dso_info_->build_id : *kEmpty;
    }
    uint64_t offset() const { return offset_; }
  } dso_and_offset;
  struct BranchEntry {
    bool predicted = false;
    uint32_t spec = 0;
    DSOAndOffset from;
    DSOAndOffset to;
  };
  std::vector<BranchEntry> branch_stack;
};

class PerfParser {
 public:
  explicit PerfParser(PerfReader* reader) : reader_(reader) {}
  bool ParseRawEvents() {
    struct Map { uint32_t pid; uint64_t start, len, pgoff; const DSOInfo* dso; };
    std::vector<Map> maps;
    std::map<std::string, const DSOInfo*> dsos;
    parsed_events_.clear();
    auto resolve = [&](uint32_t pid, uint64_t ip) {
      ParsedEvent::DSOAndOffset r;
      for (auto it = maps.rbegin(); it != maps.rend(); ++it)
        if (it->pid == pid && ip >= it->start && ip - it->start < it->len) {
          r.dso_info_ = it->dso;
          r.offset_ = ip - it->start + it->pgoff;
          return r;
        }
      return r;
    };
    for (auto& e : *reader_->mutable_events()) {
      ParsedEvent pe;
      pe.event_ptr = &e;
      if (e.has_mmap_event()) {
        const auto& m = e.mmap_event();
        auto& d = dsos[m.filename()];
        if (!d) {
          infos_.push_back(DSOInfo{m.filename(), ""});
          d = &infos_.back();
        }
        maps.push_back({m.pid(), m.start(), m.len(), m.pgoff(), d});
      } else if (e.has_sample_event()) {
        const auto& s = e.sample_event();
        pe.dso_and_offset = resolve(s.pid(), s.ip());
        for (const auto& b : s.branch_stack()) {
          ParsedEvent::BranchEntry be;
          be.predicted = !b.mispredicted();
          be.spec = b.spec();
          be.from = resolve(s.pid(), b.from_ip());
          be.to = resolve(s.pid(), b.to_ip());
          pe.branch_stack.push_back(be);
        }
      }
      parsed_events_.push_back(std::move(pe));
    }
    return true;
  }
  const std::vector<ParsedEvent>& parsed_events() const { return parsed_events_; }

 private:
  PerfReader* reader_;
  std::list<DSOInfo> infos_;
  std::vector<ParsedEvent> parsed_events_;
};
}  // namespace quipper
#endif
