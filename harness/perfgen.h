// Builds the perf data that the stand-in quipper (shim/quipper) reads.
#ifndef VERIF_PERFGEN_H_
#define VERIF_PERFGEN_H_
#include <string>
#include "quipper/arm_spe_decoder.h"
#include "quipper/perf_reader.h"
namespace perfgen {
struct Data {
  quipper::PerfDataProto p;
  quipper::PerfDataProto_PerfEvent* Ev(uint32_t type, uint64_t time = 0) {
    auto* e = p.add_events();
    e->mutable_header()->set_type(type);
    if (time) e->set_timestamp(time);
    return e;
  }
  quipper::PerfDataProto_MMapEvent* MMap(uint32_t pid, uint64_t start, uint64_t len, uint64_t pgoff, const std::string& name) {
    auto* m = Ev(quipper::PERF_RECORD_MMAP2)->mutable_mmap_event();
    m->set_pid(pid);
    m->set_tid(pid);
    m->set_start(start);
    m->set_len(len);
    m->set_pgoff(pgoff);
    m->set_filename(name);
    return m;
  }
  quipper::PerfDataProto_SampleEvent* Sample(uint32_t pid, uint64_t ip, uint64_t time = 0) {
    auto* s = Ev(quipper::PERF_RECORD_SAMPLE, time)->mutable_sample_event();
    s->set_pid(pid);
    s->set_tid(pid);
    s->set_ip(ip);
    if (time) s->set_sample_time_ns(time);
    return s;
  }
  static void Branch(quipper::PerfDataProto_SampleEvent* s, uint64_t from, uint64_t to, uint32_t spec = 0) {
    auto* b = s->add_branch_stack();
    b->set_from_ip(from);
    b->set_to_ip(to);
    b->set_spec(spec);
  }
  void BuildId(const std::string& hash, const std::string& name) {
    auto* b = p.add_build_ids();
    b->set_build_id_hash(hash);
    b->set_filename(name);
  }
  void Aux(const std::string& trace) { Ev(quipper::PERF_RECORD_AUXTRACE)->mutable_auxtrace_event()->set_trace_data(trace); }
  std::string Ser() const { return p.SerializeAsString(); }
};
}  // namespace perfgen
#endif
