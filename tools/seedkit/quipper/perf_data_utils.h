#ifndef VERIF_QUIPPER_PERF_DATA_UTILS_H_
#define VERIF_QUIPPER_PERF_DATA_UTILS_H_
#include "perf_data.pb.h"
namespace quipper {
inline const PerfDataProto::SampleInfo* GetSampleInfoForEvent(const PerfDataProto::PerfEvent& e) {
  switch (e.event_type_case()) {
    case PerfDataProto::PerfEvent::kMmapEvent: return &e.mmap_event().sample_info();
    case PerfDataProto::PerfEvent::kCommEvent: return &e.comm_event().sample_info();
    case PerfDataProto::PerfEvent::kForkEvent: return &e.fork_event().sample_info();
    case PerfDataProto::PerfEvent::kExitEvent: return &e.exit_event().sample_info();
    default: return nullptr;
  }
}
}  // namespace quipper
#endif
