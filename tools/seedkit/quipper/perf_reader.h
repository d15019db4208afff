// Stand-in for quipper's PerfReader: reads a serialized PerfDataProto (see
// perf_data.proto here) instead of the perf.data binary format.  It stands for
// the environment of google/autofdo (perf.data decoding is quipper's job).
#ifndef VERIF_QUIPPER_PERF_READER_H_
#define VERIF_QUIPPER_PERF_READER_H_
#include <cstdint>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "perf_data.pb.h"

namespace quipper {
enum PerfRecordType : uint32_t {
  PERF_RECORD_MMAP = 1,
  PERF_RECORD_COMM = 3,
  PERF_RECORD_FORK = 7,
  PERF_RECORD_SAMPLE = 9,
  PERF_RECORD_MMAP2 = 10,
  PERF_RECORD_AUXTRACE = 71,
  PERF_RECORD_TIME_CONV = 79,
};
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1, PERF_BR_NON_SPEC_CORRECT_PATH = 2, PERF_BR_SPEC_CORRECT_PATH = 3 };

using PerfEventProtoList = google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent>;

class PerfReader {
 public:
  bool ReadFile(const std::string& name) {
    std::ifstream in(name, std::ios::binary);
    if (!in) return false;
    std::stringstream ss;
    ss << in.rdbuf();
    std::string s = ss.str();
    return ReadFromPointer(s.data(), s.size());
  }
  bool ReadFromString(const std::string& s) { return ReadFromPointer(s.data(), s.size()); }
  bool ReadFromPointer(const char* data, size_t size) {
    proto_.Clear();
    PerfDataProto all;
    if (!all.ParseFromArray(data, static_cast<int>(size))) return false;
    *proto_.mutable_build_ids() = all.build_ids();
    for (const auto& e : all.events()) {
      if (e.has_sample_event() && sample_callback_) sample_callback_(e.sample_event());
      if (skip_.count(e.header().type())) continue;
      *proto_.add_events() = e;
    }
    return true;
  }
  void SetEventTypesToSkipWhenSerializing(const std::set<uint32_t>& types) { skip_ = types; }
  void SetSampleCallback(std::function<void(const PerfDataProto_SampleEvent&)> cb) { sample_callback_ = std::move(cb); }
  const PerfEventProtoList& events() const { return proto_.events(); }
  PerfEventProtoList* mutable_events() { return proto_.mutable_events(); }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfBuildID>& build_ids() const { return proto_.build_ids(); }
  void GetFilenamesAsSet(std::set<std::string>* out) const {
    for (const auto& e : proto_.events())
      if (e.has_mmap_event()) out->insert(e.mmap_event().filename());
    for (const auto& b : proto_.build_ids()) out->insert(b.filename());
  }
  void GetFilenamesToBuildIDs(std::map<std::string, std::string>* out) const {
    static const char* kHex = "0123456789abcdef";
    for (const auto& b : proto_.build_ids()) {
      std::string hex;
      for (unsigned char c : b.build_id_hash()) {
        hex += kHex[c >> 4];
        hex += kHex[c & 15];
      }
      (*out)[b.filename()] = hex;
    }
  }

 private:
  PerfDataProto proto_;
  std::set<uint32_t> skip_;
  std::function<void(const PerfDataProto_SampleEvent&)> sample_callback_;
};
}  // namespace quipper
#endif
