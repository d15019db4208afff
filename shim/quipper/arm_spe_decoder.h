// Stand-in for quipper's ArmSpeDecoder: the trace data is a plain array of
// fixed-size records (see EncodeSpeRecord) instead of SPE packets.
#ifndef VERIF_QUIPPER_ARM_SPE_DECODER_H_
#define VERIF_QUIPPER_ARM_SPE_DECODER_H_
#include <cstdint>
#include <cstring>
#include <string>

namespace quipper {
class ArmSpeDecoder {
 public:
  struct Record {
    struct { bool retired = false; bool cond_not_taken = false; bool mispred = false; } event;
    struct {
      bool is_br_eret = false;
      struct { bool br_cond = false; bool br_indirect = false; } br_eret;
    } op;
    struct { uint64_t addr = 0; } ip, tgt_br_ip;
    struct { uint32_t id = 0; bool el1 = false; bool el2 = false; } context;
    uint64_t timestamp = 0;
  };
  ArmSpeDecoder(const std::string& data, bool /*is_cross_endian*/) : data_(data) {}
  bool NextRecord(Record* r) {
    if (data_.size() - pos_ < kSize) return false;
    const char* p = data_.data() + pos_;
    pos_ += kSize;
    *r = Record();
    uint8_t f = p[0], g = p[1];
    r->event.retired = f & 1;
    r->event.cond_not_taken = f & 2;
    r->op.is_br_eret = f & 4;
    r->op.br_eret.br_cond = f & 8;
    r->context.el1 = g & 1;
    r->context.el2 = g & 2;
    memcpy(&r->context.id, p + 4, 4);
    memcpy(&r->ip.addr, p + 8, 8);
    memcpy(&r->tgt_br_ip.addr, p + 16, 8);
    memcpy(&r->timestamp, p + 24, 8);
    return true;
  }
  static constexpr size_t kSize = 32;

 private:
  const std::string data_;
  size_t pos_ = 0;
};
inline std::string EncodeSpeRecord(const ArmSpeDecoder::Record& r) {
  std::string s(ArmSpeDecoder::kSize, '\0');
  s[0] = (r.event.retired ? 1 : 0) | (r.event.cond_not_taken ? 2 : 0) | (r.op.is_br_eret ? 4 : 0) | (r.op.br_eret.br_cond ? 8 : 0);
  s[1] = (r.context.el1 ? 1 : 0) | (r.context.el2 ? 2 : 0);
  memcpy(&s[4], &r.context.id, 4);
  memcpy(&s[8], &r.ip.addr, 8);
  memcpy(&s[16], &r.tgt_br_ip.addr, 8);
  memcpy(&s[24], &r.timestamp, 8);
  return s;
}
}  // namespace quipper
#endif
