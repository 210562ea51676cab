// Stands in for the process's cryptographic random source: RAND_bytes and its
// relatives hand out a deterministic stream (per thread and case) and record
// every byte, so monitors can relate secrets to draws.
#include <string.h>

#include "common/vh.h"

namespace vh {
namespace rand {
namespace {
struct State {
  Rng rng{12345};
  std::vector<Draw> log;
  bool logging = true;
  int fill = -1;
  bool broken = false;
  uint64_t total = 0;
};
State& Get() {
  static thread_local State s;
  return s;
}
}  // namespace

void Reset(uint64_t seed) {
  State& s = Get();
  s.rng = Rng(seed);
  s.log.clear();
  s.total = 0;
}
std::vector<Draw>& Log() { return Get().log; }
void SetLogging(bool on) { Get().logging = on; }
void SetFill(int byte) { Get().fill = byte; }
void SetBroken(bool on) { Get().broken = on; }
uint64_t TotalBytes() { return Get().total; }

static int Fill(uint8_t* buf, size_t len) {
  State& s = Get();
  if (s.broken) return 0;
  s.total += len;
  std::string b = s.fill >= 0 ? std::string(len, static_cast<char>(s.fill)) : s.rng.bytes(len);
  if (len) memcpy(buf, b.data(), len);
  if (s.logging) s.log.push_back({std::move(b)});
  return 1;
}
}  // namespace rand
}  // namespace vh

extern "C" {
int RAND_bytes(uint8_t* buf, size_t len) { return vh::rand::Fill(buf, len); }
int RAND_priv_bytes(uint8_t* buf, size_t len) { return vh::rand::Fill(buf, len); }
int RAND_pseudo_bytes(uint8_t* buf, size_t len) { return vh::rand::Fill(buf, len); }
}
