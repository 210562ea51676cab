// Small framework for monitored randomized executions: case generation from a
// seed, failure reporting, coverage tallies and crash attribution.
#ifndef VERIF_HARNESS_COMMON_VH_H_
#define VERIF_HARNESS_COMMON_VH_H_

#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "absl/numeric/int128.h"
#include "absl/status/status.h"
#include "absl/strings/string_view.h"

namespace vh {

using u128 = absl::uint128;

// xoshiro256**, seeded by splitmix64.
class Rng {
 public:
  explicit Rng(uint64_t seed = 0);
  uint64_t u64();
  u128 wide() { uint64_t h = u64(); return absl::MakeUint128(h, u64()); }
  // Uniform in [0, n), n > 0.
  uint64_t below(uint64_t n);
  // Uniform in [lo, hi].
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
  bool chance(int num, int den) { return static_cast<int>(below(den)) < num; }
  std::string bytes(size_t n);
  template <typename V>
  auto& pick(V& v) { return v[below(v.size())]; }
  template <typename V>
  void shuffle(V& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
  // A number below 2^bits (0 <= bits <= 128), biased to the edges of the range.
  u128 edgy(int bits);
  // A uniform number below 2^bits.
  u128 bits(int bits);

 private:
  uint64_t s_[4];
};

uint64_t Mix(uint64_t a, uint64_t b);
uint64_t Hash(absl::string_view s);

class Case {
 public:
  Case(uint64_t seed, const std::string& group, uint64_t index, bool thorough);
  Rng rng;
  const uint64_t seed;
  const std::string group;
  const uint64_t index;
  const bool thorough;

  // Appends to the description of the case (its identity for distinctness).
  void Desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  const std::string& desc() const { return desc_; }
  // Marks the case as exercising nothing of interest.
  void Trivial() { trivial_ = true; }
  bool trivial() const { return trivial_; }
  void Fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  bool failed() const { return failed_; }
  // Counts something observed.
  void Count(const char* what, uint64_t n = 1);

 private:
  std::string desc_;
  bool trivial_ = false;
  bool failed_ = false;
};

#define VH_CHECK(c, cond, key, ...)   \
  do {                                \
    if (!(cond)) {                    \
      (c).Fail(key, __VA_ARGS__);     \
      return;                         \
    }                                 \
  } while (0)

using CaseFn = void (*)(Case&);
struct Registration {
  Registration(const char* name, uint64_t quick, uint64_t thorough, CaseFn fn);
};
// Registers a group of cases: QUICK and THOROUGH are the numbers of cases.
#define VH_GROUP(name, quick, thorough)                                   \
  static void name(vh::Case& c);                                          \
  static vh::Registration vh_reg_##name(#name, quick, thorough, name);    \
  static void name(vh::Case& c)

std::string Str(u128 v);
std::string Hex(absl::string_view s, size_t max = 64);
std::string S(const absl::Status& s);

// The monitored cryptographic random source (see rand.cc): deterministic per
// case, and logs every byte it hands out.
namespace rand {
struct Draw {
  std::string bytes;
};
void Reset(uint64_t seed);                 // for the calling thread
std::vector<Draw>& Log();                  // of the calling thread
void SetLogging(bool on);                  // off: do not keep the bytes
void SetFill(int byte);                    // >= 0: every byte handed out has this value
void SetBroken(bool on);                   // on: hands out nothing, and says so
uint64_t TotalBytes();                     // handed out to this thread since Reset
}  // namespace rand

}  // namespace vh

#endif
