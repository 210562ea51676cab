// Independent AES-128 and the fixed-key hash built from it.
#ifndef VERIF_HARNESS_COMMON_REFAES_H_
#define VERIF_HARNESS_COMMON_REFAES_H_

#include <cstdint>

#include "absl/numeric/int128.h"

namespace vh {

class Aes128 {
 public:
  explicit Aes128(const uint8_t key[16]);
  // Key given as a little-endian 128-bit integer.
  explicit Aes128(absl::uint128 key);
  void Encrypt(const uint8_t in[16], uint8_t out[16]) const;
  // Blocks as little-endian 128-bit integers.
  absl::uint128 Encrypt(absl::uint128 in) const;

 private:
  void Expand(const uint8_t key[16]);
  uint8_t rk_[11][16];
};

absl::uint128 RefSigma(absl::uint128 x);

// H(x) = AES_k(sigma(x)) ^ sigma(x).
class RefHash {
 public:
  explicit RefHash(absl::uint128 key) : aes_(key) {}
  absl::uint128 operator()(absl::uint128 x) const {
    absl::uint128 s = RefSigma(x);
    return aes_.Encrypt(s) ^ s;
  }

 private:
  Aes128 aes_;
};

void StoreLe(absl::uint128 v, uint8_t out[16]);
absl::uint128 LoadLe(const uint8_t in[16]);

}  // namespace vh

#endif
