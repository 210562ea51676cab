// cxxflags: -O2 -fno-sanitize=all
#include "common/refaes.h"

#include <string.h>

namespace vh {
namespace {

struct Tables {
  uint8_t sbox[256];
  uint8_t mul2[256];
  Tables() {
    // S-box from the multiplicative inverse in GF(2^8) and the affine map.
    auto gmul = [](uint8_t a, uint8_t b) {
      uint8_t p = 0;
      for (int i = 0; i < 8; ++i) {
        if (b & 1) p ^= a;
        bool hi = a & 0x80;
        a = static_cast<uint8_t>(a << 1);
        if (hi) a ^= 0x1b;
        b >>= 1;
      }
      return p;
    };
    for (int x = 0; x < 256; ++x) {
      uint8_t inv = 0;
      for (int y = 1; y < 256 && x; ++y) {
        if (gmul(static_cast<uint8_t>(x), static_cast<uint8_t>(y)) == 1) { inv = static_cast<uint8_t>(y); break; }
      }
      uint8_t s = 0x63, b = inv;
      for (int i = 0; i < 5; ++i) {
        s ^= b;
        b = static_cast<uint8_t>((b << 1) | (b >> 7));
      }
      sbox[x] = s;
      mul2[x] = gmul(static_cast<uint8_t>(x), 2);
    }
  }
};
const Tables& T() {
  static const Tables t;
  return t;
}

}  // namespace

void StoreLe(absl::uint128 v, uint8_t out[16]) {
  for (int i = 0; i < 8; ++i) {
    out[i] = static_cast<uint8_t>(absl::Uint128Low64(v) >> (8 * i));
    out[8 + i] = static_cast<uint8_t>(absl::Uint128High64(v) >> (8 * i));
  }
}
absl::uint128 LoadLe(const uint8_t in[16]) {
  uint64_t lo = 0, hi = 0;
  for (int i = 0; i < 8; ++i) {
    lo |= static_cast<uint64_t>(in[i]) << (8 * i);
    hi |= static_cast<uint64_t>(in[8 + i]) << (8 * i);
  }
  return absl::MakeUint128(hi, lo);
}

void Aes128::Expand(const uint8_t key[16]) {
  const Tables& t = T();
  uint8_t w[176];
  memcpy(w, key, 16);
  uint8_t rcon = 1;
  for (int i = 16; i < 176; i += 4) {
    uint8_t tmp[4] = {w[i - 4], w[i - 3], w[i - 2], w[i - 1]};
    if (i % 16 == 0) {
      uint8_t f = tmp[0];
      tmp[0] = t.sbox[tmp[1]] ^ rcon;
      tmp[1] = t.sbox[tmp[2]];
      tmp[2] = t.sbox[tmp[3]];
      tmp[3] = t.sbox[f];
      rcon = t.mul2[rcon];
    }
    for (int j = 0; j < 4; ++j) w[i + j] = w[i - 16 + j] ^ tmp[j];
  }
  memcpy(rk_, w, 176);
}

Aes128::Aes128(const uint8_t key[16]) { Expand(key); }
Aes128::Aes128(absl::uint128 key) {
  uint8_t k[16];
  StoreLe(key, k);
  Expand(k);
}

void Aes128::Encrypt(const uint8_t in[16], uint8_t out[16]) const {
  const Tables& t = T();
  uint8_t s[16], r[16];
  for (int i = 0; i < 16; ++i) s[i] = in[i] ^ rk_[0][i];
  for (int round = 1; round <= 10; ++round) {
    // SubBytes and ShiftRows (column-major state).
    for (int col = 0; col < 4; ++col)
      for (int row = 0; row < 4; ++row) r[4 * col + row] = t.sbox[s[4 * ((col + row) & 3) + row]];
    if (round < 10) {
      for (int col = 0; col < 4; ++col) {
        uint8_t* a = r + 4 * col;
        uint8_t all = a[0] ^ a[1] ^ a[2] ^ a[3], a0 = a[0];
        uint8_t b0 = a[0] ^ all ^ t.mul2[a[0] ^ a[1]];
        uint8_t b1 = a[1] ^ all ^ t.mul2[a[1] ^ a[2]];
        uint8_t b2 = a[2] ^ all ^ t.mul2[a[2] ^ a[3]];
        uint8_t b3 = a[3] ^ all ^ t.mul2[a[3] ^ a0];
        a[0] = b0; a[1] = b1; a[2] = b2; a[3] = b3;
      }
    }
    for (int i = 0; i < 16; ++i) s[i] = r[i] ^ rk_[round][i];
  }
  memcpy(out, s, 16);
}

absl::uint128 Aes128::Encrypt(absl::uint128 in) const {
  uint8_t a[16], b[16];
  StoreLe(in, a);
  Encrypt(a, b);
  return LoadLe(b);
}

absl::uint128 RefSigma(absl::uint128 x) {
  uint64_t hi = absl::Uint128High64(x), lo = absl::Uint128Low64(x);
  return absl::MakeUint128(hi ^ lo, hi);
}

}  // namespace vh
