// Ideal stand-in for the Tink hybrid encryption used by pir/testing: encryption
// under a fixed AES-256-GCM key with the context info as associated data.
#include <atomic>
#include <cstring>
#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "openssl/aead.h"
#include "openssl/sha.h"
#include "pir/testing/encrypt_decrypt.h"

namespace distributed_point_functions {
namespace pir_testing {
namespace {

const uint8_t kKey[32] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31};

class Impl {
 public:
  static bool Seal(absl::string_view in, absl::string_view ad,
                   std::string* out) {
    static std::atomic<uint64_t> counter{1};
    uint8_t nonce[12] = {0};
    uint64_t c = counter.fetch_add(1);
    std::memcpy(nonce, &c, 8);
    EVP_AEAD_CTX ctx;
    EVP_AEAD_CTX_init(&ctx, EVP_aead_aes_256_gcm(), kKey, 32, 16, nullptr);
    std::string buf(12 + in.size() + 16, '\0');
    std::memcpy(&buf[0], nonce, 12);
    size_t n = 0;
    int ok = EVP_AEAD_CTX_seal(
        &ctx, reinterpret_cast<uint8_t*>(&buf[12]), &n, in.size() + 16, nonce,
        12, reinterpret_cast<const uint8_t*>(in.data()), in.size(),
        reinterpret_cast<const uint8_t*>(ad.data()), ad.size());
    EVP_AEAD_CTX_cleanup(&ctx);
    if (!ok) return false;
    buf.resize(12 + n);
    *out = std::move(buf);
    return true;
  }
  static bool Open(absl::string_view in, absl::string_view ad,
                   std::string* out) {
    if (in.size() < 28) return false;
    EVP_AEAD_CTX ctx;
    EVP_AEAD_CTX_init(&ctx, EVP_aead_aes_256_gcm(), kKey, 32, 16, nullptr);
    std::string buf(in.size(), '\0');
    size_t n = 0;
    int ok = EVP_AEAD_CTX_open(
        &ctx, reinterpret_cast<uint8_t*>(&buf[0]), &n, buf.size(),
        reinterpret_cast<const uint8_t*>(in.data()), 12,
        reinterpret_cast<const uint8_t*>(in.data()) + 12, in.size() - 12,
        reinterpret_cast<const uint8_t*>(ad.data()), ad.size());
    EVP_AEAD_CTX_cleanup(&ctx);
    if (!ok) return false;
    buf.resize(n);
    *out = std::move(buf);
    return true;
  }
};

class FakeDecrypt : public crypto::tink::HybridDecrypt {
 public:
  absl::StatusOr<std::string> Decrypt(absl::string_view in,
                                      absl::string_view ctx) const override {
    std::string out;
    if (!Impl::Open(in, ctx, &out)) {
      return absl::InvalidArgumentError("decryption failed");
    }
    return out;
  }
};

class FakeEncrypt : public crypto::tink::HybridEncrypt {
 public:
  absl::StatusOr<std::string> Encrypt(absl::string_view in,
                                      absl::string_view ctx) const override {
    std::string out;
    if (!Impl::Seal(in, ctx, &out)) {
      return absl::InternalError("encryption failed");
    }
    return out;
  }
};

}  // namespace

absl::StatusOr<std::unique_ptr<crypto::tink::HybridDecrypt>>
CreateFakeHybridDecrypt() {
  return std::unique_ptr<crypto::tink::HybridDecrypt>(new FakeDecrypt);
}
absl::StatusOr<std::unique_ptr<crypto::tink::HybridEncrypt>>
CreateFakeHybridEncrypt() {
  return std::unique_ptr<crypto::tink::HybridEncrypt>(new FakeEncrypt);
}

}  // namespace pir_testing
}  // namespace distributed_point_functions
