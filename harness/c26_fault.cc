// Stands between the library and what it asks of its surroundings: aligned
// buffers, cipher contexts, ciphers and key schedules. Counts the requests and
// refuses chosen ones.
#include <dlfcn.h>
#include <stdlib.h>

#include "c26_fault.h"
#include "hwy/aligned_allocator.h"
#include "openssl/aes.h"
#include "openssl/cipher.h"

namespace vh {
Faults& TheFaults() {
  static thread_local Faults f = {{0, 0, 0, 0, 0}, -1, 0, false, 0, static_cast<size_t>(-1)};
  return f;
}
void Faults::Reset() {
  for (long& s : seen) s = 0;
  kind = -1;
  at = 0;
  onwards = false;
  fired = 0;
  max_alloc = static_cast<size_t>(-1);
}
namespace {
bool Refuse(int kind) {
  Faults& f = TheFaults();
  long n = f.seen[kind]++;
  if (kind != f.kind || n < f.at || (n > f.at && !f.onwards)) return false;
  ++f.fired;
  return true;
}
template <typename F>
F Next(F, const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) abort();
  return reinterpret_cast<F>(p);
}
}  // namespace
}  // namespace vh

#define NEXT(f) static auto next = vh::Next(&f, #f)

namespace hwy {
HWY_DLLEXPORT void* AllocateAlignedBytes(size_t payload_size, AllocPtr alloc_ptr, void* opaque_ptr) {
  static auto next = vh::Next(&AllocateAlignedBytes, "_ZN3hwy20AllocateAlignedBytesEmPFPvS0_mES0_");
  if (vh::Refuse(vh::ALLOC)) return nullptr;
  if (payload_size > vh::TheFaults().max_alloc) {
    ++vh::TheFaults().fired;
    return nullptr;
  }
  return next(payload_size, alloc_ptr, opaque_ptr);
}
}  // namespace hwy

extern "C" {
EVP_CIPHER_CTX* EVP_CIPHER_CTX_new() {
  NEXT(EVP_CIPHER_CTX_new);
  return vh::Refuse(vh::CTX_NEW) ? nullptr : next();
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* ctx, const EVP_CIPHER* cipher, ENGINE* impl, const uint8_t* key, const uint8_t* iv) {
  NEXT(EVP_EncryptInit_ex);
  return vh::Refuse(vh::INIT) ? 0 : next(ctx, cipher, impl, key, iv);
}
int EVP_Cipher(EVP_CIPHER_CTX* ctx, uint8_t* out, const uint8_t* in, size_t n) {
  NEXT(EVP_Cipher);
  return vh::Refuse(vh::CIPHER) ? 0 : next(ctx, out, in, n);
}
int AES_set_encrypt_key(const uint8_t* key, unsigned bits, AES_KEY* out) {
  NEXT(AES_set_encrypt_key);
  return vh::Refuse(vh::SCHEDULE) ? -1 : next(key, bits, out);
}
}
