// The cipher and digest library is not instrumented: these wrappers make its
// accesses to shared contexts and buffers visible to ThreadSanitizer, and put
// random pauses where the library under test is in the middle of something.
#include <dlfcn.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>

#include "openssl/aes.h"
#include "openssl/digest.h"
#include "openssl/evp.h"
#include "openssl/sha.h"
#include "c24_jitter.h"

extern "C" {
void __tsan_write1(void*);
void __tsan_read1(void*);
void __tsan_read_range(void*, unsigned long);
void __tsan_write_range(void*, unsigned long);
}

namespace vh {
thread_local uint64_t jitter_state = 0;
const char* current_group = "none";
uint64_t current_index = 0;

void Jitter() {
  if (jitter_state == 0) return;
  jitter_state = jitter_state * 6364136223846793005ull + 1442695040888963407ull;
  uint64_t x = jitter_state >> 40;
  if (x % 16 == 0) {
    sched_yield();
  } else if (x % 97 == 1) {
    struct timespec t = {0, static_cast<long>(1000 + (x >> 8) % 60000)};
    nanosleep(&t, nullptr);
  }
}

namespace {
void W(const void* p) { if (p) __tsan_write1(const_cast<void*>(p)); }
void R(const void* p) { if (p) __tsan_read1(const_cast<void*>(p)); }
void RR(const void* p, size_t n) { if (p && n) __tsan_read_range(const_cast<void*>(p), n); }
void WR(const void* p, size_t n) { if (p && n) __tsan_write_range(const_cast<void*>(p), n); }
template <typename F>
F Next(F, const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) abort();
  return reinterpret_cast<F>(p);
}
}  // namespace
}  // namespace vh

using namespace vh;
extern "C" void __tsan_on_report(void*) {
  fprintf(stderr, "VH-REPORT-IN %s %llu\n", current_group, static_cast<unsigned long long>(current_index));
}
#define NEXT(f) static auto next = Next(&f, #f)

extern "C" {
int EVP_Cipher(EVP_CIPHER_CTX* ctx, uint8_t* out, const uint8_t* in, size_t n) {
  NEXT(EVP_Cipher);
  Jitter();
  // In ECB mode the context is only read; other modes carry state in it.
  if (EVP_CIPHER_CTX_mode(ctx) == EVP_CIPH_ECB_MODE) R(ctx); else W(ctx);
  RR(in, n);
  WR(out, n);
  return next(ctx, out, in, n);
}
#define UPDATE(f)                                                                       \
  int f(EVP_CIPHER_CTX* ctx, uint8_t* out, int* out_len, const uint8_t* in, int n) {    \
    NEXT(f);                                                                            \
    Jitter();                                                                           \
    W(ctx);                                                                             \
    if (n > 0) RR(in, static_cast<size_t>(n)), WR(out, static_cast<size_t>(n));         \
    return next(ctx, out, out_len, in, n);                                              \
  }
UPDATE(EVP_EncryptUpdate)
UPDATE(EVP_DecryptUpdate)
UPDATE(EVP_CipherUpdate)
#define FINAL(f)                                              \
  int f(EVP_CIPHER_CTX* ctx, uint8_t* out, int* out_len) {    \
    NEXT(f);                                                  \
    Jitter();                                                 \
    W(ctx);                                                   \
    return next(ctx, out, out_len);                           \
  }
FINAL(EVP_EncryptFinal_ex)
FINAL(EVP_DecryptFinal_ex)
FINAL(EVP_CipherFinal_ex)
#define INIT(f)                                                                                                   \
  int f(EVP_CIPHER_CTX* ctx, const EVP_CIPHER* c, ENGINE* e, const uint8_t* key, const uint8_t* iv) {             \
    NEXT(f);                                                                                                      \
    Jitter();                                                                                                     \
    W(ctx);                                                                                                       \
    return next(ctx, c, e, key, iv);                                                                              \
  }
INIT(EVP_EncryptInit_ex)
INIT(EVP_DecryptInit_ex)
int EVP_CIPHER_CTX_copy(EVP_CIPHER_CTX* out, const EVP_CIPHER_CTX* in) {
  NEXT(EVP_CIPHER_CTX_copy);
  W(out);
  R(in);
  return next(out, in);
}
int SHA256_Init(SHA256_CTX* c) {
  NEXT(SHA256_Init);
  WR(c, sizeof(*c));
  return next(c);
}
int SHA256_Update(SHA256_CTX* c, const void* p, size_t n) {
  NEXT(SHA256_Update);
  Jitter();
  WR(c, sizeof(*c));
  RR(p, n);
  return next(c, p, n);
}
int SHA256_Final(uint8_t* out, SHA256_CTX* c) {
  NEXT(SHA256_Final);
  Jitter();
  WR(c, sizeof(*c));
  WR(out, 32);
  return next(out, c);
}
uint8_t* SHA256(const uint8_t* p, size_t n, uint8_t* out) {
  NEXT(SHA256);
  Jitter();
  RR(p, n);
  WR(out, 32);
  return next(p, n, out);
}
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* md, ENGINE* e) {
  NEXT(EVP_DigestInit_ex);
  W(c);
  return next(c, md, e);
}
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* p, size_t n) {
  NEXT(EVP_DigestUpdate);
  Jitter();
  W(c);
  RR(p, n);
  return next(c, p, n);
}
int EVP_DigestFinal_ex(EVP_MD_CTX* c, uint8_t* out, unsigned* n) {
  NEXT(EVP_DigestFinal_ex);
  W(c);
  return next(c, out, n);
}
int AES_set_encrypt_key(const uint8_t* key, unsigned bits, AES_KEY* k) {
  NEXT(AES_set_encrypt_key);
  WR(k, sizeof(*k));
  return next(key, bits, k);
}
void AES_encrypt(const uint8_t* in, uint8_t* out, const AES_KEY* k) {
  NEXT(AES_encrypt);
  RR(k, sizeof(*k));
  RR(in, 16);
  WR(out, 16);
  next(in, out, k);
}
}
