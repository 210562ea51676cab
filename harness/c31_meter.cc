// The hooks behind TheMeter(): coverage callbacks, memory functions, allocator.
// cxxflags: -fno-sanitize-coverage=trace-pc -fno-builtin
#include "c31_meter.h"

#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <stdlib.h>

#include "openssl/aes.h"
#include "openssl/evp.h"

namespace vh {
static Meter meter;
Meter& TheMeter() { return meter; }

static void* Took(void* p) {
  if (p) {
    size_t n = malloc_usable_size(p);
    meter.taken += n;
    meter.live += static_cast<int64_t>(n);
    if (meter.live > meter.peak) meter.peak = meter.live;
  }
  return p;
}
static void Gave(void* p) {
  if (p) meter.live -= static_cast<int64_t>(malloc_usable_size(p));
}
template <typename F>
static F Next(F, const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) abort();
  return reinterpret_cast<F>(p);
}
}  // namespace vh

#define NEXT(f) static auto next = vh::Next(&f, #f)
extern "C" {
int EVP_Cipher(EVP_CIPHER_CTX* ctx, uint8_t* out, const uint8_t* in, size_t n) {
  NEXT(EVP_Cipher);
  vh::meter.blocks += (n + 15) / 16;
  return next(ctx, out, in, n);
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX* ctx, uint8_t* out, int* out_len, const uint8_t* in, int n) {
  NEXT(EVP_EncryptUpdate);
  vh::meter.blocks += static_cast<uint64_t>(n + 15) / 16;
  return next(ctx, out, out_len, in, n);
}
void AES_encrypt(const uint8_t* in, uint8_t* out, const AES_KEY* key) {
  NEXT(AES_encrypt);
  ++vh::meter.blocks;
  next(in, out, key);
}
void AES_ctr128_encrypt(const uint8_t* in, uint8_t* out, size_t n, const AES_KEY* key, uint8_t ivec[16], uint8_t ecount[16], unsigned* num) {
  NEXT(AES_ctr128_encrypt);
  vh::meter.blocks += (n + 15) / 16;
  next(in, out, n, key, ivec, ecount, num);
}

void __sanitizer_cov_trace_pc() { ++vh::meter.steps; }

void* memcpy(void* d, const void* s, size_t n) {
  void* r = d;
  vh::meter.moved += n;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (static_cast<char*>(d) <= static_cast<const char*>(s) || static_cast<char*>(d) >= static_cast<const char*>(s) + n) return memcpy(d, s, n);
  void* r = d;
  vh::meter.moved += n;
  d = static_cast<char*>(d) + n - 1;
  s = static_cast<const char*>(s) + n - 1;
  asm volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memset(void* d, int v, size_t n) {
  void* r = d;
  vh::meter.moved += n;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}

void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

// Larger blocks always lie where vectors can be loaded from, so that no luck
// decides which code runs.
void free(void* p) noexcept;
void* malloc(size_t n) { return vh::Took(n < 64 ? __libc_malloc(n) : __libc_memalign(128, n)); }
void* calloc(size_t a, size_t b) { return vh::Took(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  void* q = malloc(n);
  if (!q) return q;
  size_t old = malloc_usable_size(p);
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void free(void* p) noexcept {
  vh::Gave(p);
  __libc_free(p);
}
void* memalign(size_t a, size_t n) { return vh::Took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return vh::Took(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = vh::Took(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
}
