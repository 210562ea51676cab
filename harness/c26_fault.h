#ifndef VERIF_HARNESS_C26_FAULT_H_
#define VERIF_HARNESS_C26_FAULT_H_
#include <stddef.h>
#include <stdint.h>
namespace vh {
// What the library asks of its surroundings, and may be refused.
enum FaultKind { ALLOC, CTX_NEW, INIT, CIPHER, SCHEDULE, FAULT_KINDS };
struct Faults {
  long seen[FAULT_KINDS];  // requests since Reset
  int kind;                // which kind to refuse, or -1
  long at;                 // the number of the request to refuse (from 0)
  bool onwards;            // refuse the later ones, too
  long fired;              // requests refused since Reset
  size_t max_alloc;        // larger buffers are always refused
  void Reset();
};
Faults& TheFaults();  // of the calling thread
inline const char* FaultName(int k) {
  static const char* const names[] = {"alloc", "cipher_ctx", "cipher_init", "cipher", "key_schedule"};
  return names[k];
}
}  // namespace vh
#endif
