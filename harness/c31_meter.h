// Counts what the library does during a call.
#ifndef VERIF_HARNESS_C31_METER_H_
#define VERIF_HARNESS_C31_METER_H_

#include <cstddef>
#include <cstdint>

namespace vh {

struct Meter {
  uint64_t steps = 0;  // edges of the control flow taken in the library's code
  uint64_t blocks = 0; // AES blocks made by the cipher library
  uint64_t moved = 0;  // bytes copied or filled by memcpy, memmove and memset
  uint64_t taken = 0;  // bytes of memory asked for
  int64_t live = 0;    // bytes in use
  int64_t peak = 0;    // most bytes in use at a time
};
Meter& TheMeter();

}  // namespace vh

#endif
