#ifndef VERIF_HARNESS_C24_JITTER_H_
#define VERIF_HARNESS_C24_JITTER_H_
#include <stdint.h>
namespace vh {
// Nonzero: this thread pauses at random points.
extern thread_local uint64_t jitter_state;
void Jitter();
// The case that runs, for reports.
extern const char* current_group;
extern uint64_t current_index;
}  // namespace vh
#endif
