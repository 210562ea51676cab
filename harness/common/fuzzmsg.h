// Random and mutated protobuf messages, by reflection.
#ifndef VERIF_HARNESS_COMMON_FUZZMSG_H_
#define VERIF_HARNESS_COMMON_FUZZMSG_H_

#include <string>

#include "common/vh.h"
#include "google/protobuf/message.h"

namespace vh {

// Makes between 1 and `n` random changes somewhere in the message tree: fields
// cleared, set to edge values, repeated elements added, dropped, copied and
// swapped, oneofs switched. Returns what was changed.
std::string MutateMessage(Rng& rng, google::protobuf::Message* m, int n);
// Fills a message with random contents, nested at most `depth` deep.
void RandomMessage(Rng& rng, google::protobuf::Message* m, int depth);

}  // namespace vh

#endif
