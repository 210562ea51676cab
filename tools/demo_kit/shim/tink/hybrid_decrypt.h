// Stand-in for Tink's hybrid_decrypt.h: only the interface this repository uses.
#ifndef VERIF_SHIM_TINK_hybrid_decrypt_H_
#define VERIF_SHIM_TINK_hybrid_decrypt_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto {
namespace tink {
class HybridDecrypt {
 public:
  virtual ~HybridDecrypt() = default;
  virtual absl::StatusOr<std::string> Decrypt(
      absl::string_view in, absl::string_view context_info) const = 0;
};
}  // namespace tink
}  // namespace crypto
#endif
