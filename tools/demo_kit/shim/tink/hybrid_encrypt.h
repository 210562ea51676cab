// Stand-in for Tink's hybrid_encrypt.h: only the interface this repository uses.
#ifndef VERIF_SHIM_TINK_hybrid_encrypt_H_
#define VERIF_SHIM_TINK_hybrid_encrypt_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto {
namespace tink {
class HybridEncrypt {
 public:
  virtual ~HybridEncrypt() = default;
  virtual absl::StatusOr<std::string> Encrypt(
      absl::string_view in, absl::string_view context_info) const = 0;
};
}  // namespace tink
}  // namespace crypto
#endif
