// Stand-in for riegeli's file reader.
#ifndef VERIF_SHIM_EXP_FD_READER_H_
#define VERIF_SHIM_EXP_FD_READER_H_
#include <fstream>
#include <string>
#include "absl/strings/string_view.h"
namespace riegeli {
template <typename = void>
class FdReaderOf {
 public:
  explicit FdReaderOf(absl::string_view name) : in_(std::string(name)) { opened_ = in_.is_open(); }
  bool ok() const { return opened_ && !in_.bad(); }
  std::ifstream in_;
  std::string line_;

 private:
  bool opened_;
};
using FdReader = FdReaderOf<>;
}  // namespace riegeli
#endif
