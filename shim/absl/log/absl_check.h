// Stand-in for Abseil's absl/log/absl_check.h (not part of the installed
// Abseil 20220623).  Checks are live, debug checks included: a failed one
// prints "CHECK-FAILED" with its location and aborts, which the runner reports.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/numeric/int128.h"

namespace verif_shim {
class CheckFailure {
 public:
  CheckFailure(const char* file, int line, const char* expr) {
    os_ << "CHECK-FAILED " << file << ":" << line << " " << expr << " ";
  }
  [[noreturn]] ~CheckFailure() {
    std::fprintf(stderr, "%s\n", os_.str().c_str());
    std::fflush(stderr);
    std::abort();
  }
  std::ostream& stream() { return os_; }

 private:
  std::ostringstream os_;
};
struct Voidify {
  void operator&(std::ostream&) const {}
};
class NullStream {
 public:
  template <typename T>
  NullStream& operator<<(const T&) { return *this; }
};
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_shim

#define VERIF_SHIM_CHECK(cond, text)                     \
  (cond) ? (void)0                                       \
         : ::verif_shim::Voidify() &                     \
               ::verif_shim::CheckFailure(__FILE__, __LINE__, text).stream()

#define ABSL_CHECK(c) VERIF_SHIM_CHECK((c), #c)
#define ABSL_CHECK_EQ(a, b) VERIF_SHIM_CHECK((a) == (b), #a " == " #b)
#define ABSL_CHECK_NE(a, b) VERIF_SHIM_CHECK((a) != (b), #a " != " #b)
#define ABSL_CHECK_LT(a, b) VERIF_SHIM_CHECK((a) < (b), #a " < " #b)
#define ABSL_CHECK_LE(a, b) VERIF_SHIM_CHECK((a) <= (b), #a " <= " #b)
#define ABSL_CHECK_GT(a, b) VERIF_SHIM_CHECK((a) > (b), #a " > " #b)
#define ABSL_CHECK_GE(a, b) VERIF_SHIM_CHECK((a) >= (b), #a " >= " #b)
#define ABSL_CHECK_OK(s) VERIF_SHIM_CHECK(::verif_shim::AsStatus(s).ok(), #s)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_QCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_QCHECK_OK(s) ABSL_CHECK_OK(s)
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)

#endif
