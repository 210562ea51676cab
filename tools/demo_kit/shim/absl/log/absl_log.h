// Stand-in for Abseil's absl/log/absl_log.h: messages are dropped, except that
// FATAL prints CHECK-FAILED and aborts.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include "absl/log/absl_check.h"
#define VERIF_SHIM_LOG_INFO ::verif_shim::NullStream()
#define VERIF_SHIM_LOG_WARNING ::verif_shim::NullStream()
#define VERIF_SHIM_LOG_ERROR ::verif_shim::NullStream()
#define VERIF_SHIM_LOG_DFATAL VERIF_SHIM_LOG_FATAL
#define VERIF_SHIM_LOG_FATAL \
  ::verif_shim::CheckFailure(__FILE__, __LINE__, "LOG(FATAL)").stream()
#define ABSL_LOG(severity) VERIF_SHIM_LOG_##severity
#define ABSL_LOG_FIRST_N(severity, n) VERIF_SHIM_LOG_##severity
#define ABSL_LOG_IF(severity, cond) \
  if (!(cond)) {                   \
  } else                           \
    VERIF_SHIM_LOG_##severity
#define ABSL_LOG_EVERY_N(severity, n) VERIF_SHIM_LOG_##severity
#define ABSL_DLOG(severity) ABSL_LOG(severity)
#define ABSL_VLOG(n) ::verif_shim::NullStream()
#endif
