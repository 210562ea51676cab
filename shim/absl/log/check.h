#ifndef VERIF_SHIM_CHECK_H_
#define VERIF_SHIM_CHECK_H_
#include "absl/log/absl_check.h"
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_OK(s) ABSL_CHECK_OK(s)
#define DCHECK(c) ABSL_DCHECK(c)
#endif
