// Helpers of the demonstrations.
#ifndef DEMO_H_
#define DEMO_H_
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/numeric/int128.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"

#define REQUIRE(cond)                                                     \
  do {                                                                    \
    if (!(cond)) {                                                        \
      std::printf("demo: line %d: not true: %s\n", __LINE__, #cond);      \
      std::exit(1);                                                       \
    }                                                                     \
  } while (0)

// The value of an absl::StatusOr that has to be OK.
#define VALUE(expr)                                                       \
  ([&]() {                                                                \
    auto v_ = (expr);                                                     \
    if (!v_.ok()) {                                                       \
      std::printf("demo: line %d: %s\n", __LINE__,                        \
                  v_.status().ToString().c_str());                        \
      std::exit(1);                                                       \
    }                                                                     \
    return std::move(*v_);                                                \
  }())

#endif
