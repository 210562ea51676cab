// Stand-in for riegeli's line reader.
#ifndef VERIF_SHIM_EXP_LINE_READING_H_
#define VERIF_SHIM_EXP_LINE_READING_H_
#include "riegeli/bytes/fd_reader.h"
namespace riegeli {
inline bool ReadLine(FdReader& r, absl::string_view& line) {
  if (!r.ok() || !std::getline(r.in_, r.line_)) return false;
  line = r.line_;
  return true;
}
}  // namespace riegeli
#endif
