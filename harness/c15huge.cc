// needs: pir
// C15: records of more than 2^31 bytes (built without sanitizers: the size is the point).
#include <sys/mman.h>

#include <string>
#include <vector>

#include "common/targets.h"
#include "common/vh.h"
#include "pir/internal/inner_product_hwy.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
using Block = XorWrapper<absl::uint128>;
using Selection = std::vector<Block>;

// A record of more than 2^31 bytes: untouched zero pages except for its ends,
// aligned for the vector kernels, for the 128-bit path, or not at all.
VH_GROUP(huge_record, 2, 9) {
  Rng& r = c.rng;
  const size_t size = (size_t{1} << 31) + 1 + r.below(40), room = size + 4096;
  const size_t shift = c.index % 3 == 0 ? 16 : c.index % 3 == 1 ? 1 + r.below(15) : 0;
  c.Desc("size=%zu shift=%zu", size, shift);
  void* area = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  VH_CHECK(c, area != MAP_FAILED, "no_memory", "mmap");
  madvise(area, room, MADV_NOHUGEPAGE);
  char* data = static_cast<char*>(area) + shift;
  for (int i = 0; i < 64; ++i) {
    data[i] = static_cast<char>(r.u64());
    data[size - 64 + i] = static_cast<char>(r.u64() | 1);
    data[r.below(size)] = static_cast<char>(r.u64());
  }
  std::string small = r.bytes(1 + r.below(40));
  std::vector<absl::string_view> views{small, absl::string_view(data, size)};
  std::vector<Selection> sel(1, Selection(1, Block(2)));
  {
    auto got = pir_internal::InnerProduct(views, sel, static_cast<int64_t>(size));
    if (!got.ok() || got->size() != 1 || (*got)[0] != views[1]) c.Fail("answer_differs", "%s", S(got.status()).c_str());
  }
  if (!c.failed() && c.thorough) {
    auto got = pir_internal::InnerProductNoHwy(views, sel, static_cast<int64_t>(size));
    if (!got.ok() || got->size() != 1 || (*got)[0] != views[1]) c.Fail("portable_differs", "%s", S(got.status()).c_str());
  }
  munmap(area, room);
  c.Count("huge_records");
}

}  // namespace
}  // namespace vh
