// Stand-in for Google Benchmark: what must not be optimized away is shown to the monitor.
#ifndef VERIF_SHIM_EXP_BENCHMARK_H_
#define VERIF_SHIM_EXP_BENCHMARK_H_
#include <cstdint>
#include <vector>
namespace verif_exp {
void Result(const uint32_t* v, size_t n);
}
namespace benchmark {
template <typename T>
void DoNotOptimize(const std::vector<T>& v) {
  std::vector<uint32_t> x(v.begin(), v.end());
  verif_exp::Result(x.data(), x.size());
}
template <typename T>
void DoNotOptimize(std::vector<T>& v) { DoNotOptimize(const_cast<const std::vector<T>&>(v)); }
inline void ClobberMemory() {}
}  // namespace benchmark
#endif
