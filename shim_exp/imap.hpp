// Stand-in for cppitertools' imap.
#ifndef VERIF_SHIM_EXP_IMAP_HPP_
#define VERIF_SHIM_EXP_IMAP_HPP_
#include <type_traits>
#include <vector>
namespace iter {
template <typename F, typename C>
auto imap(F f, C&& c) {
  std::vector<std::decay_t<decltype(f(*c.begin()))>> out;
  for (auto& x : c) out.push_back(f(x));
  return out;
}
}  // namespace iter
#endif
