// Independent implementation of the published DPF construction over the wire
// format of keys: evaluation of one key, and key generation from given seeds.
#ifndef VERIF_HARNESS_COMMON_REFDPF_H_
#define VERIF_HARNESS_COMMON_REFDPF_H_

#include <map>
#include <optional>
#include <utility>
#include <vector>

#include "common/refaes.h"
#include "common/refval.h"

namespace vh {

struct RefLevel {
  int ld;
  RT t;
  double sec = 0;  // 0: the default, 40 + ld
  double EffectiveSec() const { return sec == 0 ? 40.0 + ld : sec; }
};

class RefDpf {
 public:
  explicit RefDpf(std::vector<RefLevel> levels);
  int levels() const { return static_cast<int>(lv_.size()); }
  const RefLevel& level(int i) const { return lv_[i]; }
  int tree_level(int i) const { return h2t_[i]; }
  int tree_levels() const { return tree_levels_; }
  // Number of bits of a domain index that select an element in a block.
  int block_bits(int i) const { return lv_[i].ld - h2t_[i]; }
  // The share of `key` at `x` on hierarchy level `i`; nullopt if the key does
  // not have the documented structure.
  std::optional<RVal> Eval(const dpflib::DpfKey& key, int i, u128 x) const;
  // All points with the given prefix structure are evaluated by Eval; this
  // expands the whole domain (small ld only).
  std::optional<std::vector<RVal>> EvalAll(const dpflib::DpfKey& key, int i) const;
  std::pair<dpflib::DpfKey, dpflib::DpfKey> Gen(u128 seed0, u128 seed1, u128 alpha,
                                                const std::vector<RVal>& beta) const;

  struct Node {
    u128 seed;
    bool control;
  };
  Node Root(const dpflib::DpfKey& key) const;
  Node Step(const dpflib::DpfKey& key, Node n, int tree_level, bool right) const;
  std::optional<std::vector<RVal>> Block(const dpflib::DpfKey& key, int i, Node n) const;

 private:
  std::vector<RVal> Expand(int i, u128 seed) const;
  std::vector<RefLevel> lv_;
  std::vector<int> h2t_;
  std::map<int, int> t2h_;
  int tree_levels_ = 0;
  RefHash left_, right_, value_;
};

// Field-by-field equality of keys (integers by value, not by wire form).
// Returns an empty string if equal, otherwise what differs. `shared_only`
// ignores the root seed and the party.
std::string KeyDiff(const dpflib::DpfKey& a, const dpflib::DpfKey& b, bool shared_only = false);

std::vector<dpflib::DpfParameters> ParamProtos(const std::vector<RefLevel>& levels);
std::string LevelsName(const std::vector<RefLevel>& levels);

}  // namespace vh

#endif
