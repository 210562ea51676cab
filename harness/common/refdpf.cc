#include "common/refdpf.h"

#include <algorithm>

namespace vh {
namespace {
const u128 kLeft = absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL);
const u128 kRight = absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL);
const u128 kValue = absl::MakeUint128(0x05a5d1588c5423e3ULL, 0x46a31101b21d1c98ULL);

int CeilLog2(int n) {
  int k = 0;
  while ((1 << k) < n) ++k;
  return k;
}
u128 FromBlock(const dpflib::Block& b) { return absl::MakeUint128(b.high(), b.low()); }
void ToBlock(u128 v, dpflib::Block* b) {
  b->set_high(absl::Uint128High64(v));
  b->set_low(absl::Uint128Low64(v));
}
bool TakeLow(u128& v) {
  bool r = (absl::Uint128Low64(v) & 1) != 0;
  v &= ~u128{1};
  return r;
}
}  // namespace

RefDpf::RefDpf(std::vector<RefLevel> levels)
    : lv_(std::move(levels)), left_(kLeft), right_(kRight), value_(kValue) {
  for (int i = 0; i < static_cast<int>(lv_.size()); ++i) {
    int log_bits = lv_[i].t.Direct() ? std::min(7, CeilLog2(lv_[i].t.TotalBits())) : 7;
    int tl = std::max(tree_levels_, lv_[i].ld - 7 + log_bits);
    h2t_.push_back(tl);
    t2h_[tl] = i;
    tree_levels_ = std::max(tree_levels_, tl + 1);
  }
}

RefDpf::Node RefDpf::Root(const dpflib::DpfKey& key) const {
  return {FromBlock(key.seed()), key.party() != 0};
}
RefDpf::Node RefDpf::Step(const dpflib::DpfKey& key, Node n, int tree_level, bool right) const {
  const auto& cw = key.correction_words(tree_level);
  Node r;
  r.seed = right ? right_(n.seed) : left_(n.seed);
  if (n.control) r.seed ^= FromBlock(cw.seed());
  r.control = TakeLow(r.seed);
  if (n.control) r.control ^= right ? cw.control_right() : cw.control_left();
  return r;
}
std::vector<RVal> RefDpf::Expand(int i, u128 seed) const {
  const RT& t = lv_[i].t;
  int blocks = (BytesConsumed(t) + 15) / 16;
  std::string bytes(static_cast<size_t>(blocks) * 16, '\0');
  for (int b = 0; b < blocks; ++b)
    StoreLe(value_(seed + b), reinterpret_cast<uint8_t*>(&bytes[static_cast<size_t>(b) * 16]));
  return *FromBytes(t, bytes);
}
std::optional<std::vector<RVal>> RefDpf::Block(const dpflib::DpfKey& key, int i, Node n) const {
  const RT& t = lv_[i].t;
  std::vector<RVal> v = Expand(i, n.seed);
  const auto& cor = i == levels() - 1 ? key.last_level_value_correction()
                                      : key.correction_words(h2t_[i]).value_correction();
  if (cor.size() != static_cast<int>(v.size())) return std::nullopt;
  for (size_t j = 0; j < v.size(); ++j) {
    auto c = FromProto(t, cor[static_cast<int>(j)]);
    if (!c) return std::nullopt;
    if (n.control) v[j] = Add(t, v[j], *c);
    if (key.party() == 1) v[j] = Neg(t, v[j]);
  }
  return v;
}
std::optional<RVal> RefDpf::Eval(const dpflib::DpfKey& key, int i, u128 x) const {
  if (key.correction_words_size() != tree_levels_ - 1) return std::nullopt;
  Node n = Root(key);
  int depth = h2t_[i], bb = block_bits(i);
  u128 path = bb < 128 ? x >> bb : u128{0};
  for (int l = 0; l < depth; ++l) n = Step(key, n, l, ((path >> (depth - 1 - l)) & 1) != 0);
  auto v = Block(key, i, n);
  if (!v) return std::nullopt;
  size_t j = static_cast<size_t>(absl::Uint128Low64(x & ((u128{1} << bb) - 1)));
  return (*v)[j];
}
std::optional<std::vector<RVal>> RefDpf::EvalAll(const dpflib::DpfKey& key, int i) const {
  if (key.correction_words_size() != tree_levels_ - 1) return std::nullopt;
  std::vector<Node> cur = {Root(key)};
  for (int l = 0; l < h2t_[i]; ++l) {
    std::vector<Node> next;
    next.reserve(cur.size() * 2);
    for (auto& n : cur) {
      next.push_back(Step(key, n, l, false));
      next.push_back(Step(key, n, l, true));
    }
    cur = std::move(next);
  }
  std::vector<RVal> out;
  for (auto& n : cur) {
    auto v = Block(key, i, n);
    if (!v) return std::nullopt;
    for (int j = 0; j < (1 << block_bits(i)); ++j) out.push_back((*v)[j]);
  }
  return out;
}

std::pair<dpflib::DpfKey, dpflib::DpfKey> RefDpf::Gen(u128 seed0, u128 seed1, u128 alpha,
                                                      const std::vector<RVal>& beta) const {
  dpflib::DpfKey k[2];
  u128 s[2] = {seed0, seed1};
  bool t[2] = {false, true};
  for (int p = 0; p < 2; ++p) {
    k[p].set_party(p);
    ToBlock(s[p], k[p].mutable_seed());
  }
  int n = lv_.back().ld;
  auto correction = [&](int i) {
    const RT& vt = lv_[i].t;
    std::vector<RVal> a = Expand(i, s[0]), b = Expand(i, s[1]);
    int shift = n - lv_[i].ld;
    u128 prefix = shift < 128 ? alpha >> shift : u128{0};
    size_t pos = static_cast<size_t>(absl::Uint128Low64(prefix & ((u128{1} << block_bits(i)) - 1)));
    std::vector<dpflib::Value> out;
    for (size_t j = 0; j < a.size(); ++j) {
      RVal v = b[j];
      if (j == pos) v = Add(vt, v, beta[i]);
      v = Sub(vt, v, a[j]);
      if (t[1]) v = Neg(vt, v);
      out.push_back(ValProto(vt, v));
    }
    return out;
  };
  for (int l = 1; l < tree_levels_; ++l) {
    dpflib::CorrectionWord cw;
    auto it = t2h_.find(l - 1);
    if (it != t2h_.end())
      for (auto& v : correction(it->second)) *cw.add_value_correction() = v;
    u128 c[2][2];  // [branch][party]
    bool ct[2][2];
    for (int p = 0; p < 2; ++p) {
      c[0][p] = left_(s[p]);
      c[1][p] = right_(s[p]);
      ct[0][p] = TakeLow(c[0][p]);
      ct[1][p] = TakeLow(c[1][p]);
    }
    int bitpos = n - l;
    int bit = bitpos < 128 ? static_cast<int>(absl::Uint128Low64((alpha >> bitpos) & 1)) : 0;
    u128 scw = c[1 - bit][0] ^ c[1 - bit][1];
    bool tcw[2] = {static_cast<bool>(ct[0][0] ^ ct[0][1] ^ bit ^ 1),
                   static_cast<bool>(ct[1][0] ^ ct[1][1] ^ bit)};
    for (int p = 0; p < 2; ++p) {
      s[p] = c[bit][p] ^ (t[p] ? scw : u128{0});
      t[p] = ct[bit][p] ^ (t[p] && tcw[bit]);
    }
    ToBlock(scw, cw.mutable_seed());
    cw.set_control_left(tcw[0]);
    cw.set_control_right(tcw[1]);
    for (int p = 0; p < 2; ++p) *k[p].add_correction_words() = cw;
  }
  for (auto& v : correction(levels() - 1))
    for (int p = 0; p < 2; ++p) *k[p].add_last_level_value_correction() = v;
  return {std::move(k[0]), std::move(k[1])};
}

namespace {
bool SameValue(const dpflib::Value& a, const dpflib::Value& b) {
  if (a.value_case() != b.value_case()) return false;
  switch (a.value_case()) {
    case dpflib::Value::kInteger: return GetInteger(a.integer()) == GetInteger(b.integer());
    case dpflib::Value::kIntModN: return GetInteger(a.int_mod_n()) == GetInteger(b.int_mod_n());
    case dpflib::Value::kXorWrapper: return GetInteger(a.xor_wrapper()) == GetInteger(b.xor_wrapper());
    case dpflib::Value::kTuple:
      if (a.tuple().elements_size() != b.tuple().elements_size()) return false;
      for (int i = 0; i < a.tuple().elements_size(); ++i)
        if (!SameValue(a.tuple().elements(i), b.tuple().elements(i))) return false;
      return true;
    default: return true;
  }
}
template <typename R>
bool SameValues(const R& a, const R& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!SameValue(a[i], b[i])) return false;
  return true;
}
}  // namespace

std::string KeyDiff(const dpflib::DpfKey& a, const dpflib::DpfKey& b, bool shared_only) {
  if (!shared_only) {
    if (a.party() != b.party()) return "party";
    if (FromBlock(a.seed()) != FromBlock(b.seed())) return "seed";
  }
  if (a.correction_words_size() != b.correction_words_size()) return "number of correction words";
  for (int i = 0; i < a.correction_words_size(); ++i) {
    const auto &x = a.correction_words(i), &y = b.correction_words(i);
    std::string at = "correction_words[" + std::to_string(i) + "].";
    if (FromBlock(x.seed()) != FromBlock(y.seed())) return at + "seed";
    if (x.control_left() != y.control_left()) return at + "control_left";
    if (x.control_right() != y.control_right()) return at + "control_right";
    if (!SameValues(x.value_correction(), y.value_correction())) return at + "value_correction";
  }
  if (!SameValues(a.last_level_value_correction(), b.last_level_value_correction())) return "last_level_value_correction";
  return "";
}

std::vector<dpflib::DpfParameters> ParamProtos(const std::vector<RefLevel>& levels) {
  std::vector<dpflib::DpfParameters> p;
  for (auto& l : levels) {
    dpflib::DpfParameters x;
    x.set_log_domain_size(l.ld);
    *x.mutable_value_type() = TypeProto(l.t);
    x.set_security_parameter(l.sec);
    p.push_back(x);
  }
  return p;
}
std::string LevelsName(const std::vector<RefLevel>& levels) {
  std::string s;
  for (auto& l : levels) s += (s.empty() ? "" : ";") + std::to_string(l.ld) + ":" + l.t.Name() + (l.sec ? "@" + std::to_string(static_cast<int>(l.sec)) : "");
  return s;
}

}  // namespace vh
