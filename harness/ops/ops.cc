#include "ops/ops.h"

#include <algorithm>

namespace vh {
namespace {
std::vector<const Ops*>& Table() {
  static auto* t = new std::vector<const Ops*>();
  return *t;
}
}  // namespace

void RegisterOps(const Ops* ops) { Table().push_back(ops); }
const std::vector<const Ops*>& AllOps() {
  static bool sorted = false;
  if (!sorted) {
    std::sort(Table().begin(), Table().end(), [](const Ops* a, const Ops* b) { return a->t.Name() < b->t.Name(); });
    sorted = true;
  }
  return Table();
}
const Ops* FindOps(const RT& t) {
  for (auto* o : AllOps())
    if (o->t == t) return o;
  return nullptr;
}

void FixSecurity(Rng& rng, RefLevel* l) {
  double reach = *SecurityMargin(l->t, 0);  // the largest reachable parameter
  double def = 40.0 + l->ld;
  l->sec = 0;
  if (def > reach - 0.01 || def > 128) {
    double m = std::min(reach - 0.5, 128.0);
    l->sec = rng.chance(1, 3) ? m : std::min(m, 1.0 + static_cast<double>(rng.below(40)));
  } else if (rng.chance(1, 8)) {
    l->sec = std::min({reach - 0.5, 128.0, 1.0 + static_cast<double>(rng.below(60))});
  }
}

std::vector<RefLevel> RandomLevels(Rng& rng, const GenOptions& o) {
  int n = 1 + static_cast<int>(rng.below(o.max_levels));
  std::vector<int> lds;
  int max = o.max_ld;
  if (!o.small_last && rng.chance(1, 2)) max = std::min(max, 20);
  n = std::min(n, max + 1);
  while (static_cast<int>(lds.size()) < n) {
    int ld;
    switch (rng.below(5)) {
      case 0: ld = static_cast<int>(rng.below(std::min(max, 9) + 1)); break;
      case 1: ld = max - static_cast<int>(rng.below(std::min(max, 4) + 1)); break;
      default: ld = static_cast<int>(rng.below(max + 1));
    }
    if (std::find(lds.begin(), lds.end(), ld) == lds.end()) lds.push_back(ld);
  }
  std::sort(lds.begin(), lds.end());
  // Far apart: nearly the whole range between the first and the last level.
  if (n > 1 && !o.small_last && o.max_ld > 20 && rng.chance(1, 10)) {
    int lo = static_cast<int>(rng.below(3)), hi = o.max_ld - static_cast<int>(rng.below(3));
    lds.front() = lo;
    lds.back() = hi;
    for (int k = 1; k + 1 < n; ++k) lds[k] = lo + 1 + (hi - lo - 1) * k / n;
    std::sort(lds.begin(), lds.end());
    lds.erase(std::unique(lds.begin(), lds.end()), lds.end());
  }
  std::vector<RefLevel> out;
  bool same = rng.chance(1, 4);
  const Ops* last = nullptr;
  for (int ld : lds) {
    RefLevel l;
    l.ld = ld;
    if (o.only) last = o.only;
    else if (!same || !last) last = AllOps()[rng.below(AllOps().size())];
    l.t = last->t;
    FixSecurity(rng, &l);
    out.push_back(std::move(l));
  }
  return out;
}

std::unique_ptr<DistributedPointFunction> MakeDpf(Case& c, const std::vector<RefLevel>& levels) {
  auto protos = ParamProtos(levels);
  auto d = protos.size() == 1 && c.rng.chance(1, 2) ? DistributedPointFunction::Create(protos[0])
                                                    : DistributedPointFunction::CreateIncremental(protos);
  if (!d.ok()) {
    c.Fail("create_refused", "valid parameters %s refused: %s", LevelsName(levels).c_str(), S(d.status()).c_str());
    return nullptr;
  }
  return std::move(*d);
}

bool RegisterAll(Case& c, DistributedPointFunction& d, const std::vector<RefLevel>& levels) {
  for (auto& l : levels) {
    absl::Status s = FindOps(l.t)->Register(d);
    if (!s.ok()) {
      c.Fail("register_failed", "%s: %s", l.t.Name().c_str(), S(s).c_str());
      return false;
    }
  }
  return true;
}

absl::StatusOr<KeyPair> GenAny(Case& c, DistributedPointFunction& d, const std::vector<RefLevel>& levels,
                               u128 alpha, const std::vector<RVal>& betas) {
  bool all_int = true, all_same = true;
  for (auto& l : levels) {
    all_int &= l.t.kind == RT::INT;
    all_same &= l.t == levels[0].t;
  }
  std::vector<int> options = {0, 1};
  if (all_int) options.push_back(2), options.push_back(3);
  if (all_same) options.push_back(4);
  if (levels.size() == 1) options.push_back(5), options.push_back(6);
  if (levels.size() == 1 && all_int) options.push_back(7);
  int which = c.rng.pick(options);
  c.Count(("keygen_overload_" + std::to_string(which)).c_str());
  std::vector<u128> ints;
  std::vector<Value> vals;
  switch (which) {
    case 2:
    case 3:
    case 7: break;
    case 4:
    case 6: break;
    case 1:
      for (size_t i = 0; i < levels.size(); ++i) {
        auto v = FindOps(levels[i].t)->ToValueWith(d, betas[i]);
        if (!v.ok()) return v.status();
        vals.push_back(*v);
      }
      break;
    default:
      if (!RegisterAll(c, d, levels)) return absl::InternalError("register");
      for (size_t i = 0; i < levels.size(); ++i) vals.push_back(ValProto(levels[i].t, betas[i]));
  }
  for (auto& b : betas) ints.push_back(b.v);
  switch (which) {
    case 2: return d.GenerateKeysIncremental(alpha, ints);
    case 3: return d.GenerateKeysIncremental(alpha, absl::MakeConstSpan(ints));
    case 7: return d.GenerateKeys(alpha, ints[0]);
    case 4: return FindOps(levels[0].t)->GenSpan(d, alpha, betas);
    case 5: return d.GenerateKeys(alpha, vals[0]);
    case 6: return FindOps(levels[0].t)->Gen(d, alpha, betas[0]);
    default: return d.GenerateKeysIncremental(alpha, absl::MakeConstSpan(vals));
  }
}

std::vector<RVal> RandomBetas(Rng& rng, const std::vector<RefLevel>& levels) {
  std::vector<RVal> b;
  for (auto& l : levels) b.push_back(rng.chance(1, 12) ? Zero(l.t) : RandomVal(l.t, rng));
  return b;
}
u128 PrefixOf(const std::vector<RefLevel>& levels, int i, u128 alpha) {
  return Shr(alpha, levels.back().ld - levels[i].ld);
}
std::vector<absl::uint128> RandomPoints(Rng& rng, const std::vector<RefLevel>& levels, int i, u128 alpha, int n) {
  int ld = levels[i].ld;
  u128 p = PrefixOf(levels, i, alpha);
  u128 max = ld >= 128 ? absl::Uint128Max() : (u128{1} << ld) - 1;
  std::vector<absl::uint128> out;
  for (int j = 0; j < n; ++j) {
    switch (rng.below(6)) {
      case 0: out.push_back(p); break;
      case 1: out.push_back(ld ? p ^ Shl(1, static_cast<int>(rng.below(ld))) : p); break;
      case 2: out.push_back(ld ? p ^ Shl(1, static_cast<int>(rng.below(std::min(ld, 8)))) : p); break;
      case 3: out.push_back((p + u128{rng.below(5)} - 2) & max); break;
      default: out.push_back(rng.edgy(ld));
    }
  }
  return out;
}

}  // namespace vh
