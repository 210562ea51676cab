// needs: ops dcfops dcf
// C05: shares are the documented function of the serialized key.
#include <algorithm>

#include "common/wire.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcfops/dcfops.h"
#include "ops/ops.h"

namespace vh {
namespace {

u128 SeedOf(const DpfKey& k) { return absl::MakeUint128(k.seed().high(), k.seed().low()); }

// Compares the library's shares on all levels with the reference.
bool CheckShares(Case& c, const RefDpf& ref, const DistributedPointFunction& d, const DpfKey& key, u128 alpha,
                 const char* what) {
  std::vector<RefLevel> lv;
  for (int i = 0; i < ref.levels(); ++i) lv.push_back(ref.level(i));
  for (int i = 0; i < ref.levels(); ++i) {
    const Ops* o = FindOps(lv[i].t);
    auto x = RandomPoints(c.rng, lv, i, alpha, 1 + static_cast<int>(c.rng.below(8)));
    auto got = o->EvalAt(d, key, i, x);
    if (!got.ok() || got->size() != x.size()) {
      c.Fail("refused", "%s: %s", what, S(got.status()).c_str());
      return false;
    }
    for (size_t j = 0; j < x.size(); ++j) {
      auto want = ref.Eval(key, i, x[j]);
      if (!want || (*got)[j] != *want) {
        c.Fail(std::string("share_differs_") + what, "level %d x=%s: %s instead of %s", i, Str(x[j]).c_str(),
               Str((*got)[j]).c_str(), want ? Str(*want).c_str() : "(key without documented structure)");
        return false;
      }
    }
    c.Count("shares", x.size());
    c.Count(("shares_" + lv[i].t.Name()).c_str(), x.size());
    if (lv[i].ld <= 9 && (i == 0 || c.rng.chance(1, 2))) {
      auto ctx = d.CreateEvaluationContext(key);
      if (!ctx.ok()) { c.Fail("context_refused", "%s", S(ctx.status()).c_str()); return false; }
      auto full = o->EvalUntil(d, i, {}, *ctx);
      auto want = ref.EvalAll(key, i);
      if (!full.ok() || !want || *full != *want) {
        c.Fail(std::string("expansion_differs_") + what, "level %d: %s", i, S(full.status()).c_str());
        return false;
      }
      c.Count("expanded", full->size());
    }
  }
  return true;
}

void RandomBlock(Rng& rng, dpflib::Block* b) {
  u128 v = rng.edgy(128);
  b->set_high(absl::Uint128High64(v));
  b->set_low(absl::Uint128Low64(v));
}

// The value in its proto form; integers in any of their wire forms.
Value AnyForm(Rng& rng, const RT& t, const RVal& v) {
  Value p;
  switch (t.kind) {
    case RT::INT: SetInteger(p.mutable_integer(), v.v, rng.chance(1, 2)); break;
    case RT::MOD: SetInteger(p.mutable_int_mod_n(), v.v, rng.chance(1, 2)); break;
    case RT::XOR: SetInteger(p.mutable_xor_wrapper(), v.v, rng.chance(1, 2)); break;
    case RT::TUP:
      p.mutable_tuple();
      for (size_t i = 0; i < t.el.size(); ++i) *p.mutable_tuple()->add_elements() = AnyForm(rng, t.el[i], v.e[i]);
  }
  return p;
}

// Keys the library makes: evaluated by it and by the reference, and equal to
// what the published construction makes of the same seeds.
VH_GROUP(library_keys, 4500, 60000) {
  GenOptions go;
  go.max_levels = 5;
  auto lv = RandomLevels(c.rng, go);
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto beta = RandomBetas(c.rng, lv);
  c.Desc("levels=%s alpha=%s", LevelsName(lv).c_str(), Str(alpha).c_str());
  RefDpf ref(lv);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  auto keys = GenAny(c, *d, lv, alpha, beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  auto want = ref.Gen(SeedOf(keys->first), SeedOf(keys->second), alpha, beta);
  for (int party = 0; party < 2; ++party) {
    const DpfKey& key = party ? keys->second : keys->first;
    std::string diff = KeyDiff(key, party ? want.second : want.first);
    VH_CHECK(c, diff.empty(), "key_differs", "party %d: %s", party, diff.c_str());
    std::string bytes = key.SerializeAsString();
    VH_CHECK(c, bytes == EncodeKey(key), "wire_format", "party %d: %s", party, Hex(bytes, 200).c_str());
    DpfKey parsed;
    VH_CHECK(c, parsed.ParseFromString(bytes), "parse", "party %d", party);
    // A different object evaluates the parsed key.
    auto d2 = MakeDpf(c, lv);
    if (!d2 || !CheckShares(c, ref, *d2, parsed, alpha, "library_key")) return;
  }
  c.Count("library_keys");
}

// Keys made outside the library, from any seeds.
VH_GROUP(foreign_keys, 3750, 50000) {
  GenOptions go;
  go.max_levels = 4;
  auto lv = RandomLevels(c.rng, go);
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto beta = RandomBetas(c.rng, lv);
  u128 s0 = c.rng.edgy(128), s1 = c.rng.edgy(128);
  c.Desc("levels=%s alpha=%s seeds=%s,%s", LevelsName(lv).c_str(), Str(alpha).c_str(), Str(s0).c_str(), Str(s1).c_str());
  RefDpf ref(lv);
  auto k = ref.Gen(s0, s1, alpha, beta);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  // Written by an independent encoder that uses the freedoms of the format.
  DpfKey a, b;
  VH_CHECK(c, a.ParseFromString(EncodeKey(k.first, &c.rng)) && b.ParseFromString(EncodeKey(k.second, &c.rng)), "parse",
           "an encoded key does not parse");
  std::string diff = KeyDiff(a, k.first) + KeyDiff(b, k.second);
  VH_CHECK(c, diff.empty(), "decoded_differently", "%s", diff.c_str());
  if (!CheckShares(c, ref, *d, a, alpha, "foreign_key") || !CheckShares(c, ref, *d, b, alpha, "foreign_key")) return;
  for (int i = 0; i < static_cast<int>(lv.size()); ++i) {
    auto x = RandomPoints(c.rng, lv, i, alpha, 3);
    const Ops* o = FindOps(lv[i].t);
    auto r0 = o->EvalAt(*d, a, i, x), r1 = o->EvalAt(*d, b, i, x);
    VH_CHECK(c, r0.ok() && r1.ok(), "refused", "%s %s", S(r0.status()).c_str(), S(r1.status()).c_str());
    for (size_t j = 0; j < x.size(); ++j) {
      RVal want = x[j] == PrefixOf(lv, i, alpha) ? beta[i] : Zero(lv[i].t);
      VH_CHECK(c, Add(lv[i].t, (*r0)[j], (*r1)[j]) == want, "foreign_keys_do_not_reconstruct", "level %d x=%s", i,
               Str(x[j]).c_str());
      c.Count("reconstructed");
    }
  }
  c.Count("foreign_keys");
}

// Keys of the documented structure with arbitrary contents.
VH_GROUP(arbitrary_keys, 3750, 50000) {
  GenOptions go;
  go.max_levels = 4;
  auto lv = RandomLevels(c.rng, go);
  RefDpf ref(lv);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  DpfKey key;
  key.set_party(static_cast<int>(c.rng.below(2)));
  RandomBlock(c.rng, key.mutable_seed());
  for (int i = 0; i < ref.tree_levels() - 1; ++i) {
    auto* cw = key.add_correction_words();
    RandomBlock(c.rng, cw->mutable_seed());
    cw->set_control_left(c.rng.chance(1, 2));
    cw->set_control_right(c.rng.chance(1, 2));
  }
  for (int i = 0; i < ref.levels(); ++i) {
    int n = ElementsPerBlock(lv[i].t);
    for (int j = 0; j < n; ++j) {
      Value v = AnyForm(c.rng, lv[i].t, RandomVal(lv[i].t, c.rng));
      if (i == ref.levels() - 1) *key.add_last_level_value_correction() = v;
      else *key.mutable_correction_words(ref.tree_level(i))->add_value_correction() = v;
    }
  }
  c.Desc("levels=%s key=%llx", LevelsName(lv).c_str(), (unsigned long long)Hash(key.SerializeAsString()));
  std::string bytes = EncodeKey(key, &c.rng);
  DpfKey parsed;
  VH_CHECK(c, parsed.ParseFromString(bytes), "parse", "an encoded key does not parse");
  u128 near = c.rng.edgy(lv.back().ld);
  if (!CheckShares(c, ref, *d, parsed, near, "arbitrary_key")) return;
  // Incrementally, through a context that travels as bytes, and many keys at once.
  auto ctx = d->CreateEvaluationContext(parsed);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  std::vector<absl::uint128> pre;
  int from = 0;
  for (int i = 0; i < ref.levels(); ++i) {
    if (lv[i].ld - from > 7) break;
    auto r = FindOps(lv[i].t)->EvalUntil(*d, i, pre, *ctx);
    VH_CHECK(c, r.ok(), "incremental_refused", "level %d: %s", i, S(r.status()).c_str());
    std::vector<absl::uint128> at;
    if (i == 0) pre = {0};
    for (auto& p : pre)
      for (u128 t = 0; t < (u128{1} << (lv[i].ld - from)); ++t) at.push_back(Shl(p, lv[i].ld - from) + t);
    VH_CHECK(c, r->size() == at.size(), "incremental_size", "level %d: %zu", i, r->size());
    for (size_t j = 0; j < at.size(); j += 1 + c.rng.below(5)) {
      auto want = ref.Eval(parsed, i, at[j]);
      VH_CHECK(c, want && (*r)[j] == *want, "incremental_differs", "level %d x=%s", i, Str(at[j]).c_str());
      c.Count("incremental_shares");
    }
    from = lv[i].ld;
    pre.clear();
    for (auto& p : at)
      if (pre.size() < 4 && (c.rng.chance(1, 3) || at.size() < 3)) pre.push_back(p);
    if (pre.empty()) pre.push_back(at[0]);
    ctx->DiscardUnknownFields();
    std::string cb = ctx->SerializeAsString();
    VH_CHECK(c, cb == EncodeContext(*ctx), "context_wire_format", "%s", Hex(cb, 200).c_str());
    EvaluationContext other;
    VH_CHECK(c, other.ParseFromString(EncodeContext(*ctx, &c.rng)), "parse", "an encoded context does not parse");
    *ctx = other;
  }
  c.Count("arbitrary_keys");
}

// Parameters are written and read as documented.
VH_GROUP(parameters, 4500, 30000) {
  std::vector<RefLevel> lv(1);
  lv[0].t = RandomType(c.rng, 3);
  lv[0].ld = static_cast<int>(c.rng.below(129));
  lv[0].sec = c.rng.chance(1, 2) ? 0 : 0.25 * static_cast<double>(c.rng.below(400));
  auto p = ParamProtos(lv)[0];
  c.Desc("%s", LevelsName(lv).c_str());
  VH_CHECK(c, p.SerializeAsString() == EncodeParameters(p), "wire_format", "%s", p.ShortDebugString().c_str());
  DpfParameters q;
  VH_CHECK(c, q.ParseFromString(EncodeParameters(p, &c.rng)), "parse", "encoded parameters do not parse");
  VH_CHECK(c, q.log_domain_size() == lv[0].ld && q.security_parameter() == lv[0].sec, "decoded_differently", "%s",
           q.ShortDebugString().c_str());
  VH_CHECK(c, EncodeValueType(q.value_type()) == EncodeValueType(TypeProto(lv[0].t)), "decoded_differently", "%s",
           q.ShortDebugString().c_str());
  if (const Ops* o = FindOps(lv[0].t)) {
    VH_CHECK(c, EncodeValueType(o->ToValueType()) == EncodeValueType(TypeProto(lv[0].t)), "type_description", "%s",
             o->ToValueType().ShortDebugString().c_str());
    c.Count("cpp_types");
  }
  // The C++ types, one by one.
  const Ops* o = AllOps()[c.index % AllOps().size()];
  VH_CHECK(c, EncodeValueType(o->ToValueType()) == EncodeValueType(TypeProto(o->t)), "type_description", "%s",
           o->ToValueType().ShortDebugString().c_str());
  RVal v = RandomVal(o->t, c.rng);
  Value lib = o->ToValue(v);
  auto back = FromProto(o->t, lib);
  VH_CHECK(c, back && *back == v, "value_description", "%s", lib.ShortDebugString().c_str());
  VH_CHECK(c, lib.SerializeAsString() == EncodeValue(lib), "wire_format", "%s", lib.ShortDebugString().c_str());
  Value w;
  VH_CHECK(c, w.ParseFromString(EncodeValue(AnyForm(c.rng, o->t, v), &c.rng)), "parse", "an encoded value does not parse");
  auto r = o->FromValue(w);
  VH_CHECK(c, r.ok() && *r == v, "value_decoded_differently", "%s", w.ShortDebugString().c_str());
}

// Comparison functions and interval gates use the same format.
VH_GROUP(comparison_keys, 2250, 30000) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int max = MaxDcfDomain(o->t);
  int ld = 1 + static_cast<int>(c.rng.below(c.rng.chance(1, 2) ? std::min(max, 16) : max));
  u128 alpha = c.rng.edgy(ld);
  RVal beta = RandomVal(o->t, c.rng);
  c.Desc("%s/%d alpha=%s beta=%s", o->t.Name().c_str(), ld, Str(alpha).c_str(), Str(beta).c_str());
  auto lv = DcfLevels(o->t, ld);
  RefDpf ref(lv);
  std::vector<RVal> betas;
  for (int i = 0; i < ld; ++i) betas.push_back(((alpha >> (ld - 1 - i)) & 1) != 0 ? beta : Zero(o->t));
  auto d = DistributedComparisonFunction::Create(DcfParams(o->t, ld));
  VH_CHECK(c, d.ok(), "create_refused", "%s", S(d.status()).c_str());
  auto keys = o->Gen(**d, alpha, beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  auto want = ref.Gen(SeedOf(keys->first.key()), SeedOf(keys->second.key()), alpha >> 1, betas);
  std::string diff = KeyDiff(keys->first.key(), want.first) + KeyDiff(keys->second.key(), want.second);
  VH_CHECK(c, diff.empty(), "key_differs", "%s", diff.c_str());
  auto foreign = ref.Gen(c.rng.edgy(128), c.rng.edgy(128), alpha >> 1, betas);
  for (int i = 0; i < 4; ++i) {
    const DpfKey& k = i == 0 ? keys->first.key() : i == 1 ? keys->second.key() : i == 2 ? foreign.first : foreign.second;
    DcfKey dk;
    Wire w;
    w.Bytes(1, EncodeKey(k, &c.rng));
    VH_CHECK(c, dk.ParseFromString(w.Take()), "parse", "an encoded key does not parse");
    for (int j = 0; j < 3; ++j) {
      u128 x = c.rng.chance(1, 2) ? c.rng.edgy(ld) : (alpha ^ Shl(1, static_cast<int>(c.rng.below(ld))));
      auto got = o->Eval(**d, dk, x);
      auto r = RefDcfEval(ref, dk, x);
      VH_CHECK(c, got.ok() && r && *got == *r, "comparison_share_differs", "x=%s: %s", Str(x).c_str(), S(got.status()).c_str());
      c.Count("comparison_shares");
    }
  }
}

VH_GROUP(interval_keys, 2250, 30000) {
  using dpflib::fss_gates::MicKey;
  using dpflib::fss_gates::MicParameters;
  int n = 1 + static_cast<int>(c.rng.below(c.rng.chance(1, 2) ? 12 : 127)), m = 1 + static_cast<int>(c.rng.below(4));
  u128 mask = (u128{1} << n) - 1;
  std::vector<std::pair<u128, u128>> iv;
  Wire pw;
  pw.Varint(1, static_cast<uint64_t>(n));
  for (int i = 0; i < m; ++i) {
    u128 p = c.rng.edgy(n), q = c.rng.edgy(n);
    if (p > q) std::swap(p, q);
    iv.push_back({p, q});
    Wire w, lo, hi;
    lo.Bytes(2, EncodeBlock(absl::Uint128High64(p), absl::Uint128Low64(p), &c.rng));
    hi.Bytes(2, EncodeBlock(absl::Uint128High64(q), absl::Uint128Low64(q), &c.rng));
    w.Bytes(1, lo.Take());
    w.Bytes(2, hi.Take());
    pw.Bytes(2, w.Take());
  }
  MicParameters params;
  VH_CHECK(c, params.ParseFromString(pw.Take()), "parse", "encoded parameters do not parse");
  auto g = dpflib::fss_gates::MultipleIntervalContainmentGate::Create(params);
  VH_CHECK(c, g.ok(), "create_refused", "%s", S(g.status()).c_str());
  // A key made outside: any comparison key, any mask shares.
  RT t = RT::Int(128);
  RefDpf ref(DcfLevels(t, n));
  std::vector<RVal> betas(n);
  u128 gamma = c.rng.edgy(n);
  for (int i = 0; i < n; ++i) betas[i].v = (gamma >> (n - 1 - i)) & 1;
  auto k = ref.Gen(c.rng.wide(), c.rng.wide(), gamma >> 1, betas);
  int party = static_cast<int>(c.rng.below(2));
  Wire kw, dw;
  dw.Bytes(1, EncodeKey(party ? k.second : k.first, &c.rng));
  kw.Bytes(1, dw.Take());
  std::vector<u128> z;
  for (int i = 0; i < m; ++i) {
    z.push_back(c.rng.edgy(n));
    dpflib::Value::Integer v;
    SetInteger(&v, z.back(), c.rng.chance(1, 2));
    kw.Bytes(2, EncodeInteger(v, &c.rng));
  }
  MicKey key;
  VH_CHECK(c, key.ParseFromString(kw.Take()), "parse", "an encoded key does not parse");
  u128 x = c.rng.edgy(n);
  c.Desc("n=%d m=%d gamma=%s x=%s", n, m, Str(gamma).c_str(), Str(x).c_str());
  auto got = (*g)->Eval(key, x);
  VH_CHECK(c, got.ok() && got->size() == static_cast<size_t>(m), "refused", "%s", S(got.status()).c_str());
  for (int i = 0; i < m; ++i) {
    u128 p = iv[i].first, q1 = (iv[i].second + 1) & mask;
    auto sp = RefDcfEval(ref, key.dcfkey(), (x - 1 - p) & mask), sq = RefDcfEval(ref, key.dcfkey(), (x - 1 - q1) & mask);
    u128 want = (z[i] - sp->v + sq->v + (party ? u128{x > p ? 1u : 0u} - u128{x > q1 ? 1u : 0u} : u128{0})) & mask;
    VH_CHECK(c, ((*got)[i] & mask) == want, "interval_share_differs", "[%s,%s] x=%s party %d: %s instead of %s", Str(p).c_str(),
             Str(iv[i].second).c_str(), Str(x).c_str(), party, Str((*got)[i]).c_str(), Str(want).c_str());
    c.Count("interval_shares");
  }
}

}  // namespace
}  // namespace vh
