// Objects of the library with calls on them, as text results: what one thread,
// many threads, or a thread with failing resources does with them. Include only
// from harnesses that need ops, dcfops, dcf and pir.
#ifndef VERIF_HARNESS_COMMON_OPMIX_H_
#define VERIF_HARNESS_COMMON_OPMIX_H_

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/refaes.h"
#include "common/targets.h"
#include "common/vh.h"
#include "common/wire.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcfops/dcfops.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "ops/ops.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"

namespace vh {
namespace {

using dpflib::fss_gates::MultipleIntervalContainmentGate;

// One call on a shared object: returns everything it produced, as text.
struct Op {
  std::string what;
  std::function<std::string()> run;
};
// Shared objects with calls on them. Made twice from one seed, the calls of
// both have the same results.
struct Shared {
  std::vector<Op> ops;
  std::vector<std::shared_ptr<void>> keep;
  bool failed = false;
  template <typename T>
  T* Keep(T x) {
    auto p = std::make_shared<T>(std::move(x));
    keep.push_back(p);
    return p.get();
  }
  void Add(std::string what, std::function<std::string()> run) { ops.push_back({std::move(what), std::move(run)}); }
};
using Maker = std::function<Shared(uint64_t seed)>;

std::string Show(const RVal& v) { return Str(v); }
template <typename T>
std::string Show(const absl::StatusOr<std::vector<T>>& r) {
  if (!r.ok()) return S(r.status());
  std::string s = std::to_string(r->size());
  for (auto& x : *r) s += "," + Str(x);
  return s;
}
template <typename A, typename B>
std::string Show(const absl::StatusOr<std::pair<A, B>>& r) {
  return r.ok() ? r->first.SerializeAsString() + "|" + r->second.SerializeAsString() : S(r.status());
}
template <typename M>
std::string ShowMsg(const absl::StatusOr<M>& r) { return r.ok() ? r->SerializeAsString() : S(r.status()); }

inline Maker MakeDpfOps(Case& c) {
  bool thorough = c.thorough;
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    GenOptions go;
    go.max_levels = 4;
    auto* lv = s.Keep(RandomLevels(r, go));
    auto made = DistributedPointFunction::CreateIncremental(ParamProtos(*lv));
    if (!made.ok()) { s.failed = true; return s; }
    DistributedPointFunction* d = s.Keep(*std::move(made))->get();
    for (auto& l : *lv) s.failed |= !FindOps(l.t)->Register(*d).ok();
    auto* beta = s.Keep(RandomBetas(r, *lv));
    u128 alpha = r.edgy(lv->back().ld);
    auto* vals = s.Keep(std::vector<Value>());
    for (size_t i = 0; i < lv->size(); ++i) vals->push_back(ValProto((*lv)[i].t, (*beta)[i]));
    rand::Reset(seed);
    auto k0 = d->GenerateKeysIncremental(alpha, absl::MakeConstSpan(*vals));
    if (!k0.ok()) { s.failed = true; return s; }
    auto* keys = s.Keep(*std::move(k0));
    s.Add("dpf.generate_keys", [=] { return Show(d->GenerateKeysIncremental(alpha, absl::MakeConstSpan(*vals))); });
    u128 other = r.edgy(lv->back().ld);
    if (lv->size() == 1) {
      s.Add("dpf.generate_keys_typed", [=] { return Show(FindOps((*lv)[0].t)->Gen(*d, other, (*beta)[0])); });
    } else {
      s.Add("dpf.to_value", [=] { return ShowMsg(FindOps((*lv)[0].t)->ToValueWith(*d, (*beta)[0])); });
    }
    for (int j = 0; j < 4; ++j) {
      int level = static_cast<int>(r.below(lv->size()));
      const Ops* o = FindOps((*lv)[level].t);
      const DpfKey* key = r.chance(1, 2) ? &keys->first : &keys->second;
      int np = r.chance(1, 4) ? 100 + static_cast<int>(r.below(thorough ? 600 : 200)) : 1 + static_cast<int>(r.below(30));
      auto* x = s.Keep(RandomPoints(r, *lv, level, alpha, np));
      if (r.chance(1, 10)) x->push_back(Shl(1, (*lv)[level].ld));  // may be out of range
      s.Add("dpf.evaluate_at", [=] { return Show(o->EvalAt(*d, *key, level, *x)); });
    }
    // Chains of calls on one context each.
    for (int j = 0; j < 2; ++j) {
      const DpfKey* key = r.chance(1, 2) ? &keys->first : &keys->second;
      auto* prefixes = s.Keep(std::vector<std::vector<absl::uint128>>());
      auto* how = s.Keep(std::vector<int>());
      for (size_t l = 0; l < lv->size(); ++l) {
        prefixes->push_back(l == 0 ? std::vector<absl::uint128>{} : RandomPoints(r, *lv, static_cast<int>(l) - 1, alpha, 1 + static_cast<int>(r.below(4))));
        how->push_back(static_cast<int>(r.below(2)));
      }
      s.Add("dpf.context", [=] {
        auto ctx = d->CreateEvaluationContext(*key);
        if (!ctx.ok()) return S(ctx.status());
        std::string out;
        int prev = 0;
        for (size_t l = 0; l < lv->size(); ++l) {
          if ((*lv)[l].ld - prev > 10) break;
          prev = (*lv)[l].ld;
          const Ops* o = FindOps((*lv)[l].t);
          out += Show((*how)[l] ? o->EvalNext(*d, (*prefixes)[l], *ctx) : o->EvalUntil(*d, static_cast<int>(l), (*prefixes)[l], *ctx)) + ";";
        }
        return out + ctx->SerializeAsString();
      });
    }
    {
      const Ops* o = FindOps(lv->back().t);
      auto* points = s.Keep(RandomPoints(r, *lv, static_cast<int>(lv->size()) - 1, alpha, 3 + static_cast<int>(r.below(20))));
      auto* many = s.Keep(std::vector<DpfKey>());
      for (size_t i = 0; i < points->size(); ++i) many->push_back(r.chance(1, 2) ? keys->first : keys->second);
      bool uniform = true;
      for (auto& l : *lv) uniform &= l.t == lv->back().t;
      if (uniform)
        s.Add("dpf.evaluate_and_apply", [=] {
          std::string out;
          absl::Status st = o->Apply(*d, absl::MakeConstSpan(*many), *points, [&](std::vector<RVal> v) {
            for (auto& e : v) out += Str(e) + ",";
            return true;
          }, 0);
          return out + S(st);
        });
      s.Add("dpf.evaluate_at_context", [=] {
        auto ctx = d->CreateEvaluationContext(keys->first);
        if (!ctx.ok()) return S(ctx.status());
        return Show(o->EvalAt(*d, static_cast<int>(lv->size()) - 1, *points, *ctx)) + ctx->SerializeAsString();
      });
    }
    return s;
  };
}

inline Maker MakeDcfOps(Case& c) {
  const DcfOps* o = c.rng.pick(AllDcfOps());
  int ld = 1 + static_cast<int>(c.rng.below(static_cast<uint64_t>(MaxDcfDomain(o->t))));
  c.Desc("%s n=%d", o->t.Name().c_str(), ld);
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    auto made = DistributedComparisonFunction::Create(DcfParams(o->t, ld));
    if (!made.ok()) { s.failed = true; return s; }
    DistributedComparisonFunction* d = s.Keep(*std::move(made))->get();
    auto* keys = s.Keep(std::vector<DcfKey>());
    auto* points = s.Keep(std::vector<absl::uint128>());
    size_t n = 1 + r.below(6);
    u128 alpha = r.edgy(ld);
    auto* beta = s.Keep(RandomVal(o->t, r));
    for (size_t i = 0; i < n; ++i) {
      rand::Reset(seed + i);
      auto k = o->Gen(*d, alpha, *beta);
      if (!k.ok()) { s.failed = true; return s; }
      keys->push_back(r.chance(1, 2) ? k->first : k->second);
      points->push_back(r.chance(1, 3) ? alpha : r.edgy(ld));
    }
    s.Add("dcf.generate_keys", [=] { return Show(o->Gen(*d, alpha, *beta)); });
    for (int j = 0; j < 2; ++j) {
      size_t i = r.below(n);
      s.Add("dcf.evaluate", [=] {
        auto v = o->Eval(*d, (*keys)[i], (*points)[i]);
        return v.ok() ? Str(*v) : S(v.status());
      });
    }
    s.Add("dcf.batch_evaluate", [=] { return Show(o->Batch(*d, *keys, *points)); });
    return s;
  };
}

inline Maker MakeIntervalOps(Case& c) {
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    int n = 1 + static_cast<int>(r.below(r.chance(1, 4) ? 127 : 12));
    dpflib::fss_gates::MicParameters p;
    p.set_log_group_size(n);
    int m = 1 + static_cast<int>(r.below(3));
    for (int i = 0; i < m; ++i) {
      u128 a = r.edgy(n), b = r.edgy(n);
      if (a > b) std::swap(a, b);
      auto* iv = p.add_intervals();
      iv->mutable_lower_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(a));
      iv->mutable_lower_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(a));
      iv->mutable_upper_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(b));
      iv->mutable_upper_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(b));
    }
    auto made = MultipleIntervalContainmentGate::Create(p);
    if (!made.ok()) { s.failed = true; return s; }
    MultipleIntervalContainmentGate* g = s.Keep(*std::move(made))->get();
    u128 r_in = r.edgy(n);
    std::vector<absl::uint128> r_out;
    for (int i = 0; i < m; ++i) r_out.push_back(r.edgy(n));
    // Keys come from another gate, so the first calls on the shared one are
    // concurrent.
    auto maker = MultipleIntervalContainmentGate::Create(p);
    rand::Reset(seed);
    auto k = (*maker)->Gen(r_in, r_out);
    if (!k.ok()) { s.failed = true; return s; }
    auto* keys = s.Keep(std::vector<dpflib::fss_gates::MicKey>{k->first, k->second, k->first});
    auto* x = s.Keep(std::vector<absl::uint128>{r.edgy(n), r.edgy(n), r.edgy(n)});
    s.Add("mic.gen", [=] { return Show(g->Gen(r_in, r_out)); });
    s.Add("mic.eval", [=] { return Show(g->Eval((*keys)[0], (*x)[0])); });
    s.Add("mic.eval", [=] { return Show(g->Eval((*keys)[1], (*x)[0])); });
    s.Add("mic.batch_eval", [=] { return Show(g->BatchEval(*keys, *x)); });
    return s;
  };
}

inline Maker MakeHashOps(Case& c) {
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    auto made = dpflib::Aes128FixedKeyHash::Create(r.wide());
    if (!made.ok()) { s.failed = true; return s; }
    auto* h = s.Keep(*std::move(made));
    for (int j = 0; j < 3; ++j) {
      auto* in = s.Keep(std::vector<absl::uint128>());
      size_t n = r.chance(1, 2) ? r.below(10) : r.below(300);
      for (size_t i = 0; i < n; ++i) in->push_back(r.wide());
      s.Add("hash.fixed_key", [=] {
        std::vector<absl::uint128> out(in->size() + 1, 7);
        absl::Status st = h->Evaluate(*in, absl::MakeSpan(out).subspan(0, in->size()));
        return S(st) + Show(absl::StatusOr<std::vector<absl::uint128>>(out)) + Str(h->key());
      });
    }
    std::string hseed = r.bytes(r.below(40));
    auto* f = s.Keep(dp::HashFunction(dp::SHA256HashFunction(hseed)));
    auto* farm = s.Keep(dp::HashFunction(dp::FarmHashFunction(hseed)));
    auto* family = s.Keep(dp::HashFamily(dp::WrapWithSeed(dp::SHA256HashFamily{}, hseed)));
    dp::HashFamilyConfig config = RandomHashFamily(r);
    auto* functions = s.Keep(FunctionsOf(config, 1 + static_cast<int>(r.below(5))));
    for (int j = 0; j < 3; ++j) {
      std::string x = r.bytes(r.chance(1, 5) ? r.below(3000) : r.below(60));
      int bound = 1 + static_cast<int>(r.below(r.chance(1, 2) ? 50 : 0x7fffffff));
      s.Add("hash.sha256", [=] { return std::to_string((*f)(x, bound)); });
      s.Add("hash.farm", [=] { return std::to_string((*farm)(x, bound)); });
      s.Add("hash.family", [=] { return std::to_string((*family)(x)(x, bound)); });
      s.Add("hash.functions", [=] {
        std::string out;
        for (auto& g : *functions) out += std::to_string(g(x, bound)) + ",";
        return out;
      });
      s.Add("hash.from_config", [=] {
        auto fam = dp::CreateHashFamilyFromConfig(config);
        auto fs = dp::CreateHashFunctions(*std::move(fam), 2);
        return std::to_string((*fs)[0](x, bound)) + "," + std::to_string((*fs)[1](x, bound));
      });
    }
    std::string pseed = r.bytes(16);
    s.Add("prng.own", [=] {
      auto p = dp::Aes128CtrSeededPrng::Create(pseed);
      if (!p.ok()) return S(p.status());
      return (*p)->GetRandomBytes(33) + (*p)->GetRandomBytes(5);
    });
    s.Add("prng.seed", [=] {
      auto p = dp::Aes128CtrSeededPrng::GenerateSeed();
      return p.ok() ? *p : S(p.status());
    });
    return s;
  };
}

// Encryption without any state: the ciphertext tells everything.
absl::StatusOr<std::string> Seal(absl::string_view plain, absl::string_view context) {
  return absl::StrCat(context.size(), ":", context, plain);
}
absl::StatusOr<std::string> Open(absl::string_view cipher, absl::string_view context) {
  std::string prefix = absl::StrCat(context.size(), ":", context);
  if (cipher.substr(0, prefix.size()) != prefix) return absl::PermissionDeniedError("cannot decrypt");
  return std::string(cipher.substr(prefix.size()));
}

template <typename D>
std::string ShowDb(const absl::StatusOr<D>& r) {
  if (!r.ok()) return S(r.status());
  std::string out;
  for (auto& x : *r) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) out += x + "/";
    else out += absl::StrCat(std::get<0>(x), "=", std::get<1>(x), "/");
  }
  return out;
}

template <typename I>
void AddDb(Rng& r, Shared& s, absl::StatusOr<std::unique_ptr<I>> made, const char* what) {
  if (!made.ok()) { s.failed = true; return; }
  I* db = s.Keep(*std::move(made))->get();
  for (int j = 0; j < 4; ++j) {
    size_t blocks = (db->num_selection_bits() + 127) / 128 + (r.chance(1, 5) ? 1 : 0);
    auto* sel = s.Keep(std::vector<std::vector<typename I::BlockType>>(r.chance(1, 8) ? 0 : 1 + r.below(5)));
    for (auto& v : *sel)
      for (size_t b = 0; b < blocks; ++b) v.push_back(typename I::BlockType(r.chance(1, 3) ? absl::uint128{1} << r.below(128) : r.wide()));
    s.Add(what, [=] { return ShowDb(db->InnerProductWith(*sel)) + absl::StrCat(db->size(), ",", db->num_selection_bits()); });
  }
}

inline Maker MakeDatabaseOps(Case& c) {
  PirKind kind = static_cast<PirKind>(c.index % 3);
  c.Desc("%s", KindName(kind));
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    World w = AnyWorld(r, kind, r.chance(1, 3) ? 400 : 40);
    if (kind == DENSE) AddDb(r, s, DenseDb(w), "db.dense");
    else if (kind == CUCKOO) AddDb(r, s, CuckooDb(w), "db.cuckoo");
    else AddDb(r, s, SimpleDb(w), "db.simple");
    return s;
  };
}

// Bends a request so that it may be refused.
void BendPlain(Rng& r, dp::DpfPirRequest::PlainRequest* p, int way = -1) {
  switch (way >= 0 ? way : static_cast<int>(r.below(8))) {
    case 0: p->set_seed_fingerprint(static_cast<uint32_t>(r.u64())); break;
    case 1: p->set_seed_fingerprint(p->seed_fingerprint() ^ (1u << r.below(32))); break;
    case 2: p->clear_seed_fingerprint(); break;
    case 3: p->clear_dpf_key(); break;
    case 4: p->add_dpf_key(); break;
    default: {
      if (p->dpf_key_size() == 0) break;
      auto* k = p->mutable_dpf_key(static_cast<int>(r.below(static_cast<uint64_t>(p->dpf_key_size()))));
      switch (r.below(5)) {
        case 0: k->clear_seed(); break;
        case 1: k->set_party(static_cast<int>(r.below(5)) - 1); break;
        case 2: if (k->correction_words_size() > 0) k->mutable_correction_words()->RemoveLast(); else k->add_correction_words(); break;
        case 3: k->add_correction_words(); break;
        default: k->clear_last_level_value_correction(); break;
      }
    }
  }
}

// `way` picks one of 12 ways; -1 is any.
dp::PirRequest Bent(Rng& r, dp::PirRequest q, int way = -1) {
  auto* d = q.mutable_dpf_pir_request();
  int what = way < 0 ? static_cast<int>(r.below(8)) : way < 6 ? 2 : way == 6 ? 0 : way == 7 ? 1 : way < 10 ? 5 : 6;
  switch (what) {
    case 0: q.Clear(); break;
    case 1: d->Clear(); break;
    case 2: case 3: case 4:
      if (d->has_plain_request()) BendPlain(r, d->mutable_plain_request(), way);
      else if (d->has_leader_request()) BendPlain(r, d->mutable_leader_request()->mutable_plain_request(), way);
      break;
    case 5:
      if (d->has_leader_request()) d->mutable_leader_request()->clear_encrypted_helper_request();
      break;
    case 6: {
      if (way < 0 && r.chance(1, 2)) way = 11;
      auto* e = d->has_leader_request() ? d->mutable_leader_request()->mutable_encrypted_helper_request()
                                        : d->has_encrypted_helper_request() ? d->mutable_encrypted_helper_request() : nullptr;
      if (e && way == 11) {
        // What the helper finds inside is bent.
        const std::string x = e->encrypted_request();
        size_t colon = x.find(':');
        if (colon == std::string::npos) break;
        size_t prefix = colon + 1 + std::stoul(x);
        dp::DpfPirRequest::HelperRequest h;
        if (prefix > x.size() || !h.ParseFromString(x.substr(prefix))) break;
        if (r.chance(1, 4)) h.clear_one_time_pad_seed();
        else BendPlain(r, h.mutable_plain_request());
        e->set_encrypted_request(x.substr(0, prefix) + h.SerializeAsString());
      } else if (e && !e->encrypted_request().empty()) {
        std::string* x = e->mutable_encrypted_request();
        if (r.chance(1, 2)) x->resize(r.below(x->size()));
        else (*x)[r.below(x->size())] ^= static_cast<char>(1 + r.below(255));
      }
      break;
    }
    default: break;
  }
  return q;
}

absl::StatusOr<Client> Clients(const World& w) {
  Client c;
  absl::Status st;
  if (w.kind == DENSE) {
    auto x = dp::DenseDpfPirClient::Create(w.config, &Seal);
    if (x.ok()) c.dense = *std::move(x); else st = x.status();
  } else if (w.kind == CUCKOO) {
    auto x = dp::CuckooHashingSparseDpfPirClient::Create(w.params, &Seal);
    if (x.ok()) c.cuckoo = *std::move(x); else st = x.status();
  } else {
    auto x = dp::SimpleHashingSparseDpfPirClient::Create(w.params, &Seal);
    if (x.ok()) c.simple = *std::move(x); else st = x.status();
  }
  if (!st.ok()) return st;
  return c;
}

inline Maker MakePirOps(Case& c) {
  PirKind kind = static_cast<PirKind>(c.index % 3);
  int side = static_cast<int>(c.index / 3 % 3);  // servers, clients, or both
  c.Desc("%s side=%d", KindName(kind), side);
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    World* w = s.Keep(AnyWorld(r, kind, r.chance(1, 4) ? 300 : 30));
    auto made = Clients(*w);
    if (!made.ok()) { s.failed = true; return s; }
    const Client* cl = s.Keep(*std::move(made));
    auto maker = Clients(*w);  // makes the requests, so the shared client is fresh
    auto plain = MakeServer(*w, PirRole::PLAIN), helper = MakeServer(*w, PirRole::HELPER, nullptr, &Open);
    if (!plain.ok() || !helper.ok()) { s.failed = true; return s; }
    const dp::PirServer* ps = s.Keep(*std::move(plain))->get();
    const dp::PirServer* hs = s.Keep(*std::move(helper))->get();
    auto leader = MakeServer(*w, PirRole::LEADER, [hs](const dp::PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<dp::PirResponse> {
      auto a = hs->HandleRequest(q);
      wait();
      return a;
    });
    if (!leader.ok()) { s.failed = true; return s; }
    const dp::PirServer* ls = s.Keep(*std::move(leader))->get();
    int queries = 1 + static_cast<int>(r.below(3));
    for (int j = 0; j < queries; ++j) {
      Query* q = s.Keep(AnyQuery(r, *w, 4));
      rand::Reset(seed + static_cast<uint64_t>(j));
      auto req = maker->CreateRequest(*q);
      auto plains = maker->CreatePlainRequests(*q);
      if (!req.ok() || !plains.ok()) { s.failed = true; return s; }
      auto* lr = s.Keep(req->first);
      auto* state = s.Keep(req->second);
      auto answered = ls->HandleRequest(*lr);
      if (side != 1) {
        auto* p0 = s.Keep(Wrap(std::get<0>(*plains)));
        auto* p1 = s.Keep(Wrap(std::get<1>(*plains).plain_request()));
        dp::PirRequest enc;
        *enc.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = lr->dpf_pir_request().leader_request().encrypted_helper_request();
        auto* hr = s.Keep(enc);
        auto* bent = s.Keep(Bent(r, *lr));
        auto* bentp = s.Keep(Bent(r, *p0));
        s.Add("server.plain", [=] { return ShowMsg(ps->HandleRequest(*p0)); });
        s.Add("server.plain", [=] { return ShowMsg(ps->HandleRequest(*p1)); });
        s.Add("server.plain_bent", [=] { return ShowMsg(ps->HandleRequest(*bentp)); });
        auto* benth = s.Keep(Bent(r, *hr));
        s.Add("server.helper_bent", [=] { return ShowMsg(hs->HandleRequest(*benth)); });
        s.Add("server.helper", [=] { return ShowMsg(hs->HandleRequest(*hr)); });
        s.Add("server.leader", [=] { return ShowMsg(ls->HandleRequest(*lr)); });
        s.Add("server.leader_bent", [=] { return ShowMsg(ls->HandleRequest(*bent)); });
        s.Add("server.public_params", [=] { return ls->GetPublicParams().SerializeAsString() + ps->GetPublicParams().SerializeAsString(); });
      }
      if (side != 0) {
        s.Add("client.create_request", [=] { return Show(cl->CreateRequest(*q)); });
        s.Add("client.create_plain_requests", [=] {
          auto x = cl->CreatePlainRequests(*q);
          return x.ok() ? std::get<0>(*x).SerializeAsString() + std::get<1>(*x).SerializeAsString() + std::get<2>(*x).SerializeAsString() : S(x.status());
        });
        auto* resp = s.Keep(answered.ok() ? *answered : dp::PirResponse());
        s.Add("client.handle_response", [=] {
          auto a = cl->HandleResponse(*resp, *state);
          if (!a.ok()) return S(a.status());
          std::string out;
          for (auto& e : *a) out += e ? "+" + *e + "/" : std::string("-/");
          return out;
        });
        if (r.chance(1, 3)) s.Add("client.handle_nonsense", [=] { return S(cl->HandleResponse(dp::PirResponse(), *state).status()); });
      }
    }
    if (r.chance(1, 3))
      s.Add("pir.construct", [=] {
        auto mine = Clients(*w);
        auto server = MakeServer(*w, PirRole::PLAIN);
        if (!mine.ok() || !server.ok()) return S(mine.status()) + S(server.status());
        Rng q(5);
        auto x = mine->CreatePlainRequests(AnyQuery(q, *w, 2));
        return x.ok() ? ShowMsg((*server)->HandleRequest(Wrap(std::get<0>(*x)))) : S(x.status());
      });
    return s;
  };
}

// Shared keys and messages are only read; distinct objects do not meet.
inline Maker MakeConstructionOps(Case& c) {
  return [=](uint64_t seed) {
    Rng r(seed);
    Shared s;
    for (int j = 0; j < 4; ++j) {
      uint64_t own = r.u64();
      s.Add("construct.dpf", [=] {
        Rng q(own);
        GenOptions go;
        go.max_levels = 3;
        auto lv = RandomLevels(q, go);
        auto d = DistributedPointFunction::CreateIncremental(ParamProtos(lv));
        if (!d.ok()) return S(d.status());
        auto beta = RandomBetas(q, lv);
        std::vector<Value> vals;
        for (size_t i = 0; i < lv.size(); ++i) {
          auto v = FindOps(lv[i].t)->ToValueWith(**d, beta[i]);
          if (!v.ok()) return S(v.status());
          vals.push_back(*v);
        }
        u128 alpha = q.edgy(lv.back().ld);
        auto k = (*d)->GenerateKeysIncremental(alpha, absl::MakeConstSpan(vals));
        if (!k.ok()) return S(k.status());
        return Show(k) + Show(FindOps(lv.back().t)->EvalAt(**d, k->first, static_cast<int>(lv.size()) - 1, {alpha}));
      });
      const DcfOps* o = r.pick(AllDcfOps());
      int ld = 1 + static_cast<int>(r.below(static_cast<uint64_t>(std::min(20, MaxDcfDomain(o->t)))));
      s.Add("construct.dcf", [=] {
        Rng q(own);
        auto d = DistributedComparisonFunction::Create(DcfParams(o->t, ld));
        if (!d.ok()) return S(d.status());
        u128 alpha = q.edgy(ld);
        auto k = o->Gen(**d, alpha, RandomVal(o->t, q));
        if (!k.ok()) return S(k.status());
        auto v = o->Eval(**d, k->second, q.edgy(ld));
        return Show(k) + (v.ok() ? Str(*v) : S(v.status()));
      });
    }
    return s;
  };
}

}  // namespace
}  // namespace vh

#endif
