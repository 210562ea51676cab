// needs: pir
// C20: PIR endpoints survive any message and refuse what does not fit.
#include <map>
#include <set>

#include "common/fuzzmsg.h"
#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/vh.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

PirKind KindOf(Case& c) { return static_cast<PirKind>(c.index % 3); }

// A message damaged in one of several ways.
template <typename M>
M Damaged(Rng& r, const M& good) {
  M m = good;
  switch (r.below(6)) {
    case 0: {
      std::string s = good.SerializeAsString();
      size_t n = 1 + r.below(4);
      for (size_t i = 0; i < n && !s.empty(); ++i) {
        switch (r.below(4)) {
          case 0: s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8)); break;
          case 1: s.resize(r.below(s.size())); break;
          case 2: s.insert(r.below(s.size()), r.bytes(1 + r.below(4))); break;
          default: s[r.below(s.size())] = static_cast<char>(r.below(256));
        }
      }
      m.Clear();
      (void)m.ParsePartialFromString(s);
      return m;
    }
    case 1: m.Clear(); RandomMessage(r, &m, static_cast<int>(1 + r.below(7))); return m;
    default: MutateMessage(r, &m, static_cast<int>(1 + r.below(5))); return m;
  }
}

std::string Outcome(const absl::StatusOr<PirResponse>& x) { return x.ok() ? x->SerializeAsString() : S(x.status()); }

struct Servers {
  absl::StatusOr<Pair> pair;
  absl::StatusOr<std::unique_ptr<PirServer>> plain;
};

// Number of answers per key, and widths.
bool ShapeFits(const World& w, int keys, const PirResponse& x, const PirResponse& good) {
  int per = w.kind == CUCKOO ? 2 : 1;
  const auto& mr = x.dpf_pir_response();
  if (mr.masked_response_size() != keys * per) return false;
  for (int i = 0; i < mr.masked_response_size(); ++i)
    if (mr.masked_response(i).size() != good.dpf_pir_response().masked_response(i % per).size()) return false;
  return true;
}

VH_GROUP(requests, 6000, 90000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 40);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto pair = MakePair(w, &h);
  auto plain = MakeServer(w, PirRole::PLAIN), twin = MakeServer(w, PirRole::PLAIN);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, pair.ok() && plain.ok() && twin.ok() && cl.ok(), "setup_refused", "%s", S(pair.status()).c_str());
  auto req = cl->CreateRequest(AnyQuery(r, w, 3));
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  const PirRequest to_leader = req->first;
  PirRequest to_helper, to_plain;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = to_leader.dpf_pir_request().leader_request().encrypted_helper_request();
  *to_plain.mutable_dpf_pir_request()->mutable_plain_request() = to_leader.dpf_pir_request().leader_request().plain_request();
  DpfPirRequest::HelperRequest hr;
  if (!hr.ParseFromString(h.encrypts.back().plain)) return;
  auto l0 = pair->leader->HandleRequest(to_leader), h0 = pair->helper->HandleRequest(to_helper), p0 = (*plain)->HandleRequest(to_plain);
  VH_CHECK(c, l0.ok() && h0.ok() && p0.ok(), "good_request_refused", "%s", S(l0.status()).c_str());
  for (int k = 0; k < 12; ++k) {
    PirRequest a = Damaged(r, to_plain);
    auto got = (*plain)->HandleRequest(a);
    VH_CHECK(c, Outcome(got) == Outcome((*twin)->HandleRequest(a)), "answers_differ", "%s", a.ShortDebugString().substr(0, 400).c_str());
    if (got.ok()) {
      VH_CHECK(c, ShapeFits(w, a.dpf_pir_request().plain_request().dpf_key_size(), *got, *p0), "response_shape", "%d",
               got->dpf_pir_response().masked_response_size());
      c.Count("answered");
    } else {
      c.Count("refused");
    }
    (void)(*plain)->HandleRequest(Damaged(r, to_leader));
    a = Damaged(r, to_leader);
    got = pair->leader->HandleRequest(a);
    c.Count(got.ok() ? "leader_answered" : "leader_refused");
    DpfPirRequest::HelperRequest inner = Damaged(r, hr);
    std::string text = inner.SerializePartialAsString();
    if (r.chance(1, 5)) text.resize(r.below(text.size() + 1));
    if (r.chance(1, 8)) text = r.bytes(r.below(100));
    PirRequest b = to_helper;
    b.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*h.Encrypt(text, w.Context()));
    got = pair->helper->HandleRequest(b);
    if (got.ok()) {
      DpfPirRequest::HelperRequest back;
      VH_CHECK(c, back.ParsePartialFromString(text), "unparsable_request_answered", "%s", Hex(text).c_str());
      VH_CHECK(c, ShapeFits(w, back.plain_request().dpf_key_size(), *got, *h0), "helper_response_shape", "%d", got->dpf_pir_response().masked_response_size());
      VH_CHECK(c, back.one_time_pad_seed().size() == 16, "bad_seed_accepted", "%zu", back.one_time_pad_seed().size());
    }
    c.Count(got.ok() ? "helper_answered" : "helper_refused");
    (void)pair->helper->HandleRequest(Damaged(r, to_helper));
    (void)pair->helper->HandleRequest(Damaged(r, to_leader));
  }
  // None of it left a trace.
  VH_CHECK(c, Outcome(pair->leader->HandleRequest(to_leader)) == Outcome(l0), "leader_changed", "%s", w.Context());
  VH_CHECK(c, Outcome(pair->helper->HandleRequest(to_helper)) == Outcome(h0), "helper_changed", "%s", w.Context());
  VH_CHECK(c, Outcome((*plain)->HandleRequest(to_plain)) == Outcome(p0), "server_changed", "%s", w.Context());
}

VH_GROUP(helper_answers, 3750, 60000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 40);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, h.Decrypter());
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, helper.ok() && plain.ok() && cl.ok(), "setup_refused", "%s", S(helper.status()).c_str());
  auto req = cl->CreateRequest(AnyQuery(r, w, 3));
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  PirRequest to_helper;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = req->first.dpf_pir_request().leader_request().encrypted_helper_request();
  auto good = (*helper)->HandleRequest(to_helper);
  auto own = (*plain)->HandleRequest(Wrap(req->first.dpf_pir_request().leader_request().plain_request()));
  VH_CHECK(c, good.ok() && own.ok(), "good_request_refused", "%s", S(good.status()).c_str());
  PirResponse answer;
  auto leader = MakeServer(w, PirRole::LEADER, [&](const PirRequest&, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
    wait();
    return answer;
  });
  VH_CHECK(c, leader.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  for (int k = 0; k < 16; ++k) {
    answer = Damaged(r, *good);
    auto got = (*leader)->HandleRequest(req->first);
    auto want = XorResponses(*own, answer);
    VH_CHECK(c, got.ok() == want.has_value(), "fit_check", "%s", answer.ShortDebugString().substr(0, 300).c_str());
    if (got.ok()) {
      auto& mr = got->dpf_pir_response().masked_response();
      VH_CHECK(c, std::vector<std::string>(mr.begin(), mr.end()) == *want, "combined_response", "%d", mr.size());
      auto a = cl->HandleResponse(*got, req->second);
      c.Count(a.ok() ? "decoded" : "not_decoded");
    } else {
      c.Count("mismatches_refused");
    }
  }
}

VH_GROUP(responses_and_states, 6000, 90000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 40);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto pair = MakePair(w, &h);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, pair.ok() && cl.ok(), "setup_refused", "%s", S(pair.status()).c_str());
  Query q = AnyQuery(r, w, 3);
  auto req = cl->CreateRequest(q);
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  auto good = pair->leader->HandleRequest(req->first);
  VH_CHECK(c, good.ok(), "good_request_refused", "%s", S(good.status()).c_str());
  auto first = cl->HandleResponse(*good, req->second);
  VH_CHECK(c, first.ok(), "good_response_refused", "%s", S(first.status()).c_str());
  auto examine = [&](const PirResponse& x, const PirRequestClientState& s) {
    auto a = cl->HandleResponse(x, s);
    c.Count(a.ok() ? "decoded" : "refused");
    int n = x.dpf_pir_response().masked_response_size(), want = n, per = 1;
    bool kind;
    std::string seed = StateSeed(s);
    if (w.kind == DENSE) {
      kind = s.has_dense_dpf_pir_request_client_state();
    } else if (w.kind == CUCKOO) {
      kind = s.has_cuckoo_hashing_sparse_dpf_pir_request_client_state();
      per = 6;
      want = s.cuckoo_hashing_sparse_dpf_pir_request_client_state().query_strings_size() * per;
    } else {
      kind = s.has_simple_hashing_sparse_dpf_pir_request_client_state();
      want = s.simple_hashing_sparse_dpf_pir_request_client_state().query_strings_size();
    }
    VH_CHECK(c, !a.ok() || kind, "foreign_state_accepted", "%s", s.ShortDebugString().substr(0, 300).c_str());
    VH_CHECK(c, !a.ok() || x.has_dpf_pir_response(), "kindless_response_accepted", "%d", n);
    VH_CHECK(c, !a.ok() || n == want, "wrong_count_accepted", "%d of %d", n, want);
    VH_CHECK(c, !a.ok() || seed.size() == 16, "bad_seed_accepted", "%zu", seed.size());
    VH_CHECK(c, !a.ok() || static_cast<int>(a->size()) * per == n, "number_of_answers", "%zu for %d", a->size(), n);
    VH_CHECK(c, a.ok() || w.kind == SIMPLE || !kind || n != want || n == 0 || seed.size() != 16, "fitting_response_refused", "%s", S(a.status()).c_str());
  };
  for (int k = 0; k < 16; ++k) {
    examine(Damaged(r, *good), req->second);
    examine(*good, Damaged(r, req->second));
    examine(Damaged(r, *good), Damaged(r, req->second));
    if (c.failed()) return;
  }
  if (w.kind == SIMPLE) {
    // Buckets of any shape, masked so that the client decodes them.
    for (int k = 0; k < 8; ++k) {
      PirResponse x;
      std::vector<std::string> plain;
      size_t total = 0;
      for (size_t i = 0; i < q.keys.size(); ++i) {
        HashedPirDatabaseBucket b;
        size_t nk = r.below(4), nv = r.chance(1, 2) ? nk : r.below(4);
        for (size_t j = 0; j < nk; ++j) b.add_keys(r.chance(1, 2) ? q.keys[i] : r.bytes(r.below(5)));
        for (size_t j = 0; j < nv; ++j) b.add_values(r.bytes(r.below(9)));
        std::string s = b.SerializeAsString();
        if (r.chance(1, 4) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r.below(256));
        if (r.chance(1, 4)) s.resize(r.below(s.size() + 1));
        if (r.chance(1, 3)) s += std::string(r.below(8), '\0');
        plain.push_back(s);
        total += s.size();
      }
      std::string pad = PadStream(StateSeed(req->second), total);
      size_t at = 0;
      for (auto& s : plain) {
        for (auto& ch : s) ch ^= pad[at++];
        x.mutable_dpf_pir_response()->add_masked_response(s);
      }
      auto a = cl->HandleResponse(x, req->second);
      c.Count(a.ok() ? "buckets_decoded" : "buckets_refused");
    }
  }
  auto again = cl->HandleResponse(*good, req->second);
  VH_CHECK(c, again.ok() && *again == *first, "client_changed", "%s", S(again.status()).c_str());
}

bool Affordable(int64_t buckets, int functions) { return buckets < 200000 && functions < 300; }

VH_GROUP(configurations, 6000, 90000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 20);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  for (int k = 0; k < 10; ++k) {
    World d = w;
    d.config = Damaged(r, w.config);
    d.params = Damaged(r, w.params);
    int64_t nb = 0;
    int nf = 1;
    bool family = true;
    if (w.kind == CUCKOO) {
      auto& p = d.params.cuckoo_hashing_sparse_dpf_pir_server_params();
      nb = p.num_buckets(), nf = p.num_hash_functions();
      family = p.hash_family_config().hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256 && !p.hash_family_config().seed().empty();
    } else if (w.kind == SIMPLE) {
      auto& p = d.params.simple_hashing_sparse_dpf_pir_server_params();
      nb = p.num_buckets();
      family = p.hash_family_config().hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256 && !p.hash_family_config().seed().empty();
    } else {
      nb = d.config.dense_dpf_pir_config().num_elements();
    }
    if (nf >= 300) continue;
    auto cl = MakeClient(d, &h);
    bool fits = nb > 0 && nf > 0 && family;
    VH_CHECK(c, fits || !cl.ok(), "client_accepts", "%s %s", d.config.ShortDebugString().c_str(), d.params.ShortDebugString().c_str());
    if (cl.ok()) {
      // Whatever was accepted can be queried.
      Query q;
      if (w.kind == DENSE) q.indices = {static_cast<int>(r.below(static_cast<uint64_t>(std::min<int64_t>(nb, std::numeric_limits<int>::max()))))};
      else q.keys = {r.bytes(r.below(20)), w.records[0].first};
      auto req = cl->CreateRequest(q);
      VH_CHECK(c, req.ok(), "request_refused", "%s: %s", d.params.ShortDebugString().c_str(), S(req.status()).c_str());
      PirResponse x;
      for (size_t i = 0; i < r.below(8); ++i) x.mutable_dpf_pir_response()->add_masked_response(r.bytes(r.below(40)));
      (void)cl->HandleResponse(x, req->second);
      c.Count("clients");
    } else {
      c.Count("clients_refused");
    }
    // Servers keep their database's size.
    if (Affordable(nb, nf)) {
      auto s = MakeServer(d, PirRole::PLAIN);
      VH_CHECK(c, fits || !s.ok(), "server_accepts", "%s %s", d.config.ShortDebugString().c_str(), d.params.ShortDebugString().c_str());
      c.Count(s.ok() ? "servers" : "servers_refused");
    }
    PirConfig gen;
    if (r.chance(1, 2)) {
      gen.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
      gen.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(r.chance(1, 2) ? static_cast<int64_t>(r.u64()) : static_cast<int64_t>(r.below(100)));
    } else {
      gen.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
      gen.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(r.chance(1, 2) ? static_cast<int64_t>(r.u64()) : static_cast<int64_t>(r.below(100)));
    }
    if (r.chance(1, 2)) gen = Damaged(r, gen);
    auto g = CuckooHashingSparseDpfPirServer::GenerateParams(gen);
    auto& cc = gen.cuckoo_hashing_sparse_dpf_pir_config();
    VH_CHECK(c, !g.ok() || (gen.has_cuckoo_hashing_sparse_dpf_pir_config() && cc.num_elements() > 0 && cc.hash_family() != 0), "cuckoo_config_accepted", "%s",
             gen.ShortDebugString().c_str());
    VH_CHECK(c, !g.ok() || (g->num_buckets() >= cc.num_elements() && g->num_hash_functions() >= 2 && g->hash_family_config().hash_family() == cc.hash_family()),
             "cuckoo_params", "%s", g->ShortDebugString().c_str());
    auto g2 = SimpleHashingSparseDpfPirServer::GenerateParams(gen);
    auto& sc = gen.simple_hashing_sparse_dpf_pir_config();
    VH_CHECK(c, !g2.ok() || (gen.has_simple_hashing_sparse_dpf_pir_config() && sc.num_buckets() > 0 && sc.hash_family() != 0), "simple_config_accepted", "%s",
             gen.ShortDebugString().c_str());
    VH_CHECK(c, !g2.ok() || (g2->num_buckets() == sc.num_buckets() && g2->hash_family_config().hash_family() == sc.hash_family()), "simple_params", "%s",
             g2->ShortDebugString().c_str());
    c.Count(g.ok() || g2.ok() ? "params" : "params_refused");
  }
}

// Everything a request, response or state may be instead of what it should be.
VH_GROUP(misfits, 2250, 20000) {
  Rng& r = c.rng;
  PirKind kind = KindOf(c);
  World w = AnyWorld(r, kind, 30);
  c.Desc("%s n=%zu v=%016llx", KindName(kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto pair = MakePair(w, &h);
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, pair.ok() && plain.ok() && cl.ok(), "setup_refused", "%s", S(pair.status()).c_str());
  auto refused = [&](const char* key, const absl::Status& s) {
    c.Count("misfits");
    if (s.code() != kInvalid) c.Fail(key, "%s: %s", KindName(kind), S(s).c_str());
  };
  // Configurations and parameters of the other schemes.
  for (int k = 0; k < 3; ++k) {
    World o = AnyWorld(r, static_cast<PirKind>(k), 5);
    if (k == kind) continue;
    World d = w;
    d.config = o.config;
    d.params = o.params;
    if (k == DENSE) refused("foreign_params_accepted", MakeClient(d, &h).status());
    if (kind == DENSE) refused("foreign_params_accepted", MakeClient(d, &h).status());
    d = w;
    d.params = o.params;
    if (kind != DENSE) refused("foreign_params_accepted", MakeClient(d, &h).status());
  }
  PirConfig dense, cuckoo, simple, none;
  dense.mutable_dense_dpf_pir_config()->set_num_elements(5);
  cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(5);
  cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(5);
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  for (auto* x : {&dense, &simple, &none}) refused("foreign_config_accepted", CuckooHashingSparseDpfPirServer::GenerateParams(*x).status());
  for (auto* x : {&dense, &cuckoo, &none}) refused("foreign_config_accepted", SimpleHashingSparseDpfPirServer::GenerateParams(*x).status());
  cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_config()->clear_hash_family();
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->clear_hash_family();
  refused("no_family_accepted", CuckooHashingSparseDpfPirServer::GenerateParams(cuckoo).status());
  refused("no_family_accepted", SimpleHashingSparseDpfPirServer::GenerateParams(simple).status());
  for (int64_t n : {int64_t{0}, int64_t{-1}, std::numeric_limits<int64_t>::min()}) {
    World d = w;
    d.config.mutable_dense_dpf_pir_config()->set_num_elements(n);
    if (kind == CUCKOO) d.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params()->set_num_buckets(n);
    if (kind == SIMPLE) d.params.mutable_simple_hashing_sparse_dpf_pir_server_params()->set_num_buckets(n);
    refused("size_accepted", MakeClient(d, &h).status());
    if (kind == CUCKOO) {
      refused("size_accepted", CuckooDb(d).status());
      refused("size_accepted", CuckooHashingSparseDpfPirServer::CreatePlain(d.params.cuckoo_hashing_sparse_dpf_pir_server_params(), *CuckooDb(w)).status());
      d = w;
      d.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params()->set_num_hash_functions(n < -1 ? std::numeric_limits<int>::min() : static_cast<int>(n));
      refused("size_accepted", MakeClient(d, &h).status());
      refused("size_accepted", CuckooDb(d).status());
      refused("size_accepted", CuckooHashingSparseDpfPirServer::CreatePlain(d.params.cuckoo_hashing_sparse_dpf_pir_server_params(), *CuckooDb(w)).status());
    } else if (kind == SIMPLE) {
      refused("size_accepted", SimpleDb(d).status());
      refused("size_accepted", SimpleHashingSparseDpfPirServer::CreatePlain(d.params.simple_hashing_sparse_dpf_pir_server_params(), *SimpleDb(w)).status());
    } else {
      refused("size_accepted", DenseDpfPirServer::CreatePlain(d.config, *DenseDb(w)).status());
    }
  }
  // Databases of another size.
  for (int64_t by : {int64_t{1}, int64_t{-1}, int64_t{128}, int64_t{1} << 32, int64_t{1} << 40}) {
    World d = w;
    if (kind == DENSE) {
      d.config.mutable_dense_dpf_pir_config()->set_num_elements(w.config.dense_dpf_pir_config().num_elements() + by);
      refused("mismatch_accepted", DenseDpfPirServer::CreatePlain(d.config, *DenseDb(w)).status());
      refused("mismatch_accepted", DenseDpfPirServer::CreateHelper(d.config, *DenseDb(w), h.Decrypter()).status());
    } else if (kind == CUCKOO) {
      auto* p = d.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
      p->set_num_buckets(p->num_buckets() + by);
      refused("mismatch_accepted", CuckooHashingSparseDpfPirServer::CreatePlain(*p, *CuckooDb(w)).status());
      refused("mismatch_accepted", CuckooHashingSparseDpfPirServer::CreateHelper(*p, *CuckooDb(w), h.Decrypter()).status());
    } else {
      auto* p = d.params.mutable_simple_hashing_sparse_dpf_pir_server_params();
      p->set_num_buckets(p->num_buckets() + by);
      refused("mismatch_accepted", SimpleHashingSparseDpfPirServer::CreatePlain(*p, *SimpleDb(w)).status());
      refused("mismatch_accepted", SimpleHashingSparseDpfPirServer::CreateHelper(*p, *SimpleDb(w), h.Decrypter()).status());
    }
  }
  if (c.failed()) return;
  // Requests.
  Query q = AnyQuery(r, w, 3);
  auto req = cl->CreateRequest(q);
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  PirRequest to_plain;
  *to_plain.mutable_dpf_pir_request()->mutable_plain_request() = req->first.dpf_pir_request().leader_request().plain_request();
  refused("no_keys_accepted", (*plain)->HandleRequest(Wrap({})).status());
  PirRequest x = req->first;
  x.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request()->clear_dpf_key();
  refused("no_keys_accepted", pair->leader->HandleRequest(x).status());
  DpfPirRequest::HelperRequest hr;
  if (!hr.ParseFromString(h.encrypts.back().plain)) return;
  auto helper_gets = [&](const DpfPirRequest::HelperRequest& m) {
    PirRequest y;
    y.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*h.Encrypt(m.SerializeAsString(), w.Context()));
    return pair->helper->HandleRequest(y).status();
  };
  DpfPirRequest::HelperRequest m = hr;
  m.mutable_plain_request()->clear_dpf_key();
  refused("no_keys_accepted", helper_gets(m));
  m = hr;
  m.clear_one_time_pad_seed();
  refused("no_seed_accepted", helper_gets(m));
  m.set_one_time_pad_seed(hr.one_time_pad_seed() + hr.one_time_pad_seed().substr(r.below(16)));
  refused("long_seed_accepted", helper_gets(m));
  if (kind != DENSE) {
    uint32_t fp = hr.plain_request().seed_fingerprint();
    for (uint32_t bad : {fp ^ 1u, fp ^ 0x80000000u, fp + 1, 0xffffffffu, static_cast<uint32_t>(r.u64()) | 1u}) {
      if (bad == fp || bad == 0) continue;
      PirRequest y = to_plain;
      y.mutable_dpf_pir_request()->mutable_plain_request()->set_seed_fingerprint(bad);
      refused("fingerprint_accepted", (*plain)->HandleRequest(y).status());
      y = req->first;
      y.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request()->set_seed_fingerprint(bad);
      refused("fingerprint_accepted", pair->leader->HandleRequest(y).status());
      m = hr;
      m.mutable_plain_request()->set_seed_fingerprint(bad);
      refused("fingerprint_accepted", helper_gets(m));
    }
  }
  if (c.failed()) return;
  // Keys that do not fit the domain: a level more or less.
  {
    World o = w;
    PirConfig oc;
    int64_t n = kind == DENSE ? w.config.dense_dpf_pir_config().num_elements()
                : kind == CUCKOO ? w.params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets()
                                 : w.params.simple_hashing_sparse_dpf_pir_server_params().num_buckets();
    oc.mutable_dense_dpf_pir_config()->set_num_elements(std::max<int64_t>(2, 4 * n));
    auto ocl = DenseDpfPirClient::Create(oc, h.Encrypter());
    VH_CHECK(c, ocl.ok(), "setup_refused", "%s", S(ocl.status()).c_str());
    std::vector<int> zero = {0};
    auto opr = (*ocl)->CreatePlainRequests(zero);
    VH_CHECK(c, opr.ok(), "setup_refused", "%s", S(opr.status()).c_str());
    PirRequest y = to_plain;
    *y.mutable_dpf_pir_request()->mutable_plain_request()->add_dpf_key() = std::get<0>(*opr).dpf_key(0);
    refused("foreign_key_accepted", (*plain)->HandleRequest(y).status());
  }
  // Responses.
  auto good = pair->leader->HandleRequest(req->first);
  VH_CHECK(c, good.ok(), "good_request_refused", "%s", S(good.status()).c_str());
  refused("no_response_accepted", cl->HandleResponse(PirResponse(), req->second).status());
  PirResponse some = *good;
  auto* mr = some.mutable_dpf_pir_response()->mutable_masked_response();
  for (int n = 0; n <= mr->size() + 7; ++n) {
    PirResponse y;
    y.mutable_dpf_pir_response();
    for (int i = 0; i < n; ++i) y.mutable_dpf_pir_response()->add_masked_response(mr->Get(i % mr->size()));
    if (n == mr->size() || (kind == DENSE && n > 0)) continue;
    refused("wrong_count_accepted", cl->HandleResponse(y, req->second).status());
  }
  PirRequestClientState st[4];
  st[0].mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(req->second));
  auto* cs = st[1].mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state();
  cs->set_one_time_pad_seed(StateSeed(req->second));
  auto* ss = st[2].mutable_simple_hashing_sparse_dpf_pir_request_client_state();
  ss->set_one_time_pad_seed(StateSeed(req->second));
  for (auto& k : q.keys) cs->add_query_strings(k), ss->add_query_strings(k);
  for (int k = 0; k < 4; ++k) {
    if (k != kind) refused("foreign_state_accepted", cl->HandleResponse(*good, st[k]).status());
  }
  auto a = cl->HandleResponse(*good, req->second);
  VH_CHECK(c, a.ok(), "good_response_refused", "%s", S(a.status()).c_str());
  // The generator below it all.
  size_t len = r.below(60);
  auto g = Aes128CtrSeededPrng::Create(r.bytes(len));
  VH_CHECK(c, g.ok() == (len == 16), "generator_seed", "%zu bytes: %s", len, S(g.status()).c_str());
}

}  // namespace
}  // namespace vh
