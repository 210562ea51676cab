// needs: pir
// C18: simple-hashed PIR clients find every stored key and no other.
#include <algorithm>
#include <map>
#include <set>

#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/vh.h"
#include "google/protobuf/io/coded_stream.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;
const SimpleHashingParams& ParamsOf(const World& w) { return w.params.simple_hashing_sparse_dpf_pir_server_params(); }

World RandomWorld(Case& c) {
  Rng& r = c.rng;
  World w;
  w.kind = SIMPLE;
  size_t n = r.chance(1, 8) ? 1 : r.chance(1, 3) ? 1 + r.below(12) : r.chance(1, 6) ? 1 + r.below(c.thorough ? 1500 : 400) : 1 + r.below(60);
  w.records = RandomRecords(r, n, true);
  if (r.chance(1, 8)) w.records[r.below(n)].second = r.bytes(5000);
  int64_t buckets;
  switch (r.below(6)) {
    case 0: buckets = 1; break;
    case 1: buckets = 2 + static_cast<int64_t>(r.below(3)); break;
    case 2: buckets = 126 + static_cast<int64_t>(r.below(5)); break;
    case 3: buckets = static_cast<int64_t>(1 + n / 8); break;
    case 4: buckets = static_cast<int64_t>(4 * n + r.below(300)); break;
    default: buckets = static_cast<int64_t>(1 + r.below(2 * n + 2));
  }
  auto& p = *w.params.mutable_simple_hashing_sparse_dpf_pir_server_params();
  if (r.chance(1, 2)) {
    PirConfig config;
    config.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
    config.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(buckets);
    auto g = SimpleHashingSparseDpfPirServer::GenerateParams(config);
    if (g.ok()) p = *g;
  } else {
    *p.mutable_hash_family_config() = RandomHashFamily(r);
    p.set_num_buckets(buckets);
  }
  return w;
}

std::vector<std::string> RandomQueries(Rng& r, const World& w) {
  std::vector<std::string> q;
  size_t k = 1 + r.below(r.chance(1, 6) ? 15 : 4);
  for (size_t i = 0; i < k; ++i) q.push_back(RandomQueryKey(r, w.records, r.chance(1, 2)));
  if (k > 1 && r.chance(1, 3)) q[1] = q[0];
  if (r.chance(1, 6)) q.push_back(std::string(1 + r.below(3), '\0'));
  return q;
}

void Right(Case& c, const std::map<std::string, std::string>& model, const std::vector<std::string>& q, const absl::StatusOr<Answers>& a, const char* what) {
  VH_CHECK(c, a.ok(), "response_refused", "%s: %s", what, S(a.status()).c_str());
  VH_CHECK(c, a->size() == q.size(), "number_of_answers", "%s: %zu of %zu", what, a->size(), q.size());
  for (size_t i = 0; i < q.size(); ++i) {
    auto it = model.find(q[i]);
    auto& got = (*a)[i];
    if (it == model.end()) {
      VH_CHECK(c, !got.has_value(), "found_absent_key", "%s: query %s gave %s", what, Hex(q[i]).c_str(), Hex(*got).c_str());
      c.Count(q[i].empty() ? "absent_empty" : "absent");
    } else {
      VH_CHECK(c, got.has_value(), "lost_key", "%s: %s of %zu records", what, Hex(q[i]).c_str(), model.size());
      VH_CHECK(c, *got == it->second, "wrong_value", "%s: %s gave %s, want %s", what, Hex(q[i]).c_str(), Hex(*got).c_str(), Hex(it->second).c_str());
      c.Count(it->second.empty() ? "found_empty_value" : "found");
    }
  }
}

VH_GROUP(sessions, 3750, 40000) {
  Rng& r = c.rng;
  World w = RandomWorld(c);
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(w.records.begin(), w.records.end());
  Hybrid h(r.u64());
  auto p = MakePair(w, &h);
  VH_CHECK(c, p.ok(), "setup_refused", "%s", S(p.status()).c_str());
  World cw = w;
  cw.params = Stored((r.chance(1, 2) ? p->leader : p->helper)->GetPublicParams());
  VH_CHECK(c, cw.params.SerializeAsString() == w.params.SerializeAsString(), "public_params", "%s", cw.params.ShortDebugString().c_str());
  auto cl = MakeClient(cw, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  size_t m = 1 + r.below(3);
  std::vector<Query> qs;
  std::vector<PirRequest> reqs;
  std::vector<PirRequestClientState> states;
  std::set<std::string> seeds;
  for (size_t i = 0; i < m; ++i) {
    Query q;
    q.keys = RandomQueries(r, w);
    qs.push_back(q);
    auto x = cl->CreateRequest(q);
    VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
    reqs.push_back(Stored(x->first));
    states.push_back(Stored(x->second));
    VH_CHECK(c, StateSeed(x->second).size() == 16 && seeds.insert(StateSeed(x->second)).second, "pad_seed", "%s", Hex(StateSeed(x->second)).c_str());
  }
  for (size_t k = m; k-- > 0;) {
    auto x = p->leader->HandleRequest(reqs[k]);
    VH_CHECK(c, x.ok(), "leader_refused", "%s", S(x.status()).c_str());
    Right(c, model, qs[k].keys, cl->HandleResponse(Stored(*x), states[k]), "leader/helper");
    if (c.failed()) return;
  }
  c.Count("databases");
}

// One client and one pair of servers in long use.
VH_GROUP(long_life, 16, 160) {
  Rng& r = c.rng;
  World w = RandomWorld(c);
  while (w.records.size() > 100) w = RandomWorld(c);
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(w.records.begin(), w.records.end());
  Hybrid h(r.u64());
  auto p = MakePair(w, &h);
  VH_CHECK(c, p.ok(), "setup_refused", "%s", S(p.status()).c_str());
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  std::set<std::string> seeds;
  std::vector<std::tuple<Query, PirRequest, PirRequestClientState, PirResponse>> kept;
  int requests = 270 + static_cast<int>(r.below(200));
  for (int k = 0; k < requests; ++k) {
    Query q;
    q.keys = RandomQueries(r, w);
    if (q.keys.size() > 3) q.keys.resize(3);
    auto x = cl->CreateRequest(q);
    VH_CHECK(c, x.ok(), "request_refused", "request %d: %s", k, S(x.status()).c_str());
    VH_CHECK(c, seeds.insert(StateSeed(x->second)).second, "pad_seed", "request %d", k);
    auto a = p->leader->HandleRequest(x->first);
    VH_CHECK(c, a.ok(), "leader_refused", "request %d: %s", k, S(a.status()).c_str());
    Right(c, model, q.keys, cl->HandleResponse(*a, x->second), "long use");
    if (c.failed()) return;
    if (kept.size() < 3) kept.emplace_back(q, x->first, x->second, *a);
    if (r.chance(1, 40)) {  // an old request, answered again, and its old answer
      auto& e = kept[r.below(kept.size())];
      auto again = p->leader->HandleRequest(std::get<1>(e));
      VH_CHECK(c, again.ok(), "leader_refused", "again, %d: %s", k, S(again.status()).c_str());
      Right(c, model, std::get<0>(e).keys, cl->HandleResponse(*again, std::get<2>(e)), "long use, again");
      Right(c, model, std::get<0>(e).keys, cl->HandleResponse(std::get<3>(e), std::get<2>(e)), "long use, old answer");
      if (c.failed()) return;
    }
    h.encrypts.clear();
    c.Count("long_life_requests");
  }
}

VH_GROUP(plain_servers, 3750, 40000) {
  Rng& r = c.rng;
  World w = RandomWorld(c);
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(w.records.begin(), w.records.end());
  Hybrid h(r.u64());
  auto s0 = MakeServer(w, PirRole::PLAIN), s1 = MakeServer(w, PirRole::PLAIN);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, s0.ok() && s1.ok() && cl.ok(), "setup_refused", "%s %s", S(s0.status()).c_str(), S(cl.status()).c_str());
  Query q;
  q.keys = RandomQueries(r, w);
  // Every stored key of a small database.
  if (w.records.size() <= 20)
    for (auto& x : w.records) q.keys.push_back(x.first);
  auto pr = cl->CreatePlainRequests(q);
  VH_CHECK(c, pr.ok(), "request_refused", "%s", S(pr.status()).c_str());
  auto& [leader, helper, state] = *pr;
  VH_CHECK(c, leader.seed_fingerprint() == FingerprintOf(ParamsOf(w).hash_family_config().seed()) &&
                  helper.plain_request().seed_fingerprint() == leader.seed_fingerprint(), "fingerprint", "%u", leader.seed_fingerprint());
  auto a = (*s0)->HandleRequest(Stored(Wrap(leader)));
  auto b = (*s1)->HandleRequest(Stored(Wrap(helper.plain_request())));
  VH_CHECK(c, a.ok() && b.ok(), "server_refused", "%s %s", S(a.status()).c_str(), S(b.status()).c_str());
  auto a2 = (*s1)->HandleRequest(Wrap(leader));
  VH_CHECK(c, a2.ok() && a2->SerializeAsString() == a->SerializeAsString(), "servers_differ", "%zu records", model.size());
  auto x = XorResponses(*a, *b);
  VH_CHECK(c, x.has_value() && x->size() == q.keys.size(), "response_shapes", "%zu", model.size());
  PirResponse masked;
  size_t total = 0;
  for (auto& y : *x) total += y.size();
  std::string pad = PadStream(StateSeed(state), total);
  size_t at = 0;
  for (auto& y : *x) {
    for (auto& ch : y) ch ^= pad[at++];
    masked.mutable_dpf_pir_response()->add_masked_response(y);
  }
  Right(c, model, q.keys, cl->HandleResponse(masked, Stored(state)), "plain servers");
  if (c.failed()) return;
  c.Count("databases");
  PirResponse wrong = masked;
  auto* mr = wrong.mutable_dpf_pir_response();
  if (r.chance(1, 2)) mr->mutable_masked_response()->RemoveLast(); else mr->add_masked_response(mr->masked_response(0));
  auto bad = cl->HandleResponse(wrong, state);
  VH_CHECK(c, bad.status().code() == kInvalid, "wrong_count_accepted", "%d: %s", mr->masked_response_size(), S(bad.status()).c_str());
}

// Many records, many queries at once, full buckets, or long keys and values.
VH_GROUP(large, 30, 400) {
  Rng& r = c.rng;
  World w;
  w.kind = SIMPLE;
  size_t most = 4;
  int64_t buckets = 0;
  switch (c.index % 5) {
    case 0: w.records = RandomRecords(r, 3000 + r.below(9000), true); break;
    case 1:
      w.records = RandomRecords(r, 1 + r.below(100), true);
      most = 300;
      break;
    case 2:
      w.records = RandomRecords(r, 1 + r.below(8), true);
      for (auto& x : w.records) x.second = r.bytes(r.below(200000));
      break;
    case 3:
      w.records = RandomRecords(r, 1 + r.below(30), true);
      for (auto& x : w.records)
        if (r.chance(1, 2)) x.first += r.bytes(r.below(r.chance(1, 4) ? 90000 : 5000)) + "k";
      for (auto& x : w.records)
        if (r.chance(1, 2)) x.second = r.bytes(r.below(3000));
      break;
    default:
      w.records = RandomRecords(r, 500 + r.below(3000), true);
      buckets = 1 + static_cast<int64_t>(r.below(3));
  }
  if (!buckets) buckets = static_cast<int64_t>(w.records.size() / 2 + 1 + r.below(2 * w.records.size()));
  auto& p = *w.params.mutable_simple_hashing_sparse_dpf_pir_server_params();
  *p.mutable_hash_family_config() = RandomHashFamily(r);
  p.set_num_buckets(buckets);
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(w.records.begin(), w.records.end());
  Hybrid h(r.u64());
  auto pair = MakePair(w, &h);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, pair.ok() && cl.ok(), "setup_refused", "%s %s", S(pair.status()).c_str(), S(cl.status()).c_str());
  Query q;
  size_t k = most > 4 ? most / 2 + r.below(most / 2) : 1 + r.below(most);
  for (size_t i = 0; i < k; ++i) q.keys.push_back(RandomQueryKey(r, w.records, r.chance(1, 2)));
  auto x = cl->CreateRequest(q);
  VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
  auto a = pair->leader->HandleRequest(Stored(x->first));
  VH_CHECK(c, a.ok(), "leader_refused", "%s", S(a.status()).c_str());
  Right(c, model, q.keys, cl->HandleResponse(Stored(*a), Stored(x->second)), "large");
}

// Every bucket of a database, decoded one by one.
VH_GROUP(contents, 3750, 40000) {
  Rng& r = c.rng;
  World w = RandomWorld(c);
  if (r.chance(1, 3)) {  // repeated keys are kept, in their order
    size_t k = 1 + r.below(4);
    for (size_t i = 0; i < k; ++i) w.records.push_back({w.records[r.below(w.records.size())].first, r.bytes(r.below(9))});
  }
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  auto db = SimpleDb(w);
  VH_CHECK(c, db.ok(), "database_refused", "%s", S(db.status()).c_str());
  size_t nb = static_cast<size_t>(ParamsOf(w).num_buckets());
  VH_CHECK(c, (*db)->num_selection_bits() == nb, "selection_bits", "%zu of %zu", (*db)->num_selection_bits(), nb);
  VH_CHECK(c, (*db)->size() == w.records.size(), "size", "%zu of %zu", (*db)->size(), w.records.size());
  auto fs = FunctionsOf(ParamsOf(w).hash_family_config(), 1);
  auto& f = fs[0];
  std::vector<std::vector<std::pair<std::string, std::string>>> want(nb);
  for (auto& x : w.records) want[static_cast<size_t>(f(x.first, static_cast<int>(nb)))].push_back(x);
  std::vector<std::vector<XorWrapper<absl::uint128>>> sel;
  for (size_t i = 0; i < nb; ++i) {
    std::vector<XorWrapper<absl::uint128>> v((nb + 127) / 128, XorWrapper<absl::uint128>(0));
    v[i / 128] = XorWrapper<absl::uint128>(absl::uint128{1} << (i % 128));
    sel.push_back(v);
  }
  auto out = (*db)->InnerProductWith(sel);
  VH_CHECK(c, out.ok() && out->size() == nb, "inner_product_refused", "%s", S(out.status()).c_str());
  for (size_t i = 0; i < nb; ++i) {
    HashedPirDatabaseBucket b;
    google::protobuf::io::CodedInputStream in(reinterpret_cast<const uint8_t*>((*out)[i].data()), static_cast<int>((*out)[i].size()));
    bool same = b.ParseFromCodedStream(&in) && b.keys_size() == static_cast<int>(want[i].size()) && b.values_size() == b.keys_size();
    for (int j = 0; same && j < b.keys_size(); ++j) same = want[i][static_cast<size_t>(j)] == std::make_pair(b.keys(j), b.values(j));
    VH_CHECK(c, same, "bucket_content", "bucket %zu of %zu with %zu records: %s", i, nb, want[i].size(), b.ShortDebugString().c_str());
    if (want[i].size() > 1) c.Count("shared_buckets");
  }
  c.Count("buckets_read", nb);
}

VH_GROUP(refusals, 2500, 25000) {
  Rng& r = c.rng;
  World w = RandomWorld(c);
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  Hybrid h(r.u64());
  const SimpleHashingParams good = ParamsOf(w);
  auto make = [&] { return *SimpleDb(w); };
  static const int64_t kBad[] = {0, -1, std::numeric_limits<int64_t>::min(), -77};
  SimpleHashingParams p = good;
  int k = static_cast<int>(r.below(2));
  if (k == 0) p.set_num_buckets(kBad[r.below(4)]);
  if (k == 1) p.mutable_hash_family_config()->clear_hash_family();
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::CreatePlain(p, make()).status().code() == kInvalid, "server_params_accepted", "%s", p.ShortDebugString().c_str());
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::CreateHelper(p, make(), h.Decrypter()).status().code() == kInvalid, "helper_params_accepted", "%d", k);
  World bw = w;
  *bw.params.mutable_simple_hashing_sparse_dpf_pir_server_params() = p;
  VH_CHECK(c, MakeClient(bw, &h).status().code() == kInvalid, "client_params_accepted", "%s", p.ShortDebugString().c_str());
  VH_CHECK(c, SimpleDb(bw).status().code() == kInvalid, "database_params_accepted", "%s", p.ShortDebugString().c_str());
  bw = w;
  bw.records[r.below(bw.records.size())].first.clear();
  VH_CHECK(c, SimpleDb(bw).status().code() == kInvalid, "empty_key_accepted", "%zu", bw.records.size());
  p = good;
  p.set_num_buckets(good.num_buckets() + (r.chance(1, 2) ? 1 : int64_t{1} << 32));
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::CreatePlain(p, make()).status().code() == kInvalid, "size_mismatch_accepted", "%s", p.ShortDebugString().c_str());
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::CreatePlain(good, nullptr).status().code() == kInvalid, "null_database", "plain");
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::CreateLeader(good, make(), nullptr).status().code() == kInvalid, "null_sender", "leader");
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::CreateHelper(good, make(), nullptr).status().code() == kInvalid, "null_decrypter", "helper");
  VH_CHECK(c, SimpleHashingSparseDpfPirClient::Create(w.params, nullptr).status().code() == kInvalid, "null_encrypter", "client");
  PirConfig config;
  config.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  config.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(kBad[r.below(4)]);
  VH_CHECK(c, SimpleHashingSparseDpfPirServer::GenerateParams(config).status().code() == kInvalid, "config_accepted", "%s", config.ShortDebugString().c_str());
  World other = w;
  auto* hf = other.params.mutable_simple_hashing_sparse_dpf_pir_server_params()->mutable_hash_family_config();
  std::string seed = hf->seed();
  if (r.chance(1, 2)) seed += "x"; else seed[r.below(seed.size())] ^= 1;
  hf->set_seed(seed);
  auto cl = MakeClient(other, &h), right = MakeClient(w, &h);
  auto pair = MakePair(w, &h);
  auto plain = MakeServer(w, PirRole::PLAIN);
  VH_CHECK(c, cl.ok() && right.ok() && pair.ok() && plain.ok(), "setup_refused", "%s %s", S(cl.status()).c_str(), S(pair.status()).c_str());
  Query q;
  q.keys = RandomQueries(r, w);
  auto req = cl->CreateRequest(q);
  auto pr = cl->CreatePlainRequests(q);
  VH_CHECK(c, req.ok() && pr.ok(), "request_refused", "%s", S(req.status()).c_str());
  VH_CHECK(c, pair->leader->HandleRequest(req->first).status().code() == kInvalid, "foreign_seed_accepted", "leader");
  VH_CHECK(c, (*plain)->HandleRequest(Wrap(std::get<0>(*pr))).status().code() == kInvalid, "foreign_seed_accepted", "plain");
  PirRequest to_helper;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = req->first.dpf_pir_request().leader_request().encrypted_helper_request();
  VH_CHECK(c, pair->helper->HandleRequest(to_helper).status().code() == kInvalid, "foreign_seed_accepted", "helper");
  VH_CHECK(c, (*plain)->HandleRequest(Wrap({})).status().code() == kInvalid, "no_keys_accepted", "plain");
  auto good_req = right->CreateRequest(q);
  VH_CHECK(c, good_req.ok(), "request_refused", "%s", S(good_req.status()).c_str());
  auto resp = pair->leader->HandleRequest(good_req->first);
  VH_CHECK(c, resp.ok(), "leader_refused", "%s", S(resp.status()).c_str());
  PirRequestClientState empty, dense, cuckoo, short_seed = good_req->second;
  dense.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(good_req->second));
  cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(good_req->second));
  for (auto& x : q.keys) cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->add_query_strings(x);
  short_seed.mutable_simple_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(r.bytes(r.below(16)));
  for (auto* st : {&empty, &dense, &cuckoo, &short_seed}) {
    VH_CHECK(c, right->HandleResponse(*resp, *st).status().code() == kInvalid, "state_accepted", "%s", st->ShortDebugString().c_str());
  }
  VH_CHECK(c, right->HandleResponse(PirResponse(), good_req->second).status().code() == kInvalid, "response_accepted", "empty");
  std::map<std::string, std::string> model(w.records.begin(), w.records.end());
  Right(c, model, q.keys, right->HandleResponse(*resp, good_req->second), "after refusals");
  c.Count("refused_all");
}

}  // namespace
}  // namespace vh
