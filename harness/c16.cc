// needs: pir
// C16: dense PIR clients get exactly the records they ask for.
#include <algorithm>
#include <limits>
#include <set>

#include "common/pirutil.h"
#include "common/vh.h"
#include "dpf/distributed_point_function.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

size_t RecordCount(Case& c) {
  Rng& r = c.rng;
  switch (r.below(8)) {
    case 0: return 1;
    case 1: return 2 + r.below(3);
    case 2: return 126 + r.below(5);
    case 3: return 254 + r.below(5);
    case 4: return (size_t{1} << r.below(11)) + r.below(2);
    case 5: return c.thorough && r.chance(1, 10) ? 16382 + r.below(5) : 1 + r.below(900);
    default: return 1 + r.below(60);
  }
}

World DenseWorld(Case& c) {
  Rng& r = c.rng;
  World w;
  w.kind = DENSE;
  w.records.resize(RecordCount(c));
  bool fixed = r.chance(1, 3);
  size_t size = 1 + r.below(70);
  for (auto& x : w.records) x.second = r.bytes(fixed ? size : r.below(r.chance(1, 20) ? 400 : 60));
  if (!fixed && std::all_of(w.records.begin(), w.records.end(), [](auto& x) { return x.second.empty(); })) w.records[0].second = "x";
  w.config.mutable_dense_dpf_pir_config()->set_num_elements(static_cast<int64_t>(w.records.size()));
  return w;
}

std::string Padded(const World& w, int i) {
  size_t width = 0;
  for (auto& x : w.records) width = std::max(width, x.second.size());
  std::string s = w.records[static_cast<size_t>(i)].second;
  s.resize(width, '\0');
  return s;
}

Query RandomQuery(Rng& r, int n) {
  Query q;
  size_t k = 1 + r.below(r.chance(1, 5) ? 12 : 4);
  for (size_t i = 0; i < k; ++i) {
    switch (r.below(5)) {
      case 0: q.indices.push_back(0); break;
      case 1: q.indices.push_back(n - 1); break;
      case 2: q.indices.push_back(std::min(n - 1, static_cast<int>(126 + r.below(4)))); break;
      default: q.indices.push_back(static_cast<int>(r.below(static_cast<uint64_t>(n))));
    }
  }
  if (k > 1 && r.chance(1, 3)) q.indices[1] = q.indices[0];
  return q;
}

void Right(Case& c, const World& w, const Query& q, const absl::StatusOr<Answers>& a, const char* what) {
  VH_CHECK(c, a.ok(), "response_refused", "%s: %s", what, S(a.status()).c_str());
  VH_CHECK(c, a->size() == q.indices.size(), "number_of_answers", "%s: %zu of %zu", what, a->size(), q.indices.size());
  for (size_t i = 0; i < a->size(); ++i) {
    std::string want = Padded(w, q.indices[i]);
    VH_CHECK(c, *(*a)[i] == want, "wrong_record", "%s: index %d of %zu (query %zu of %zu): %s, want %s", what, q.indices[i], w.records.size(), i,
             a->size(), Hex(*(*a)[i]).c_str(), Hex(want).c_str());
  }
  c.Count("records_obtained", a->size());
}

VH_GROUP(leader_helper, 3000, 30000) {
  Rng& r = c.rng;
  World w = DenseWorld(c);
  int n = static_cast<int>(w.records.size());
  c.Desc("n=%d v=%016llx", n, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto p = MakePair(w, &h);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, p.ok() && cl.ok(), "setup_refused", "%s %s", S(p.status()).c_str(), S(cl.status()).c_str());
  // Several requests, answered in another order, with states and messages
  // stored in between.
  size_t m = 1 + r.below(4);
  std::vector<Query> qs;
  std::vector<PirRequest> reqs;
  std::vector<PirRequestClientState> states;
  std::set<std::string> seeds;
  for (size_t i = 0; i < m; ++i) {
    qs.push_back(i > 0 && r.chance(1, 3) ? qs[0] : RandomQuery(r, n));
    auto q = cl->CreateRequest(qs.back());
    VH_CHECK(c, q.ok(), "request_refused", "%s", S(q.status()).c_str());
    reqs.push_back(Stored(q->first));
    states.push_back(Stored(q->second));
    std::string seed = StateSeed(q->second);
    VH_CHECK(c, seed.size() == 16 && seeds.insert(seed).second, "pad_seed", "%s", Hex(seed).c_str());
    DpfPirRequest::HelperRequest hr;
    VH_CHECK(c, hr.ParseFromString(h.encrypts.back().plain) && hr.one_time_pad_seed() == seed, "state_seed_differs", "%s", Hex(seed).c_str());
    VH_CHECK(c, hr.plain_request().dpf_key_size() == static_cast<int>(qs.back().indices.size()), "number_of_keys", "%d", hr.plain_request().dpf_key_size());
  }
  std::vector<size_t> order(m);
  for (size_t i = 0; i < m; ++i) order[i] = i;
  r.shuffle(order);
  std::vector<PirResponse> resp(m);
  for (size_t i : order) {
    auto x = (*p).leader->HandleRequest(reqs[i]);
    VH_CHECK(c, x.ok(), "leader_refused", "%s", S(x.status()).c_str());
    resp[i] = Stored(*x);
  }
  r.shuffle(order);
  for (size_t i : order) {
    Right(c, w, qs[i], cl->HandleResponse(resp[i], states[i]), "leader/helper");
    if (c.failed()) return;
  }
  // Handled again, and by another client object of the same configuration.
  auto cl2 = MakeClient(w, &h);
  VH_CHECK(c, cl2.ok(), "setup_refused", "%s", S(cl2.status()).c_str());
  Right(c, w, qs[0], cl2->HandleResponse(resp[0], states[0]), "another client object");
  if (c.failed() || m < 2) return;
  // Another request's state reveals nothing.
  size_t bytes = 0;
  for (auto& x : resp[0].dpf_pir_response().masked_response()) bytes += x.size();
  auto other = cl->HandleResponse(resp[0], states[1]);
  if (other.ok() && bytes >= 16) {
    Answers want;
    bool same = other->size() == qs[0].indices.size();
    for (size_t i = 0; same && i < other->size(); ++i) same = *(*other)[i] == Padded(w, qs[0].indices[i]);
    VH_CHECK(c, !same, "foreign_state_decodes", "%zu bytes", bytes);
    c.Count("foreign_states");
  }
}

// One client and one pair of servers in long use.
VH_GROUP(long_life, 16, 160) {
  Rng& r = c.rng;
  World w;
  w.kind = DENSE;
  w.records.resize(1 + r.below(r.chance(1, 3) ? 300 : 12));
  for (auto& x : w.records) x.second = r.bytes(1 + r.below(20));
  int n = static_cast<int>(w.records.size()), requests = c.index % 8 == 0 ? 4000 : 270 + static_cast<int>(r.below(500));
  w.config.mutable_dense_dpf_pir_config()->set_num_elements(n);
  c.Desc("n=%d, %d requests v=%016llx", n, requests, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto p = MakePair(w, &h);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, p.ok() && cl.ok(), "setup_refused", "%s %s", S(p.status()).c_str(), S(cl.status()).c_str());
  std::set<std::string> seeds;
  std::vector<std::tuple<Query, PirRequest, PirRequestClientState, PirResponse>> kept;
  for (int k = 0; k < requests; ++k) {
    Query q;
    for (size_t i = 0, m = 1 + r.below(3); i < m; ++i) q.indices.push_back(static_cast<int>(r.below(static_cast<uint64_t>(n))));
    auto x = cl->CreateRequest(q);
    VH_CHECK(c, x.ok(), "request_refused", "request %d: %s", k, S(x.status()).c_str());
    VH_CHECK(c, seeds.insert(StateSeed(x->second)).second, "pad_seed", "request %d", k);
    auto a = p->leader->HandleRequest(x->first);
    VH_CHECK(c, a.ok(), "leader_refused", "request %d: %s", k, S(a.status()).c_str());
    Right(c, w, q, cl->HandleResponse(*a, x->second), "long use");
    if (c.failed()) return;
    if (kept.size() < 3) kept.emplace_back(q, x->first, x->second, *a);
    if (r.chance(1, 40)) {  // an old request, answered again, and its old answer
      auto& e = kept[r.below(kept.size())];
      auto again = p->leader->HandleRequest(std::get<1>(e));
      VH_CHECK(c, again.ok(), "leader_refused", "again, %d: %s", k, S(again.status()).c_str());
      Right(c, w, std::get<0>(e), cl->HandleResponse(*again, std::get<2>(e)), "long use, again");
      Right(c, w, std::get<0>(e), cl->HandleResponse(std::get<3>(e), std::get<2>(e)), "long use, old answer");
      if (c.failed()) return;
    }
    if (r.chance(1, 40))
      VH_CHECK(c, !p->leader->HandleRequest(PirRequest()).ok() && !p->helper->HandleRequest(PirRequest()).ok(), "empty_accepted", "request %d", k);
    h.encrypts.clear();
    c.Count("long_life_requests");
  }
}

VH_GROUP(plain_servers, 3000, 30000) {
  Rng& r = c.rng;
  World w = DenseWorld(c);
  int n = static_cast<int>(w.records.size());
  c.Desc("n=%d v=%016llx", n, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto s0 = MakeServer(w, PirRole::PLAIN), s1 = MakeServer(w, PirRole::PLAIN);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, s0.ok() && s1.ok() && cl.ok(), "setup_refused", "%s %s", S(s0.status()).c_str(), S(cl.status()).c_str());
  for (int k = 0; k < 2; ++k) {
    Query q = RandomQuery(r, n);
    auto pr = cl->CreatePlainRequests(q);
    VH_CHECK(c, pr.ok(), "request_refused", "%s", S(pr.status()).c_str());
    auto& [leader, helper, state] = *pr;
    auto a = (*s0)->HandleRequest(Stored(Wrap(leader)));
    auto b = (*s1)->HandleRequest(Stored(Wrap(helper.plain_request())));
    VH_CHECK(c, a.ok() && b.ok(), "server_refused", "%s %s", S(a.status()).c_str(), S(b.status()).c_str());
    auto x = XorResponses(*a, *b);
    VH_CHECK(c, x.has_value(), "response_shapes", "%d", k);
    Right(c, w, q, Answers(x->begin(), x->end()), "plain servers");
    if (c.failed()) return;
    // Masked by hand, the client decodes the same.
    PirResponse masked;
    size_t total = 0;
    for (auto& s : *x) total += s.size();
    std::string pad = PadStream(StateSeed(state), total);
    size_t at = 0;
    for (auto& s : *x) {
      std::string y = s;
      for (auto& ch : y) ch ^= pad[at++];
      masked.mutable_dpf_pir_response()->add_masked_response(y);
    }
    Right(c, w, q, cl->HandleResponse(masked, state), "masked by hand");
    if (c.failed()) return;
    // Either server's view of the key alone: shares of one bit.
    VH_CHECK(c, leader.dpf_key_size() == static_cast<int>(q.indices.size()), "number_of_keys", "%d", leader.dpf_key_size());
    for (int i = 0; i < leader.dpf_key_size(); ++i) {
      VH_CHECK(c, leader.dpf_key(i).party() != helper.plain_request().dpf_key(i).party(), "same_party", "%d", i);
    }
  }
}

// Many records, many queries at once, or long records.
VH_GROUP(large, 24, 300) {
  Rng& r = c.rng;
  World w;
  w.kind = DENSE;
  size_t most = 4;
  static const size_t kMany[] = {16383, 16384, 16385, 32767, 65535, 65536, 65537};
  switch (c.index % 4) {
    case 0:
      w.records.resize(r.chance(1, 2) ? kMany[r.below(7)] : 5000 + r.below(60000));
      for (auto& x : w.records) x.second = r.bytes(r.below(4));
      w.records[r.below(w.records.size())].second = "abcd";
      break;
    case 1:
      w.records.resize(1 + r.below(400));
      for (auto& x : w.records) x.second = r.bytes(r.below(12));
      w.records[0].second += "x";
      most = 300;
      break;
    case 2:
      w.records.resize(1 + r.below(8));
      for (auto& x : w.records) x.second = r.bytes(r.below(300000));
      w.records[0].second += "x";
      break;
    default:
      w.records.resize(1000 + r.below(4000));
      for (auto& x : w.records) x.second = r.bytes(r.below(100));
      most = 70;
  }
  w.config.mutable_dense_dpf_pir_config()->set_num_elements(static_cast<int64_t>(w.records.size()));
  int n = static_cast<int>(w.records.size());
  c.Desc("n=%d v=%016llx", n, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto p = MakePair(w, &h);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, p.ok() && cl.ok(), "setup_refused", "%s %s", S(p.status()).c_str(), S(cl.status()).c_str());
  Query q = RandomQuery(r, n);
  size_t k = most > 4 ? most / 2 + r.below(most / 2) : 1 + r.below(most);
  while (q.indices.size() < k) q.indices.push_back(static_cast<int>(r.below(static_cast<uint64_t>(n))));
  auto x = cl->CreateRequest(q);
  VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
  auto a = (*p).leader->HandleRequest(Stored(x->first));
  VH_CHECK(c, a.ok(), "leader_refused", "%s", S(a.status()).c_str());
  Right(c, w, q, cl->HandleResponse(Stored(*a), Stored(x->second)), "large");
}

// Clients of databases too large to build: the keys select the right bit.
VH_GROUP(large_configurations, 600, 12000) {
  Rng& r = c.rng;
  int64_t n;
  switch (r.below(4)) {
    case 0: n = (int64_t{1} << r.range(20, 40)) + r.range(-2, 2); break;
    case 1: n = static_cast<int64_t>(std::numeric_limits<int>::max()) + r.range(-2, 3); break;
    case 2: n = (int64_t{1} << 32) + r.range(-3, 300); break;
    default: n = r.range(1 << 20, int64_t{1} << 45);
  }
  int limit = static_cast<int>(std::min<int64_t>(n - 1, std::numeric_limits<int>::max()));
  int index = r.chance(1, 4) ? limit : r.chance(1, 4) ? static_cast<int>(r.below(300)) : static_cast<int>(r.range(0, limit));
  c.Desc("n=%lld index=%d", (long long)n, index);
  World w;
  w.config.mutable_dense_dpf_pir_config()->set_num_elements(n);
  Hybrid h(r.u64());
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  Query q;
  q.indices = {index};
  auto pr = cl->CreatePlainRequests(q);
  VH_CHECK(c, pr.ok(), "index_refused", "%d of %lld: %s", index, (long long)n, S(pr.status()).c_str());
  int ld = 0;
  while ((int64_t{1} << ld) < n) ++ld;
  DpfParameters dp;
  dp.set_log_domain_size(ld);
  dp.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
  auto dpf = DistributedPointFunction::Create(dp);
  VH_CHECK(c, dpf.ok(), "dpf", "%s", S(dpf.status()).c_str());
  std::vector<absl::uint128> pts;
  for (int k : {index / 128, index / 128 + 1, 0, static_cast<int>(r.below(static_cast<uint64_t>(limit / 128) + 1))}) pts.push_back(static_cast<absl::uint128>(static_cast<uint64_t>(k)));
  auto a = (*dpf)->EvaluateAt<XorWrapper<absl::uint128>>(std::get<0>(*pr).dpf_key(0), 0, pts);
  auto b = (*dpf)->EvaluateAt<XorWrapper<absl::uint128>>(std::get<1>(*pr).plain_request().dpf_key(0), 0, pts);
  VH_CHECK(c, a.ok() && b.ok(), "keys_refused", "%s", S(a.status()).c_str());
  for (size_t i = 0; i < pts.size(); ++i) {
    absl::uint128 got = ((*a)[i] + (*b)[i]).value();
    absl::uint128 want = pts[i] == static_cast<absl::uint128>(static_cast<uint64_t>(index / 128)) ? absl::uint128{1} << (index % 128) : 0;
    VH_CHECK(c, got == want, "wrong_selection", "block %s of index %d: %s", Str(pts[i]).c_str(), index, Str(got).c_str());
  }
  if (n <= std::numeric_limits<int>::max()) {
    q.indices = {static_cast<int>(n)};
    VH_CHECK(c, cl->CreatePlainRequests(q).status().code() == kInvalid, "index_accepted", "%lld", (long long)n);
  }
  c.Count("large");
}

VH_GROUP(refusals, 5000, 50000) {
  Rng& r = c.rng;
  World w = DenseWorld(c);
  int n = static_cast<int>(w.records.size());
  c.Desc("n=%d v=%016llx", n, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  // Indices.
  Query q = RandomQuery(r, n), bad = q;
  static const int kFar[] = {std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), -1, -128};
  bad.indices[r.below(bad.indices.size())] = r.chance(1, 2) ? n + static_cast<int>(r.below(200)) : kFar[r.below(4)];
  VH_CHECK(c, cl->CreateRequest(bad).status().code() == kInvalid, "index_accepted", "n=%d", n);
  VH_CHECK(c, cl->CreatePlainRequests(bad).status().code() == kInvalid, "index_accepted_plain", "n=%d", n);
  // Configurations.
  PirConfig none, sparse, config = w.config;
  sparse.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(n);
  if (r.chance(1, 2)) sparse.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(n);
  PirConfig negative;
  negative.mutable_dense_dpf_pir_config()->set_num_elements(r.chance(1, 3) ? 0 : r.chance(1, 2) ? -static_cast<int64_t>(1 + r.below(1000)) : std::numeric_limits<int64_t>::min());
  auto make = [&] { return *DenseDb(w); };
  for (auto* p : {&none, &sparse, &negative}) {
    VH_CHECK(c, DenseDpfPirClient::Create(*p, h.Encrypter()).status().code() == kInvalid, "client_config_accepted", "%s", p->ShortDebugString().c_str());
    VH_CHECK(c, DenseDpfPirServer::CreatePlain(*p, make()).status().code() == kInvalid, "server_config_accepted", "%s", p->ShortDebugString().c_str());
    VH_CHECK(c, DenseDpfPirServer::CreateHelper(*p, make(), h.Decrypter()).status().code() == kInvalid, "helper_config_accepted", "%s", p->ShortDebugString().c_str());
  }
  config.mutable_dense_dpf_pir_config()->set_num_elements(n + (r.chance(1, 2) ? 1 : r.chance(1, 2) && n > 1 ? -1 : (int64_t{1} << 32)));
  VH_CHECK(c, DenseDpfPirServer::CreatePlain(config, make()).status().code() == kInvalid, "size_mismatch_accepted", "%s", config.ShortDebugString().c_str());
  VH_CHECK(c, DenseDpfPirServer::CreatePlain(w.config, nullptr).status().code() == kInvalid, "null_database", "plain");
  VH_CHECK(c, DenseDpfPirServer::CreateHelper(w.config, nullptr, h.Decrypter()).status().code() == kInvalid, "null_database", "helper");
  VH_CHECK(c, DenseDpfPirServer::CreateHelper(w.config, make(), nullptr).status().code() == kInvalid, "null_decrypter", "helper");
  VH_CHECK(c, DenseDpfPirServer::CreateLeader(w.config, make(), nullptr).status().code() == kInvalid, "null_sender", "leader");
  VH_CHECK(c, DenseDpfPirClient::Create(w.config, nullptr).status().code() == kInvalid, "null_encrypter", "client");
  // Requests.
  auto p = MakePair(w, &h);
  auto plain = MakeServer(w, PirRole::PLAIN);
  VH_CHECK(c, p.ok() && plain.ok(), "setup_refused", "%s", S(p.status()).c_str());
  auto req = cl->CreateRequest(q);
  auto pr = cl->CreatePlainRequests(q);
  VH_CHECK(c, req.ok() && pr.ok(), "request_refused", "%s", S(req.status()).c_str());
  PirRequest empty, to_leader = req->first, to_plain = Wrap(std::get<0>(*pr)), to_helper, no_keys = Wrap({});
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = to_leader.dpf_pir_request().leader_request().encrypted_helper_request();
  struct Server { const char* name; const PirServer* s; const PirRequest* good; };
  for (auto& s : {Server{"leader", p->leader.get(), &to_leader}, Server{"helper", p->helper.get(), &to_helper}, Server{"plain", plain->get(), &to_plain}}) {
    for (auto* x : {&empty, &to_leader, &to_helper, &to_plain, &no_keys}) {
      auto got = s.s->HandleRequest(*x);
      if (x == s.good) {
        VH_CHECK(c, got.ok(), "good_request_refused", "%s: %s", s.name, S(got.status()).c_str());
      } else {
        VH_CHECK(c, got.status().code() == kInvalid, "foreign_request_accepted", "%s: %s", s.name, S(got.status()).c_str());
        c.Count("requests_refused");
      }
    }
  }
  // Keys of another domain size.
  World other = w;
  other.records.resize(w.records.size() * 2 + 1, {"", "z"});
  other.config.mutable_dense_dpf_pir_config()->set_num_elements(static_cast<int64_t>(other.records.size()));
  auto wide = MakeServer(other, PirRole::PLAIN);
  VH_CHECK(c, wide.ok(), "setup_refused", "%s", S(wide.status()).c_str());
  auto got = (*wide)->HandleRequest(to_plain);
  VH_CHECK(c, got.status().code() == kInvalid, "foreign_key_accepted", "%s", S(got.status()).c_str());
  // Responses and states.
  auto ok = p->leader->HandleRequest(to_leader);
  VH_CHECK(c, ok.ok(), "leader_refused", "%s", S(ok.status()).c_str());
  PirRequestClientState st = req->second, empty_state, no_seed, short_seed, foreign;
  no_seed.mutable_dense_dpf_pir_request_client_state();
  size_t len = r.below(40);
  short_seed.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(r.bytes(len == 16 ? 17 : len));
  if (r.chance(1, 2)) foreign.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(st));
  else foreign.mutable_simple_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(st));
  for (auto* s : {&empty_state, &no_seed, &short_seed, &foreign}) {
    auto a = cl->HandleResponse(*ok, *s);
    VH_CHECK(c, a.status().code() == kInvalid, "state_accepted", "%s: %s", s->ShortDebugString().c_str(), S(a.status()).c_str());
    c.Count("states_refused");
  }
  PirResponse nothing, no_answers;
  no_answers.mutable_dpf_pir_response();
  for (auto* x : {&nothing, &no_answers}) {
    auto a = cl->HandleResponse(*x, st);
    VH_CHECK(c, a.status().code() == kInvalid, "response_accepted", "%s", S(a.status()).c_str());
  }
  Right(c, w, q, cl->HandleResponse(*ok, st), "after refusals");
  VH_CHECK(c, (*plain)->GetPublicParams().wrapped_pir_server_public_params_case() == 0, "public_params", "%s",
           (*plain)->GetPublicParams().ShortDebugString().c_str());
}

}  // namespace
}  // namespace vh
