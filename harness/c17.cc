// needs: pir
// C17: cuckoo-hashed PIR clients find every stored key and no other.
#include <algorithm>
#include <map>
#include <set>

#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/vh.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

// Size of a largest matching of records to buckets.
size_t Matching(const std::vector<std::vector<int>>& choices, int buckets) {
  std::vector<int> owner(static_cast<size_t>(buckets), -1);
  size_t matched = 0;
  std::vector<int> seen(static_cast<size_t>(buckets), -1);
  std::function<bool(int, int)> augment = [&](int e, int round) {
    for (int b : choices[static_cast<size_t>(e)]) {
      if (seen[static_cast<size_t>(b)] == round) continue;
      seen[static_cast<size_t>(b)] = round;
      int& o = owner[static_cast<size_t>(b)];
      if (o < 0 || augment(o, round)) return o = e, true;
    }
    return false;
  };
  for (size_t i = 0; i < choices.size(); ++i) matched += augment(static_cast<int>(i), static_cast<int>(i));
  return matched;
}

struct Setup {
  World w;
  std::vector<std::vector<int>> choices;  // buckets of each record
  bool placeable = false;
  bool easy = false;  // so sparse that placing must succeed
  size_t width = 0;   // longest value
  size_t key_width = 0;
};

const CuckooHashingParams& ParamsOf(const World& w) { return w.params.cuckoo_hashing_sparse_dpf_pir_server_params(); }

void Finish(Setup* s) {
  const auto& p = ParamsOf(s->w);
  int nb = static_cast<int>(p.num_buckets());
  auto fs = FunctionsOf(p.hash_family_config(), p.num_hash_functions());
  s->choices.clear();
  for (auto& x : s->w.records) {
    std::vector<int> b;
    for (auto& f : fs) b.push_back(f(x.first, nb));
    s->choices.push_back(b);
    s->width = std::max(s->width, x.second.size());
    s->key_width = std::max(s->key_width, x.first.size());
  }
  s->placeable = Matching(s->choices, nb) == s->w.records.size();
  s->easy = s->placeable && s->w.records.size() * 2 <= static_cast<size_t>(nb) && p.num_hash_functions() >= 3;
}

Setup RandomSetup(Case& c, bool nul_end) {
  Rng& r = c.rng;
  Setup s;
  s.w.kind = CUCKOO;
  size_t n = r.chance(1, 8) ? 1 : r.chance(1, 3) ? 1 + r.below(12) : r.chance(1, 6) ? 1 + r.below(c.thorough ? 1500 : 400) : 1 + r.below(60);
  s.w.records = RandomRecords(r, n, nul_end);
  auto& p = *s.w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
  if (r.chance(1, 2)) {
    PirConfig config;
    config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
    config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(static_cast<int64_t>(n + (r.chance(1, 2) ? 0 : r.below(2 * n + 2))));
    auto g = CuckooHashingSparseDpfPirServer::GenerateParams(config);
    if (g.ok()) p = *g;
  } else {
    *p.mutable_hash_family_config() = RandomHashFamily(r);
    p.set_num_hash_functions(static_cast<int>(2 + r.below(r.chance(1, 6) ? 14 : 4)));
    p.set_num_buckets(static_cast<int64_t>(r.chance(1, 3) ? n + r.below(3) : r.chance(1, 5) ? 4 * n + 120 + r.below(30) : n + 1 + r.below(3 * n + 1)));
  }
  Finish(&s);
  return s;
}

std::vector<std::string> RandomQueries(Rng& r, const World& w, bool nul_end) {
  std::vector<std::string> q;
  size_t k = 1 + r.below(r.chance(1, 6) ? 15 : 4);
  for (size_t i = 0; i < k; ++i) q.push_back(RandomQueryKey(r, w.records, nul_end));
  if (k > 1 && r.chance(1, 3)) q[1] = q[0];
  return q;
}

void Right(Case& c, const Setup& s, const std::map<std::string, std::string>& model, const std::vector<std::string>& q,
           const absl::StatusOr<Answers>& a, const char* what) {
  VH_CHECK(c, a.ok(), "response_refused", "%s: %s", what, S(a.status()).c_str());
  VH_CHECK(c, a->size() == q.size(), "number_of_answers", "%s: %zu of %zu", what, a->size(), q.size());
  for (size_t i = 0; i < q.size(); ++i) {
    auto it = model.find(q[i]);
    auto& got = (*a)[i];
    if (it == model.end()) {
      VH_CHECK(c, !got.has_value(), "found_absent_key", "%s: query %s gave %s", what, Hex(q[i]).c_str(), Hex(*got).c_str());
      c.Count(q[i].size() > s.key_width ? "absent_longer" : q[i].empty() ? "absent_empty" : "absent");
    } else {
      std::string want = it->second;
      want.resize(s.width, '\0');
      VH_CHECK(c, got.has_value(), "lost_key", "%s: %s of %zu records", what, Hex(q[i]).c_str(), model.size());
      VH_CHECK(c, *got == want, "wrong_value", "%s: %s gave %s, want %s", what, Hex(q[i]).c_str(), Hex(*got).c_str(), Hex(want).c_str());
      c.Count("found");
    }
  }
}

Order Shuffled(Rng& r, size_t n) {
  Order o(n);
  for (size_t i = 0; i < n; ++i) o[i] = i;
  if (r.chance(1, 4)) std::reverse(o.begin(), o.end()); else r.shuffle(o);
  return o;
}

// Builds the databases of both servers. A refusal is legitimate only if placing
// the records is hard.
bool Built(Case& c, const Setup& s, const absl::Status& st) {
  if (st.ok()) {
    if (!s.placeable) c.Fail("placed_the_unplaceable", "%zu records in %lld buckets", s.w.records.size(), (long long)ParamsOf(s.w).num_buckets());
    return !c.failed();
  }
  if (s.easy || st.code() != absl::StatusCode::kInternal) {
    c.Fail("database_refused", "%zu records in %lld buckets, %d functions: %s", s.w.records.size(), (long long)ParamsOf(s.w).num_buckets(),
           ParamsOf(s.w).num_hash_functions(), S(st).c_str());
  }
  c.Count("not_placed");
  return false;
}

VH_GROUP(sessions, 2500, 25000) {
  Rng& r = c.rng;
  Setup s = RandomSetup(c, false);
  c.Desc("n=%zu %s", s.w.records.size(), ParamsOf(s.w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(s.w.records.begin(), s.w.records.end());
  Hybrid h(r.u64());
  auto p = MakePair(s.w, &h, Shuffled(r, model.size()), Shuffled(r, model.size()));
  if (!Built(c, s, p.status())) return;
  // The client learns the parameters from a server.
  World cw = s.w;
  cw.params = Stored((r.chance(1, 2) ? (*p).leader : (*p).helper)->GetPublicParams());
  VH_CHECK(c, cw.params.SerializeAsString() == s.w.params.SerializeAsString(), "public_params", "%s", cw.params.ShortDebugString().c_str());
  auto cl = MakeClient(cw, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  size_t m = 1 + r.below(3);
  std::vector<Query> qs;
  std::vector<PirRequest> reqs;
  std::vector<PirRequestClientState> states;
  for (size_t i = 0; i < m; ++i) {
    Query q;
    q.keys = RandomQueries(r, s.w, false);
    qs.push_back(q);
    auto x = cl->CreateRequest(q);
    VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
    reqs.push_back(Stored(x->first));
    states.push_back(Stored(x->second));
    VH_CHECK(c, StateSeed(x->second).size() == 16, "pad_seed", "%s", Hex(StateSeed(x->second)).c_str());
  }
  for (size_t k = m; k-- > 0;) {
    auto x = (*p).leader->HandleRequest(reqs[k]);
    VH_CHECK(c, x.ok(), "leader_refused", "%s", S(x.status()).c_str());
    Right(c, s, model, qs[k].keys, cl->HandleResponse(Stored(*x), states[k]), "leader/helper");
    if (c.failed()) return;
  }
  c.Count("databases");
}

// One client and one pair of servers in long use.
VH_GROUP(long_life, 16, 160) {
  Rng& r = c.rng;
  Setup s = RandomSetup(c, false);
  while (s.w.records.size() > 100) s = RandomSetup(c, false);
  const World& w = s.w;
  c.Desc("n=%zu %s", w.records.size(), ParamsOf(w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(w.records.begin(), w.records.end());
  Hybrid h(r.u64());
  auto p = MakePair(w, &h, Shuffled(r, model.size()), Shuffled(r, model.size()));
  if (!Built(c, s, p.status())) return;
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  std::set<std::string> seeds;
  std::vector<std::tuple<Query, PirRequest, PirRequestClientState, PirResponse>> kept;
  int requests = 270 + static_cast<int>(r.below(200));
  for (int k = 0; k < requests; ++k) {
    Query q;
    q.keys = RandomQueries(r, w, false);
    if (q.keys.size() > 3) q.keys.resize(3);
    auto x = cl->CreateRequest(q);
    VH_CHECK(c, x.ok(), "request_refused", "request %d: %s", k, S(x.status()).c_str());
    VH_CHECK(c, seeds.insert(StateSeed(x->second)).second, "pad_seed", "request %d", k);
    auto a = p->leader->HandleRequest(x->first);
    VH_CHECK(c, a.ok(), "leader_refused", "request %d: %s", k, S(a.status()).c_str());
    Right(c, s, model, q.keys, cl->HandleResponse(*a, x->second), "long use");
    if (c.failed()) return;
    if (kept.size() < 3) kept.emplace_back(q, x->first, x->second, *a);
    if (r.chance(1, 40)) {  // an old request, answered again, and its old answer
      auto& e = kept[r.below(kept.size())];
      auto again = p->leader->HandleRequest(std::get<1>(e));
      VH_CHECK(c, again.ok(), "leader_refused", "again, %d: %s", k, S(again.status()).c_str());
      Right(c, s, model, std::get<0>(e).keys, cl->HandleResponse(*again, std::get<2>(e)), "long use, again");
      Right(c, s, model, std::get<0>(e).keys, cl->HandleResponse(std::get<3>(e), std::get<2>(e)), "long use, old answer");
      if (c.failed()) return;
    }
    h.encrypts.clear();
    c.Count("long_life_requests");
  }
}

VH_GROUP(plain_servers, 2500, 25000) {
  Rng& r = c.rng;
  Setup s = RandomSetup(c, false);
  c.Desc("n=%zu %s", s.w.records.size(), ParamsOf(s.w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(s.w.records.begin(), s.w.records.end());
  Hybrid h(r.u64());
  auto s0 = MakeServer(s.w, PirRole::PLAIN, nullptr, nullptr, nullptr, Shuffled(r, model.size()));
  if (!Built(c, s, s0.status())) return;
  auto s1 = MakeServer(s.w, PirRole::PLAIN, nullptr, nullptr, nullptr, Shuffled(r, model.size()));
  auto cl = MakeClient(s.w, &h);
  VH_CHECK(c, s1.ok() && cl.ok(), "setup_refused", "%s %s", S(s1.status()).c_str(), S(cl.status()).c_str());
  Query q;
  q.keys = RandomQueries(r, s.w, false);
  auto pr = cl->CreatePlainRequests(q);
  VH_CHECK(c, pr.ok(), "request_refused", "%s", S(pr.status()).c_str());
  auto& [leader, helper, state] = *pr;
  VH_CHECK(c, leader.seed_fingerprint() == FingerprintOf(ParamsOf(s.w).hash_family_config().seed()) &&
                  helper.plain_request().seed_fingerprint() == leader.seed_fingerprint(), "fingerprint", "%u", leader.seed_fingerprint());
  auto a = (*s0)->HandleRequest(Stored(Wrap(leader)));
  auto b = (*s1)->HandleRequest(Stored(Wrap(helper.plain_request())));
  VH_CHECK(c, a.ok() && b.ok(), "server_refused", "%s %s", S(a.status()).c_str(), S(b.status()).c_str());
  // Servers with the same records answer alike, whatever the insertion order.
  auto a2 = (*s1)->HandleRequest(Wrap(leader));
  VH_CHECK(c, a2.ok() && a2->SerializeAsString() == a->SerializeAsString(), "insertion_order_shows", "%zu records", model.size());
  c.Count("orders_compared");
  auto x = XorResponses(*a, *b);
  VH_CHECK(c, x.has_value(), "response_shapes", "%zu", model.size());
  PirResponse masked;
  size_t total = 0;
  for (auto& y : *x) total += y.size();
  std::string pad = PadStream(StateSeed(state), total);
  size_t at = 0;
  for (auto& y : *x) {
    for (auto& ch : y) ch ^= pad[at++];
    masked.mutable_dpf_pir_response()->add_masked_response(y);
  }
  Right(c, s, model, q.keys, cl->HandleResponse(masked, Stored(state)), "plain servers");
  if (c.failed()) return;
  c.Count("databases");
  // A few responses less or more do not fit the query.
  PirResponse wrong = masked;
  auto* mr = wrong.mutable_dpf_pir_response();
  switch (r.below(3)) {
    case 0: mr->mutable_masked_response()->RemoveLast(); break;
    case 1: mr->mutable_masked_response()->DeleteSubrange(0, 2); break;
    default: mr->add_masked_response(mr->masked_response(0));
  }
  auto bad = cl->HandleResponse(wrong, state);
  VH_CHECK(c, bad.status().code() == kInvalid, "wrong_count_accepted", "%d: %s", mr->masked_response_size(), S(bad.status()).c_str());
}

// Many records, many queries at once, or long keys and values.
VH_GROUP(large, 24, 300) {
  Rng& r = c.rng;
  Setup s;
  s.w.kind = CUCKOO;
  size_t most = 4;
  switch (c.index % 4) {
    case 0: s.w.records = RandomRecords(r, 3000 + r.below(9000), false); break;
    case 1:
      s.w.records = RandomRecords(r, 1 + r.below(100), false);
      most = 150;
      break;
    case 2:
      s.w.records = RandomRecords(r, 1 + r.below(8), false);
      for (auto& x : s.w.records) x.second = r.bytes(r.below(200000));
      break;
    default:
      s.w.records = RandomRecords(r, 1 + r.below(30), false);
      for (auto& x : s.w.records)
        if (r.chance(1, 2)) x.first += r.bytes(r.below(r.chance(1, 4) ? 90000 : 5000)) + "k";
      for (auto& x : s.w.records)
        if (r.chance(1, 2)) x.second = r.bytes(r.below(3000));
  }
  s.w.records[0].second += "x";
  PirConfig config;
  config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(static_cast<int64_t>(s.w.records.size() + r.below(1 + s.w.records.size())));
  auto g = CuckooHashingSparseDpfPirServer::GenerateParams(config);
  VH_CHECK(c, g.ok(), "params_refused", "%s", S(g.status()).c_str());
  *s.w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = *g;
  Finish(&s);
  c.Desc("n=%zu %s", s.w.records.size(), ParamsOf(s.w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(s.w.records.begin(), s.w.records.end());
  Hybrid h(r.u64());
  auto p = MakePair(s.w, &h, Shuffled(r, model.size()), Shuffled(r, model.size()));
  if (!Built(c, s, p.status())) return;
  auto cl = MakeClient(s.w, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  Query q;
  size_t k = most > 4 ? most / 2 + r.below(most / 2) : 1 + r.below(most);
  for (size_t i = 0; i < k; ++i) q.keys.push_back(RandomQueryKey(r, s.w.records, false));
  auto x = cl->CreateRequest(q);
  VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
  auto a = (*p).leader->HandleRequest(Stored(x->first));
  VH_CHECK(c, a.ok(), "leader_refused", "%s", S(a.status()).c_str());
  Right(c, s, model, q.keys, cl->HandleResponse(Stored(*a), Stored(x->second)), "large");
}

// Every bucket of a database, read one by one.
VH_GROUP(contents, 3000, 30000) {
  Rng& r = c.rng;
  Setup s = RandomSetup(c, r.chance(1, 3));
  c.Desc("n=%zu %s", s.w.records.size(), ParamsOf(s.w).ShortDebugString().c_str());
  auto db = CuckooDb(s.w, Shuffled(r, s.w.records.size()));
  if (!Built(c, s, db.status())) return;
  size_t nb = static_cast<size_t>(ParamsOf(s.w).num_buckets());
  VH_CHECK(c, (*db)->num_selection_bits() == nb, "selection_bits", "%zu of %zu", (*db)->num_selection_bits(), nb);
  VH_CHECK(c, (*db)->size() == s.w.records.size(), "size", "%zu of %zu", (*db)->size(), s.w.records.size());
  std::vector<std::vector<XorWrapper<absl::uint128>>> sel;
  for (size_t i = 0; i < nb; ++i) {
    std::vector<XorWrapper<absl::uint128>> v((nb + 127) / 128, XorWrapper<absl::uint128>(0));
    v[i / 128] = XorWrapper<absl::uint128>(absl::uint128{1} << (i % 128));
    sel.push_back(v);
  }
  auto out = (*db)->InnerProductWith(sel);
  VH_CHECK(c, out.ok() && out->size() == nb, "inner_product_refused", "%s", S(out.status()).c_str());
  // Each record sits, padded, in exactly one of its buckets; the rest is zero.
  std::vector<bool> used(nb, false);
  std::map<std::string, std::vector<size_t>> where;
  for (size_t i = 0; i < nb; ++i) {
    auto& [k, v] = (*out)[i];
    VH_CHECK(c, k.size() == s.key_width && v.size() == s.width, "bucket_widths", "%zu, %zu", k.size(), v.size());
    where[k + v].push_back(i);
  }
  for (size_t e = 0; e < s.w.records.size(); ++e) {
    auto [k, v] = s.w.records[e];
    k.resize(s.key_width, '\0');
    v.resize(s.width, '\0');
    bool placed = false;
    for (size_t i : where[k + v]) {
      if (used[i]) continue;
      if (std::find(s.choices[e].begin(), s.choices[e].end(), static_cast<int>(i)) == s.choices[e].end()) continue;
      used[i] = placed = true;
      break;
    }
    VH_CHECK(c, placed, "record_not_in_its_buckets", "record %zu of %zu, %zu buckets", e, s.w.records.size(), nb);
  }
  for (size_t i = 0; i < nb; ++i) {
    if (!used[i]) {
      auto& [k, v] = (*out)[i];
      VH_CHECK(c, k.find_first_not_of('\0') == std::string::npos && v.find_first_not_of('\0') == std::string::npos, "dirty_empty_bucket", "%zu", i);
    }
  }
  c.Count("buckets_read", nb);
  c.Count("records_placed", s.w.records.size());
}

// Databases of the size the parameters were generated for are practically
// always built.
VH_GROUP(generated_parameters, 40, 1200) {
  Rng& r = c.rng;
  size_t n = 1 + r.below(c.thorough ? 3000 : 300);
  c.Desc("n=%zu", n);
  PirConfig config;
  config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(static_cast<int64_t>(n));
  std::set<std::string> seeds;
  int placeable = 0, built = 0;
  for (int k = 0; k < 12; ++k) {
    auto p = CuckooHashingSparseDpfPirServer::GenerateParams(config);
    VH_CHECK(c, p.ok(), "params_refused", "%s", S(p.status()).c_str());
    VH_CHECK(c, p->num_buckets() >= static_cast<int64_t>(n), "too_few_buckets", "%lld", (long long)p->num_buckets());
    VH_CHECK(c, seeds.insert(p->hash_family_config().seed()).second, "seed_reused", "%s", Hex(p->hash_family_config().seed()).c_str());
    Setup s;
    s.w.kind = CUCKOO;
    s.w.records = RandomRecords(r, n, false);
    *s.w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = *p;
    Finish(&s);
    auto db = CuckooDb(s.w);
    placeable += s.placeable;
    built += db.ok();
    VH_CHECK(c, db.ok() <= s.placeable, "placed_the_unplaceable", "%zu", n);
  }
  c.Count("placeable", static_cast<uint64_t>(placeable));
  c.Count("built", static_cast<uint64_t>(built));
  VH_CHECK(c, built >= placeable - 2, "databases_refused", "%d of %d with %zu records", placeable - built, placeable, n);
}

std::string Strip(std::string s) {
  while (!s.empty() && s.back() == '\0') s.pop_back();
  return s;
}

// Known limit of the padded comparison: strings equal up to trailing NUL bytes
// are not told apart. Anything else that goes wrong is reported under its own
// key.
VH_GROUP(zero_keys, 750, 8000) {
  Rng& r = c.rng;
  Setup s;
  std::vector<std::string> q;
  if (c.index == 0) {
    s.w.kind = CUCKOO;
    s.w.records = {{"key", "value"}, {"longer key", "other"}};
    auto& p = *s.w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
    p.mutable_hash_family_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
    p.mutable_hash_family_config()->set_seed("a seed");
    p.set_num_hash_functions(3);
    p.set_num_buckets(12);
    Finish(&s);
    q = {std::string(2, '\0'), std::string("key\0", 4)};
  } else {
    s = RandomSetup(c, true);
    q = RandomQueries(r, s.w, true);
    if (r.chance(1, 2)) {  // a stored key and one equal to it up to NULs
      auto& rec = s.w.records[r.below(s.w.records.size())];
      q.push_back(rec.first);
      q.push_back(rec.first + std::string(1 + r.below(3), '\0'));
      q.push_back(Strip(rec.first));
    }
  }
  c.Desc("n=%zu %s", s.w.records.size(), ParamsOf(s.w).ShortDebugString().c_str());
  std::map<std::string, std::string> model(s.w.records.begin(), s.w.records.end());
  Hybrid h(r.u64());
  auto p = MakePair(s.w, &h);
  if (!Built(c, s, p.status())) return;
  auto cl = MakeClient(s.w, &h);
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  Query query;
  query.keys = q;
  auto x = cl->CreateRequest(query);
  VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
  auto resp = (*p).leader->HandleRequest(x->first);
  VH_CHECK(c, resp.ok(), "leader_refused", "%s", S(resp.status()).c_str());
  auto a = cl->HandleResponse(*resp, x->second);
  VH_CHECK(c, a.ok() && a->size() == q.size(), "response_refused", "%s", S(a.status()).c_str());
  bool ambiguous = false;
  for (size_t i = 0; i < q.size(); ++i) {
    auto it = model.find(q[i]);
    absl::optional<std::string> want;
    if (it != model.end()) want = it->second, want->resize(s.width, '\0');
    auto& got = (*a)[i];
    if (got == want) {
      c.Count("right");
      continue;
    }
    // Explained if the answer is that of a record that equals the query up to
    // trailing NULs, or an empty bucket's.
    bool explained = false;
    if (got.has_value() && !q[i].empty()) {
      if (Strip(q[i]).empty() && *got == std::string(s.width, '\0')) explained = true;
      for (auto& [k, v] : model) {
        std::string padded = v;
        padded.resize(s.width, '\0');
        if (k != q[i] && Strip(k) == Strip(q[i]) && *got == padded) explained = true;
      }
    }
    if (!explained) {
      VH_CHECK(c, got.has_value(), "lost_key", "%s", Hex(q[i]).c_str());
      VH_CHECK(c, want.has_value(), "found_absent_key", "%s gave %s", Hex(q[i]).c_str(), Hex(*got).c_str());
      VH_CHECK(c, false, "wrong_value", "%s gave %s", Hex(q[i]).c_str(), Hex(*got).c_str());
    }
    ambiguous = true;
  }
  VH_CHECK(c, !ambiguous, "trailing_zero_ambiguity", "strings that differ in trailing NUL bytes only are not told apart");
}

VH_GROUP(refusals, 2000, 20000) {
  Rng& r = c.rng;
  Setup s = RandomSetup(c, false);
  c.Desc("n=%zu %s", s.w.records.size(), ParamsOf(s.w).ShortDebugString().c_str());
  if (!s.easy) return c.Trivial();
  Hybrid h(r.u64());
  const CuckooHashingParams good = ParamsOf(s.w);
  auto make = [&] { return *CuckooDb(s.w); };
  // Parameters.
  static const int64_t kBad[] = {0, -1, std::numeric_limits<int64_t>::min(), -77};
  CuckooHashingParams p = good;
  int k = static_cast<int>(r.below(3));
  if (k == 0) p.set_num_buckets(kBad[r.below(4)]);
  if (k == 1) p.set_num_hash_functions(static_cast<int>(r.chance(1, 2) ? 0 : -1 - static_cast<int>(r.below(1000))));
  if (k == 2) p.mutable_hash_family_config()->clear_hash_family();
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::CreatePlain(p, make()).status().code() == kInvalid, "server_params_accepted", "%s", p.ShortDebugString().c_str());
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::CreateHelper(p, make(), h.Decrypter()).status().code() == kInvalid, "helper_params_accepted", "%d", k);
  World bw = s.w;
  *bw.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = p;
  VH_CHECK(c, MakeClient(bw, &h).status().code() == kInvalid, "client_params_accepted", "%s", p.ShortDebugString().c_str());
  VH_CHECK(c, CuckooDb(bw).status().code() == kInvalid, "database_params_accepted", "%s", p.ShortDebugString().c_str());
  p = good;
  p.set_num_buckets(good.num_buckets() + (r.chance(1, 2) ? 1 : int64_t{1} << 32));
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::CreatePlain(p, make()).status().code() == kInvalid, "size_mismatch_accepted", "%s", p.ShortDebugString().c_str());
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::CreatePlain(good, nullptr).status().code() == kInvalid, "null_database", "plain");
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::CreateLeader(good, make(), nullptr).status().code() == kInvalid, "null_sender", "leader");
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::CreateHelper(good, make(), nullptr).status().code() == kInvalid, "null_decrypter", "helper");
  VH_CHECK(c, CuckooHashingSparseDpfPirClient::Create(s.w.params, nullptr).status().code() == kInvalid, "null_encrypter", "client");
  PirConfig config;
  config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  config.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(kBad[r.below(4)]);
  VH_CHECK(c, CuckooHashingSparseDpfPirServer::GenerateParams(config).status().code() == kInvalid, "config_accepted", "%s", config.ShortDebugString().c_str());
  // Servers and clients with different hash seeds do not talk to each other.
  World other = s.w;
  auto* hf = other.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params()->mutable_hash_family_config();
  std::string seed = hf->seed();
  if (r.chance(1, 2)) seed += "x"; else seed[r.below(seed.size())] ^= 1;
  hf->set_seed(seed);
  auto cl = MakeClient(other, &h), right = MakeClient(s.w, &h);
  auto pair = MakePair(s.w, &h);
  auto plain = MakeServer(s.w, PirRole::PLAIN);
  VH_CHECK(c, cl.ok() && right.ok() && pair.ok() && plain.ok(), "setup_refused", "%s %s", S(cl.status()).c_str(), S(pair.status()).c_str());
  Query q;
  q.keys = RandomQueries(r, s.w, false);
  auto req = cl->CreateRequest(q);
  auto pr = cl->CreatePlainRequests(q);
  VH_CHECK(c, req.ok() && pr.ok(), "request_refused", "%s", S(req.status()).c_str());
  VH_CHECK(c, (*pair).leader->HandleRequest(req->first).status().code() == kInvalid, "foreign_seed_accepted", "leader");
  VH_CHECK(c, (*plain)->HandleRequest(Wrap(std::get<0>(*pr))).status().code() == kInvalid, "foreign_seed_accepted", "plain");
  PirRequest to_helper;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = req->first.dpf_pir_request().leader_request().encrypted_helper_request();
  VH_CHECK(c, (*pair).helper->HandleRequest(to_helper).status().code() == kInvalid, "foreign_seed_accepted", "helper");
  VH_CHECK(c, (*plain)->HandleRequest(Wrap({})).status().code() == kInvalid, "no_keys_accepted", "plain");
  auto good_req = right->CreateRequest(q);
  VH_CHECK(c, good_req.ok(), "request_refused", "%s", S(good_req.status()).c_str());
  auto resp = (*pair).leader->HandleRequest(good_req->first);
  VH_CHECK(c, resp.ok(), "leader_refused", "%s", S(resp.status()).c_str());
  // States of other schemes.
  PirRequestClientState empty, dense, simple, short_seed = good_req->second;
  dense.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(good_req->second));
  simple.mutable_simple_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(StateSeed(good_req->second));
  for (auto& x : q.keys) simple.mutable_simple_hashing_sparse_dpf_pir_request_client_state()->add_query_strings(x);
  short_seed.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(r.bytes(r.below(16)));
  for (auto* st : {&empty, &dense, &simple, &short_seed}) {
    VH_CHECK(c, right->HandleResponse(*resp, *st).status().code() == kInvalid, "state_accepted", "%s", st->ShortDebugString().c_str());
  }
  VH_CHECK(c, right->HandleResponse(PirResponse(), good_req->second).status().code() == kInvalid, "response_accepted", "empty");
  std::map<std::string, std::string> model(s.w.records.begin(), s.w.records.end());
  Right(c, s, model, q.keys, right->HandleResponse(*resp, good_req->second), "after refusals");
  c.Count("refused_all");
}

}  // namespace
}  // namespace vh
