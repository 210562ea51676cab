// needs: pir
// C29: what the library offers for trying out PIR (requests, selections, records, databases) follows the protocol.
#include <algorithm>
#include <limits>
#include <set>

#include "common/pirutil.h"
#include "common/refdpf.h"
#include "common/vh.h"
#include "pir/testing/encrypt_decrypt.h"
#include "pir/testing/mock_pir_database.h"
#include "pir/testing/pir_selection_bits.h"
#include "pir/testing/request_generator.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
using pir_testing::RequestGenerator;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;
constexpr int kMax = std::numeric_limits<int>::max();

template <typename... A>
bool Holds(Case& c, bool ok, const char* key, const char* fmt, A... a) {
  if (!ok) c.Fail(key, fmt, a...);
  return ok;
}

int AnySize(Rng& r, int most) {
  switch (r.below(6)) {
    case 0: return 1 + static_cast<int>(r.below(4));
    case 1: return 126 + static_cast<int>(r.below(5));
    case 2: {
      int64_t n = (int64_t{1} << r.below(31)) + static_cast<int64_t>(r.below(3)) - 1;
      return static_cast<int>(std::max<int64_t>(1, std::min<int64_t>(n, most)));
    }
    case 3: return std::min(most, kMax - static_cast<int>(r.below(3)));
    default: return 1 + static_cast<int>(r.below(static_cast<uint64_t>(std::min(most, 3000))));
  }
}
std::vector<int> AnyIndices(Rng& r, int size) {
  std::vector<int> v(r.chance(1, 20) ? 0 : r.chance(1, 30) ? 40 + r.below(100) : 1 + r.below(6));
  for (int& x : v) {
    switch (r.below(5)) {
      case 0: x = 0; break;
      case 1: x = size - 1; break;
      case 2: x = std::min(size - 1, static_cast<int>(126 + r.below(4))); break;
      default: x = static_cast<int>(r.below(static_cast<uint64_t>(size)));
    }
  }
  return v;
}
int LogOf(int size) {
  int l = 0;
  while ((int64_t{1} << l) < size) ++l;
  return l;
}
// The two keys of each query select exactly the queried bit.
bool Selects(Case& c, const DpfPirRequest::PlainRequest& a, const DpfPirRequest::PlainRequest& b, const std::vector<int>& q, int size) {
  Rng& r = c.rng;
  int n = static_cast<int>(q.size());
  if (!Holds(c, a.dpf_key_size() == n && b.dpf_key_size() == n, "other_key_count", "%d and %d keys for %d queries", a.dpf_key_size(), b.dpf_key_size(), n)) return false;
  int ld = LogOf(size);
  RefDpf ref({RefLevel{ld, RT::Xor(128)}});
  for (int i = 0; i < n; ++i) {
    int block = q[static_cast<size_t>(i)] / 128;
    std::vector<u128> x{static_cast<u128>(block)};
    if (ld <= 6) {
      for (int j = 0; j < 1 << ld; ++j) x.push_back(static_cast<u128>(j));
    } else {
      for (int j = 0; j < 6; ++j) x.push_back(r.bits(ld));
      for (int j = 0; j < ld; j += 1 + static_cast<int>(r.below(4))) x.push_back(static_cast<u128>(block) ^ (u128{1} << j));
    }
    for (u128 p : x) {
      auto va = ref.Eval(a.dpf_key(i), 0, p), vb = ref.Eval(b.dpf_key(i), 0, p);
      if (!Holds(c, va && vb, "malformed_keys", "query %d of a database of %d records", i, size)) return false;
      u128 want = p == static_cast<u128>(block) ? u128{1} << (q[static_cast<size_t>(i)] % 128) : u128{0};
      if (!Holds(c, (va->v ^ vb->v) == want, "other_selection", "index %d of %d: block %llu", q[static_cast<size_t>(i)], size, static_cast<unsigned long long>(p))) return false;
      c.Count("selected_blocks");
    }
    if (!Holds(c, a.dpf_key(i).party() != b.dpf_key(i).party(), "same_party", "query %d", i)) return false;
  }
  return true;
}

VH_GROUP(requests, 3000, 40000) {
  Rng& r = c.rng;
  int size = AnySize(r, kMax);
  std::string context = r.chance(1, 4) ? std::string() : r.bytes(r.below(20));
  auto q = AnyIndices(r, size);
  c.Desc("size=%d queries=%zu first=%d v=%016llx", size, q.size(), q.empty() ? -1 : q[0], static_cast<unsigned long long>(r.u64()));
  rand::Reset(r.u64());
  auto g = RequestGenerator::Create(size, context);
  VH_CHECK(c, g.ok(), "generator_refused", "%s", S(g.status()).c_str());
  std::string seed((*g)->otp_seed());
  VH_CHECK(c, seed.size() == 16, "seed_size", "%zu", seed.size());
  bool drawn = false;
  std::string all;
  for (auto& d : rand::Log()) all += d.bytes;
  drawn = all.find(seed) != std::string::npos;
  VH_CHECK(c, drawn, "seed_not_drawn", "the pad's seed is not what the random source handed out");
  std::set<std::string> roots;
  size_t keys = 0;
  for (int round = 0; round < 2; ++round) {
    auto p = (*g)->CreateDpfPirPlainRequests(q);
    VH_CHECK(c, p.ok(), "plain_refused", "%s", S(p.status()).c_str());
    if (!Selects(c, p->first, p->second, q, size)) return;
    for (auto* s : {&p->first, &p->second})
      for (auto& k : s->dpf_key()) roots.insert(k.seed().SerializeAsString()), ++keys;
    auto l = (*g)->CreateDpfPirLeaderRequest(q);
    VH_CHECK(c, l.ok(), "leader_refused", "%s", S(l.status()).c_str());
    auto dec = pir_testing::CreateFakeHybridDecrypt();
    VH_CHECK(c, dec.ok(), "setup_refused", "no decrypter");
    auto open = (*dec)->Decrypt(l->encrypted_helper_request().encrypted_request(), context);
    VH_CHECK(c, open.ok(), "not_for_context", "%s", S(open.status()).c_str());
    DpfPirRequest::HelperRequest h;
    VH_CHECK(c, h.ParseFromString(*open), "helper_malformed", "%zu bytes", open->size());
    VH_CHECK(c, h.one_time_pad_seed() == seed, "other_seed", "the helper's pad is not the generator's");
    if (!Selects(c, l->plain_request(), h.plain_request(), q, size)) return;
    for (auto* s : {&l->plain_request(), &h.plain_request()})
      for (auto& k : s->dpf_key()) roots.insert(k.seed().SerializeAsString()), ++keys;
    c.Count("leader_requests");
  }
  VH_CHECK(c, roots.size() == keys, "repeated_seeds", "%zu seeds in %zu keys", roots.size(), keys);
  VH_CHECK(c, (*g)->otp_seed() == seed, "seed_changed", "between requests");
  // Refused whole.
  auto bad = q;
  int wrong = r.chance(1, 3) ? -1 - static_cast<int>(r.below(5)) : r.chance(1, 2) ? std::numeric_limits<int>::min() : size == kMax ? -1 : size + static_cast<int>(r.below(static_cast<uint64_t>(std::min(3, kMax - size))));
  bad.insert(bad.begin() + static_cast<long>(r.below(bad.size() + 1)), wrong);
  auto p = (*g)->CreateDpfPirPlainRequests(bad);
  VH_CHECK(c, !p.ok() && p.status().code() == kInvalid, "index_accepted", "%d of %d: %s", wrong, size, S(p.status()).c_str());
  auto l = (*g)->CreateDpfPirLeaderRequest(bad);
  VH_CHECK(c, !l.ok() && l.status().code() == kInvalid, "index_accepted_by_leader", "%d of %d", wrong, size);
  static const int kNone[] = {0, -1, -128, std::numeric_limits<int>::min()};
  int none = kNone[r.below(4)];
  auto no = RequestGenerator::Create(none, context);
  VH_CHECK(c, !no.ok() && no.status().code() == kInvalid, "size_accepted", "%d", none);
}

// The requests are answered by the dense servers with the records.
VH_GROUP(answers, 400, 6000) {
  Rng& r = c.rng;
  World w;
  w.kind = DENSE;
  int size = r.chance(1, 12) ? 1000 + static_cast<int>(r.below(1100)) : std::min(AnySize(r, 600), 600);
  c.Desc("size=%d v=%016llx", size, static_cast<unsigned long long>(r.u64()));
  rand::Reset(r.u64());
  size_t width = 1 + r.below(60);
  for (int i = 0; i < size; ++i) w.records.emplace_back("", r.bytes(width));
  w.config.mutable_dense_dpf_pir_config()->set_num_elements(size);
  auto g = RequestGenerator::Create(size, w.Context());
  VH_CHECK(c, g.ok(), "generator_refused", "%s", S(g.status()).c_str());
  auto dec = pir_testing::CreateFakeHybridDecrypt();
  VH_CHECK(c, dec.ok(), "setup_refused", "no decrypter");
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, [&](absl::string_view x, absl::string_view info) { return (*dec)->Decrypt(x, info); });
  VH_CHECK(c, plain.ok() && helper.ok(), "setup_refused", "%s", S(helper.status()).c_str());
  auto leader = MakeServer(w, PirRole::LEADER, [&](const PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
    wait();
    return (*helper)->HandleRequest(q);
  });
  VH_CHECK(c, leader.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  auto q = AnyIndices(r, size);
  if (q.empty()) q.push_back(0);
  auto p = (*g)->CreateDpfPirPlainRequests(q);
  VH_CHECK(c, p.ok(), "plain_refused", "%s", S(p.status()).c_str());
  auto a = (*plain)->HandleRequest(Wrap(p->first)), b = (*plain)->HandleRequest(Wrap(p->second));
  VH_CHECK(c, a.ok() && b.ok(), "answer_refused", "%s %s", S(a.status()).c_str(), S(b.status()).c_str());
  auto x = XorResponses(*a, *b);
  VH_CHECK(c, x && x->size() == q.size(), "other_answer_shape", "%zu queries", q.size());
  auto same = [&](const std::string& got, size_t i) { return got.substr(0, width) == w.records[static_cast<size_t>(q[i])].second; };
  for (size_t i = 0; i < q.size(); ++i) VH_CHECK(c, same((*x)[i], i), "other_record", "index %d of %d", q[i], size);
  auto l = (*g)->CreateDpfPirLeaderRequest(q);
  VH_CHECK(c, l.ok(), "leader_refused", "%s", S(l.status()).c_str());
  PirRequest lr;
  *lr.mutable_dpf_pir_request()->mutable_leader_request() = *l;
  auto m = (*leader)->HandleRequest(lr);
  VH_CHECK(c, m.ok(), "leader_answer_refused", "%s", S(m.status()).c_str());
  VH_CHECK(c, m->dpf_pir_response().masked_response_size() == static_cast<int>(q.size()), "other_answer_shape", "%zu queries", q.size());
  size_t total = 0;
  for (auto& s : m->dpf_pir_response().masked_response()) total += s.size();
  std::string pad = PadStream(std::string((*g)->otp_seed()), total);
  size_t at = 0;
  for (size_t i = 0; i < q.size(); ++i) {
    std::string s = m->dpf_pir_response().masked_response(static_cast<int>(i));
    for (char& ch : s) ch ^= pad[at++];
    VH_CHECK(c, same(s, i), "other_masked_record", "index %d of %d", q[i], size);
  }
  c.Count("answered", 2 * q.size());
}

// Seeds of different generators are different.
VH_GROUP(generators, 60, 600) {
  Rng& r = c.rng;
  rand::Reset(r.u64());
  std::set<std::string> seeds;
  size_t n = 2 + r.below(40);
  c.Desc("n=%zu v=%016llx", n, static_cast<unsigned long long>(r.u64()));
  for (size_t i = 0; i < n; ++i) {
    auto g = RequestGenerator::Create(AnySize(r, 5000), "x");
    VH_CHECK(c, g.ok(), "generator_refused", "%s", S(g.status()).c_str());
    seeds.insert(std::string((*g)->otp_seed()));
  }
  VH_CHECK(c, seeds.size() == n, "shared_seed", "%zu seeds of %zu generators", seeds.size(), n);
  c.Count("generators", n);
}

template <typename T>
u128 Bits(const XorWrapper<T>& x) {
  if constexpr (std::is_same_v<T, absl::uint128>) return u128{absl::Uint128High64(x.value())} << 64 | absl::Uint128Low64(x.value());
  else return static_cast<u128>(x.value());
}

template <typename T>
void Packs(Case& c) {
  using B = XorWrapper<T>;
  constexpr size_t kBits = 8 * sizeof(T);
  Rng& r = c.rng;
  size_t n = r.chance(1, 12) ? 0 : r.chance(1, 3) ? kBits * (1 + r.below(5)) + r.below(3) - 1 : r.below(700);
  c.Desc("%zu bits of %zu v=%016llx", kBits, n, static_cast<unsigned long long>(r.u64()));
  std::vector<bool> sel(n);
  uint64_t density = r.below(4);
  for (size_t i = 0; i < n; ++i) sel[i] = density == 0 ? false : density == 1 ? true : density == 2 ? r.chance(1, 50) : r.chance(1, 2);
  auto blocks = pir_testing::PackSelectionBits<B>(sel);
  VH_CHECK(c, blocks.size() == (n + kBits - 1) / kBits, "other_block_count", "%zu blocks for %zu bits", blocks.size(), n);
  for (size_t i = 0; i < blocks.size() * kBits; ++i) {
    bool want = i < n && sel[i];
    VH_CHECK(c, ((Bits(blocks[i / kBits]) >> (i % kBits)) & 1) == static_cast<u128>(want), "other_bit", "bit %zu of %zu", i, n);
  }
  int bits = static_cast<int>(r.chance(1, 10) ? 0 : r.below(3000));
  auto some = pir_testing::GenerateRandomPackedSelectionBits<B>(bits);
  VH_CHECK(c, some.size() == (static_cast<size_t>(bits) + kBits - 1) / kBits, "other_random_block_count", "%zu blocks for %d bits", some.size(), bits);
  if (some.size() * kBits >= 512) {
    size_t set = 0, total = some.size() * kBits;
    for (auto& b : some)
      for (size_t j = 0; j < kBits; ++j) set += static_cast<size_t>((Bits(b) >> j) & 1);
    // Twelve standard deviations.
    double off = static_cast<double>(set) - static_cast<double>(total) / 2;
    VH_CHECK(c, off * off < 36.0 * static_cast<double>(total), "biased_selection", "%zu of %zu bits are set", set, total);
    auto again = pir_testing::GenerateRandomPackedSelectionBits<B>(bits);
    VH_CHECK(c, !std::equal(again.begin(), again.end(), some.begin(), some.end(), [](const B& a, const B& b) { return Bits(a) == Bits(b); }), "repeated_selection", "%d bits", bits);
    c.Count("random_selections");
  }
  // Sums of records.
  std::vector<std::string> values(n);
  size_t width = 0;
  for (auto& v : values) {
    v = r.bytes(r.chance(1, 6) ? 0 : r.below(40));
    width = std::max(width, v.size());
  }
  std::string want(width, '\0');
  for (size_t i = 0; i < n; ++i)
    if (sel[i])
      for (size_t j = 0; j < values[i].size(); ++j) want[j] = static_cast<char>(want[j] ^ values[i][j]);
  auto got = pir_testing::InnerProductWithUnpacked(sel, values);
  VH_CHECK(c, got.ok(), "product_refused", "%s", S(got.status()).c_str());
  VH_CHECK(c, *got == want, "other_product", "%zu records", n);
  auto fewer = sel;
  if (r.chance(1, 2) || fewer.empty()) fewer.push_back(false); else fewer.pop_back();
  auto no = pir_testing::InnerProductWithUnpacked(fewer, values);
  VH_CHECK(c, !no.ok() && no.status().code() == kInvalid, "sizes_accepted", "%zu selections, %zu records", fewer.size(), n);
  if constexpr (std::is_same_v<T, absl::uint128>) {
    if (n > 0 && width > 0) {
      auto db = pir_testing::CreateFakeDatabase<DenseDpfPirDatabase>(values);
      VH_CHECK(c, db.ok(), "database_refused", "%s", S(db.status()).c_str());
      auto p = (*db)->InnerProductWith({blocks});
      VH_CHECK(c, p.ok() && p->size() == 1 && (*p)[0] == want, "database_differs", "%zu records of up to %zu bytes", n, width);
      c.Count("database_products");
    }
  }
  c.Count("packed_bits", n);
}
VH_GROUP(selections, 6000, 80000) {
  switch (c.index % 5) {
    case 0: return Packs<uint8_t>(c);
    case 1: return Packs<uint16_t>(c);
    case 2: return Packs<uint32_t>(c);
    case 3: return Packs<uint64_t>(c);
    default: return Packs<absl::uint128>(c);
  }
}

VH_GROUP(records, 4000, 60000) {
  Rng& r = c.rng;
  int n = r.chance(1, 10) ? 0 : r.chance(1, 20) ? 1000 + static_cast<int>(r.below(3000)) : static_cast<int>(r.below(60));
  int size = r.chance(1, 10) ? 0 : r.chance(1, 20) ? 5000 : 1 + static_cast<int>(r.below(70));
  int neg = r.chance(1, 2) ? -1 : std::numeric_limits<int>::min();
  c.Desc("n=%d size=%d v=%016llx", n, size, static_cast<unsigned long long>(r.u64()));
  auto invalid = [&](const absl::StatusOr<std::vector<std::string>>& x, const char* what) {
    return Holds(c, !x.ok() && x.status().code() == kInvalid, "negative_accepted", "%s", what);
  };
  std::string prefix = r.bytes(r.below(6));
  auto a = pir_testing::GenerateCountingStrings(n, prefix);
  VH_CHECK(c, a.ok() && a->size() == static_cast<size_t>(n), "counting_refused", "%s", S(a.status()).c_str());
  for (int i = 0; i < n; ++i) VH_CHECK(c, (*a)[static_cast<size_t>(i)] == prefix + std::to_string(i), "other_counting", "string %d of %d", i, n);
  rand::Reset(r.u64());
  auto check = [&](const absl::StatusOr<std::vector<std::string>>& x, const char* what, size_t want, auto fits) {
    if (!Holds(c, x.ok() && x->size() == want, "random_refused", "%s: %s", what, S(x.status()).c_str())) return false;
    std::string drawn, all;
    for (auto& d : rand::Log()) drawn += d.bytes;
    for (size_t i = 0; i < x->size(); ++i) {
      if (!Holds(c, fits(i, (*x)[i].size()), "other_size", "%s: string %zu has %zu bytes", what, i, (*x)[i].size())) return false;
      all += (*x)[i];
    }
    c.Count("random_strings", x->size());
    return Holds(c, all == drawn, "not_random", "%s: the strings are not the %zu bytes the random source handed out", what, drawn.size());
  };
  std::vector<int> sizes(static_cast<size_t>(n));
  for (int& s : sizes) s = r.chance(1, 5) ? 0 : static_cast<int>(r.below(50));
  rand::Reset(r.u64());
  if (!check(pir_testing::GenerateRandomStrings(sizes), "sizes", sizes.size(), [&](size_t i, size_t s) { return s == static_cast<size_t>(sizes[i]); })) return;
  rand::Reset(r.u64());
  if (!check(pir_testing::GenerateRandomStringsEqualSize(n, size), "equal", static_cast<size_t>(n), [&](size_t, size_t s) { return s == static_cast<size_t>(size); })) return;
  int diff = static_cast<int>(r.below(static_cast<uint64_t>(size) + 1));
  rand::Reset(r.u64());
  if (!check(pir_testing::GenerateRandomStringsVariableSize(n, size, diff), "variable", static_cast<size_t>(n),
             [&](size_t, size_t s) { return s + static_cast<size_t>(diff) >= static_cast<size_t>(size) && s <= static_cast<size_t>(size + diff); })) return;
  auto bad = sizes;
  bad.insert(bad.begin() + static_cast<long>(r.below(bad.size() + 1)), neg);
  if (!invalid(pir_testing::GenerateCountingStrings(neg, prefix), "count") || !invalid(pir_testing::GenerateRandomStrings(bad), "sizes") ||
      !invalid(pir_testing::GenerateRandomStringsEqualSize(neg, size), "equal count") || !invalid(pir_testing::GenerateRandomStringsEqualSize(n, neg), "equal size") ||
      !invalid(pir_testing::GenerateRandomStringsVariableSize(neg, size, diff), "variable count") ||
      !invalid(pir_testing::GenerateRandomStringsVariableSize(n, neg, diff), "variable size") ||
      !invalid(pir_testing::GenerateRandomStringsVariableSize(n, size, neg), "variable difference")) return;
}

// Databases made from records hold them in their order, after what the builder held.
VH_GROUP(databases, 1500, 20000) {
  Rng& r = c.rng;
  std::vector<std::string> before(r.chance(1, 2) ? 0 : r.below(5)), values(1 + r.below(r.chance(1, 5) ? 300 : 30));
  for (auto* v : {&before, &values})
    for (auto& x : *v) x = r.bytes(1 + r.below(20));
  c.Desc("n=%zu+%zu v=%016llx", before.size(), values.size(), static_cast<unsigned long long>(r.u64()));
  DenseDpfPirDatabase::Builder b;
  for (auto& x : before) b.Insert(x);
  auto db = before.empty() && r.chance(1, 2) ? pir_testing::CreateFakeDatabase<DenseDpfPirDatabase>(values)
                                             : pir_testing::CreateFakeDatabase<DenseDpfPirDatabase>(values, &b);
  VH_CHECK(c, db.ok(), "database_refused", "%s", S(db.status()).c_str());
  auto all = before;
  all.insert(all.end(), values.begin(), values.end());
  VH_CHECK(c, (*db)->size() == all.size(), "other_size", "%zu instead of %zu", (*db)->size(), all.size());
  size_t width = 0;
  for (auto& x : all) width = std::max(width, x.size());
  for (int k = 0; k < 6; ++k) {
    size_t i = k == 0 ? 0 : k == 1 ? all.size() - 1 : r.below(all.size());
    std::vector<bool> sel(all.size());
    sel[i] = true;
    auto p = (*db)->InnerProductWith({pir_testing::PackSelectionBits<DenseDpfPirDatabase::BlockType>(sel)});
    std::string want = all[i];
    want.resize(width);
    VH_CHECK(c, p.ok() && p->size() == 1 && (*p)[0] == want, "other_record", "record %zu of %zu", i, all.size());
    c.Count("records_read");
  }
}

}  // namespace
}  // namespace vh
