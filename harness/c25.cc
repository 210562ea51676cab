// needs: pir
// C25: database builders behave as values with a one-shot build.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/vh.h"
#include "google/protobuf/io/coded_stream.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
using KV = std::pair<std::string, std::string>;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;
constexpr auto kBuilt = absl::StatusCode::kFailedPrecondition;
using Block = XorWrapper<absl::uint128>;

std::vector<std::vector<Block>> Units(size_t n) {
  std::vector<std::vector<Block>> sel;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Block> v((n + 127) / 128, Block(0));
    v[i / 128] = Block(absl::uint128{1} << (i % 128));
    sel.push_back(v);
  }
  return sel;
}

// A record in the form each builder takes.
KV RandomKV(Rng& r, bool large = false) {
  if (large) return {absl::StrCat("large key ", r.u64(), std::string(r.chance(1, 9) ? r.below(600) : 0, 'y')), r.bytes(r.below(r.chance(1, 9) ? 5000 : 300))};
  KV kv{r.chance(1, 3) ? absl::StrCat("k", r.below(12)) : r.bytes(1 + r.below(8)), r.bytes(r.below(r.chance(1, 6) ? 60 : 12))};
  if (kv.first.back() == '\0') kv.first.back() = 'x';
  return kv;
}

// What a builder should hold.
struct Model {
  std::vector<KV> records;
  bool built = false;
  int params = 0;  // 0: none yet
};

template <typename B>
struct Traits;

template <>
struct Traits<DenseDpfPirDatabase::Builder> {
  using B = DenseDpfPirDatabase::Builder;
  static void Insert(B& b, const KV& x) { b.Insert(x.second); }
  static bool NeedsParams() { return false; }
  static void SetParams(B&, int) {}
  static void SetParts(Rng&, B&) {}
};

HashFamilyConfig Family(int id) {
  HashFamilyConfig f;
  f.set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  f.set_seed(absl::StrCat("family ", id));
  return f;
}
constexpr int kParams = 5;
int64_t Buckets(bool cuckoo, int id) { return cuckoo ? (id % 2 ? 80 : 131) : int64_t{1} + 9 * (id - 1); }

// A dense builder with leftovers of its own.
std::unique_ptr<DenseDpfPirDatabase::Interface::Builder> Used(Rng& r) {
  auto d = std::make_unique<DenseDpfPirDatabase::Builder>();
  for (size_t i = 0; i < r.below(4); ++i) d->Insert(r.bytes(r.below(30)));
  if (r.chance(1, 3)) (void)d->Build();
  return d;
}

template <>
struct Traits<CuckooHashedDpfPirDatabase::Builder> {
  using B = CuckooHashedDpfPirDatabase::Builder;
  static void Insert(B& b, const KV& x) { b.Insert(x); }
  static bool NeedsParams() { return true; }
  static CuckooHashingParams Params(int id) {
    CuckooHashingParams p;
    p.set_num_buckets(Buckets(true, id));
    p.set_num_hash_functions(3);
    *p.mutable_hash_family_config() = Family(id);
    return p;
  }
  static void SetParams(B& b, int id) { b.SetParams(id > 0 ? Params(id) : CuckooHashingParams()); }
  static void SetParts(Rng& r, B& b) {
    if (r.chance(1, 2)) b.SetKeyDatabaseBuilder(r.chance(1, 5) ? nullptr : Used(r));
    if (r.chance(1, 2)) b.SetValueDatabaseBuilder(r.chance(1, 5) ? nullptr : Used(r));
  }
};
template <>
struct Traits<SimpleHashedDpfPirDatabase::Builder> {
  using B = SimpleHashedDpfPirDatabase::Builder;
  static void Insert(B& b, const KV& x) { b.Insert(x); }
  static bool NeedsParams() { return true; }
  static SimpleHashingParams Params(int id) {
    SimpleHashingParams p;
    p.set_num_buckets(Buckets(false, id));
    *p.mutable_hash_family_config() = Family(id);
    return p;
  }
  static void SetParams(B& b, int id) { b.SetParams(id > 0 ? Params(id) : SimpleHashingParams()); }
  static void SetParts(Rng& r, B& b) {
    if (r.chance(1, 2)) b.SetDenseDatabaseBuilder(r.chance(1, 5) ? nullptr : Used(r));
  }
};

// Compares a database with the model, as far as it can be read back.
void Audit(Case& c, const PirDatabaseInterface<Block, std::string>& db, const Model& m, const std::string& what) {
  size_t width = 0;
  for (auto& x : m.records) width = std::max(width, x.second.size());
  VH_CHECK(c, db.size() == m.records.size() && db.num_selection_bits() == m.records.size(), "size", "%s: %zu of %zu", what.c_str(), db.size(), m.records.size());
  if (m.records.empty() || width == 0) return;
  auto out = db.InnerProductWith(Units(m.records.size()));
  VH_CHECK(c, out.ok(), "inner_product_refused", "%s: %s", what.c_str(), S(out.status()).c_str());
  for (size_t i = 0; i < m.records.size(); ++i) {
    std::string want = m.records[i].second;
    want.resize(width, '\0');
    VH_CHECK(c, (*out)[i] == want, "record", "%s: record %zu of %zu: %s, want %s", what.c_str(), i, m.records.size(), Hex((*out)[i]).c_str(), Hex(want).c_str());
  }
  c.Count("records_read", m.records.size());
}

void Audit(Case& c, const PirDatabaseInterface<Block, KV>& db, const Model& m, const std::string& what) {
  std::map<std::string, std::string> want;
  for (auto& x : m.records) want.insert(x);
  size_t kw = 0, vw = 0, nb = static_cast<size_t>(Buckets(true, m.params));
  for (auto& x : want) kw = std::max(kw, x.first.size()), vw = std::max(vw, x.second.size());
  VH_CHECK(c, db.size() == want.size(), "size", "%s: %zu of %zu", what.c_str(), db.size(), want.size());
  VH_CHECK(c, db.num_selection_bits() == nb, "selection_bits", "%s: %zu of %zu", what.c_str(), db.num_selection_bits(), nb);
  if (vw == 0) return;
  auto fs = FunctionsOf(Family(m.params), 3);
  auto out = db.InnerProductWith(Units(nb));
  VH_CHECK(c, out.ok(), "inner_product_refused", "%s: %s", what.c_str(), S(out.status()).c_str());
  size_t filled = 0;
  for (auto& [k, v] : *out) filled += k.find_first_not_of('\0') != std::string::npos;
  VH_CHECK(c, filled == want.size(), "foreign_records", "%s: %zu of %zu", what.c_str(), filled, want.size());
  for (auto x : want) {
    bool found = false;
    std::string k = x.first, v = x.second;
    k.resize(kw, '\0');
    v.resize(vw, '\0');
    for (auto& f : fs) found = found || (*out)[static_cast<size_t>(f(x.first, static_cast<int>(nb)))] == KV(k, v);
    VH_CHECK(c, found, "record", "%s: %s -> %s of %zu", what.c_str(), Hex(x.first).c_str(), Hex(x.second).c_str(), want.size());
  }
  c.Count("records_read", want.size());
}

struct SimpleTag {};
void AuditSimple(Case& c, const PirDatabaseInterface<Block, KV, std::string>& db, const Model& m, const std::string& what) {
  size_t nb = static_cast<size_t>(Buckets(false, m.params));
  VH_CHECK(c, db.size() == m.records.size(), "size", "%s: %zu of %zu", what.c_str(), db.size(), m.records.size());
  VH_CHECK(c, db.num_selection_bits() == nb, "selection_bits", "%s: %zu of %zu", what.c_str(), db.num_selection_bits(), nb);
  if (m.records.empty()) return;
  auto fs = FunctionsOf(Family(m.params), 1);
  std::vector<std::vector<KV>> want(nb);
  for (auto& x : m.records) want[static_cast<size_t>(fs[0](x.first, static_cast<int>(nb)))].push_back(x);
  auto out = db.InnerProductWith(Units(nb));
  VH_CHECK(c, out.ok(), "inner_product_refused", "%s: %s", what.c_str(), S(out.status()).c_str());
  for (size_t i = 0; i < nb; ++i) {
    HashedPirDatabaseBucket b;
    google::protobuf::io::CodedInputStream in(reinterpret_cast<const uint8_t*>((*out)[i].data()), static_cast<int>((*out)[i].size()));
    bool same = b.ParseFromCodedStream(&in) && b.keys_size() == static_cast<int>(want[i].size()) && b.values_size() == b.keys_size();
    for (int j = 0; same && j < b.keys_size(); ++j) same = want[i][static_cast<size_t>(j)] == KV(b.keys(j), b.values(j));
    VH_CHECK(c, same, "record", "%s: bucket %zu of %zu: %s", what.c_str(), i, nb, b.ShortDebugString().c_str());
  }
  c.Count("records_read", m.records.size());
}
void Audit(Case& c, const PirDatabaseInterface<Block, KV, std::string>& db, const Model& m, const std::string& what) { AuditSimple(c, db, m, what); }

template <typename B>
void History(Case& c) {
  using T = Traits<B>;
  using I = typename std::remove_reference_t<decltype(*std::declval<B>().Build().value())>;
  Rng& r = c.rng;
  struct Slot {
    std::unique_ptr<B> b;
    Model m;
  };
  std::vector<Slot> slots;
  std::vector<std::pair<std::unique_ptr<I>, Model>> dbs;
  std::string trace;
  slots.push_back({std::make_unique<B>(), {}});
  // Now and then many and long records.
  bool large = c.index % 50 == 49;
  size_t most = !large ? 25 : std::is_same_v<B, CuckooHashedDpfPirDatabase::Builder> ? 30 : 700;
  int steps = static_cast<int>(5 + r.below(c.thorough ? 60 : 30));
  c.Desc("steps=%d v=%016llx", steps, (unsigned long long)r.u64());
  if (T::NeedsParams() && r.chance(7, 8)) {
    slots[0].m.params = static_cast<int>(1 + r.below(kParams));
    T::SetParams(*slots[0].b, slots[0].m.params);
  }
  for (int k = 0; k < steps; ++k) {
    size_t at = r.below(slots.size());
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: case 4: {
        size_t n = large ? 1 + r.below(most) : 1 + r.below(4);
        for (size_t i = 0; i < n && slots[at].m.records.size() < most; ++i) {
          KV x = RandomKV(r, large);
          slots[at].m.records.push_back(x);
          T::Insert(*slots[at].b, x);
        }
        trace += absl::StrCat(" insert", at);
        break;
      }
      case 5: case 6: {
        if (slots.size() >= 6) break;
        auto copy = slots[at].b->Clone();
        B* as = dynamic_cast<B*>(copy.get());
        VH_CHECK(c, as != nullptr, "clone_type", "%s", trace.c_str());
        copy.release();
        slots.push_back({std::unique_ptr<B>(as), slots[at].m});
        trace += absl::StrCat(" clone", at);
        c.Count("clones");
        break;
      }
      case 7:
        slots[at].b->Clear();
        slots[at].m.records.clear();
        slots[at].m.built = false;
        trace += absl::StrCat(" clear", at);
        break;
      case 8: {
        if (!T::NeedsParams()) break;
        slots[at].m.params = r.chance(1, 8) ? 0 : static_cast<int>(1 + r.below(kParams));
        T::SetParams(*slots[at].b, slots[at].m.params);
        T::SetParts(r, *slots[at].b);
        trace += absl::StrCat(" params", at, "=", slots[at].m.params);
        break;
      }
      case 9:
        if (slots.size() > 1 && r.chance(1, 2)) {
          slots.erase(slots.begin() + static_cast<long>(at));
          trace += absl::StrCat(" drop", at);
        }
        break;
      default: {
        Model& m = slots[at].m;
        // Records may have been inserted after the last build; that is not a
        // use with a documented meaning.
        trace += absl::StrCat(" build", at);
        auto db = slots[at].b->Build();
        if (m.built) {
          VH_CHECK(c, db.status().code() == kBuilt, "second_build", "%s: %s", trace.c_str(), S(db.status()).c_str());
          c.Count("second_builds_refused");
          break;
        }
        m.built = true;
        if (T::NeedsParams() && m.params == 0) {
          VH_CHECK(c, db.status().code() == kInvalid, "no_params", "%s: %s", trace.c_str(), S(db.status()).c_str());
          c.Count("no_params_refused");
          break;
        }
        VH_CHECK(c, db.ok(), "build_refused", "%s (%zu records): %s", trace.c_str(), m.records.size(), S(db.status()).c_str());
        Audit(c, **db, m, trace);
        if (c.failed()) return;
        dbs.emplace_back(*std::move(db), m);
        c.Count("built");
      }
    }
  }
  // Nothing that happened since changed what was built.
  slots.clear();
  for (auto& [db, m] : dbs) {
    Audit(c, *db, m, "later:" + trace);
    if (c.failed()) return;
  }
  c.Count("audited_later", dbs.size());
  if (large) c.Count("large_histories");
}

// One builder filled, cloned, built and cleared over and over.
template <typename B>
void Cycles(Case& c) {
  using T = Traits<B>;
  Rng& r = c.rng;
  int n = 270 + static_cast<int>(r.below(200));
  c.Desc("%d cycles v=%016llx", n, (unsigned long long)r.u64());
  auto b = std::make_unique<B>();
  Model m;
  m.params = T::NeedsParams() ? static_cast<int>(1 + r.below(kParams)) : 0;
  T::SetParams(*b, m.params);
  for (int k = 0; k < n && !c.failed(); ++k) {
    for (size_t i = 0, e = r.below(5); i < e; ++i) {
      KV x = RandomKV(r);
      m.records.push_back(x);
      T::Insert(*b, x);
    }
    std::string what = absl::StrCat("cycle ", k);
    if (r.chance(1, 3)) {
      auto copy = b->Clone();
      auto db = copy->Build();
      VH_CHECK(c, db.ok(), "build_refused", "clone, %s (%zu records): %s", what.c_str(), m.records.size(), S(db.status()).c_str());
      Audit(c, **db, m, "clone, " + what);
    }
    if (r.chance(1, 8)) {  // go on with a clone
      auto copy = b->Clone();
      B* as = dynamic_cast<B*>(copy.get());
      VH_CHECK(c, as != nullptr, "clone_type", "%s", what.c_str());
      copy.release();
      b.reset(as);
    }
    if (m.records.size() < 25 && r.chance(1, 4)) continue;
    if (r.chance(7, 8)) {
      auto db = b->Build();
      VH_CHECK(c, db.ok(), "build_refused", "%s (%zu records): %s", what.c_str(), m.records.size(), S(db.status()).c_str());
      Audit(c, **db, m, what);
      if (r.chance(1, 6)) {
        auto again = b->Build();
        VH_CHECK(c, again.status().code() == kBuilt, "second_build", "%s: %s", what.c_str(), S(again.status()).c_str());
      }
    }
    b->Clear();
    m.records.clear();
    c.Count("cycles");
  }
}
VH_GROUP(long_life, 60, 600) {
  switch (c.index % 3) {
    case 0: return Cycles<DenseDpfPirDatabase::Builder>(c);
    case 1: return Cycles<CuckooHashedDpfPirDatabase::Builder>(c);
    default: return Cycles<SimpleHashedDpfPirDatabase::Builder>(c);
  }
}

VH_GROUP(dense, 10000, 60000) { History<DenseDpfPirDatabase::Builder>(c); }
VH_GROUP(cuckoo, 6000, 40000) { History<CuckooHashedDpfPirDatabase::Builder>(c); }
VH_GROUP(simple, 10000, 60000) { History<SimpleHashedDpfPirDatabase::Builder>(c); }

// Builds that must be refused, and that a refused build can be retried after a
// clear.
template <typename B, typename P>
void Refusal(Case& c, const char* name) {
  using T = Traits<B>;
  Rng& r = c.rng;
  Model m;
  size_t n = 1 + r.below(8);
  for (size_t i = 0; i < n; ++i) m.records.push_back(RandomKV(r));
  m.records[0].second = "value";
  c.Desc("%s n=%zu v=%016llx", name, n, (unsigned long long)r.u64());
  auto fill = [&](B& b, const std::vector<KV>& recs) {
    for (auto& x : recs) T::Insert(b, x);
  };
  // Parameters one by one.
  static const int64_t kBad[] = {0, -1, std::numeric_limits<int64_t>::min()};
  std::vector<P> bad;
  P p = T::Params(1);
  p.set_num_buckets(kBad[r.below(3)]);
  bad.push_back(p);
  p = T::Params(1);
  p.clear_hash_family_config();
  bad.push_back(p);
  p = T::Params(1);
  p.mutable_hash_family_config()->clear_seed();
  bad.push_back(p);
  p = T::Params(1);
  p.mutable_hash_family_config()->clear_hash_family();
  bad.push_back(p);
  if constexpr (std::is_same_v<P, CuckooHashingParams>) {
    p = T::Params(1);
    p.set_num_hash_functions(static_cast<int>(kBad[r.below(2)]));
    bad.push_back(p);
  }
  for (auto& x : bad) {
    B b;
    if (r.chance(1, 2)) T::SetParams(b, 2);
    b.SetParams(x);
    fill(b, m.records);
    auto s = b.Build();
    VH_CHECK(c, s.status().code() == kInvalid, "bad_params", "%s: %s", x.ShortDebugString().c_str(), S(s.status()).c_str());
    VH_CHECK(c, b.Build().status().code() == kBuilt, "second_build", "after refusal");
    // Clear and right parameters mend it.
    b.Clear();
    T::SetParams(b, 3);
    fill(b, m.records);
    auto db = b.Build();
    m.params = 3;
    VH_CHECK(c, db.ok(), "build_refused", "after refusal: %s", S(db.status()).c_str());
    Audit(c, **db, m, "after refusal");
    if (c.failed()) return;
  }
  // An empty key among others.
  B b;
  T::SetParams(b, 2);
  auto recs = m.records;
  recs.insert(recs.begin() + static_cast<long>(r.below(recs.size() + 1)), KV("", r.bytes(3)));
  fill(b, recs);
  auto s = b.Build();
  VH_CHECK(c, s.status().code() == kInvalid, "empty_key", "%s", S(s.status()).c_str());
  VH_CHECK(c, b.Build().status().code() == kBuilt, "second_build", "after empty key");
  b.Clear();
  fill(b, m.records);
  auto db = b.Build();
  m.params = 2;
  VH_CHECK(c, db.ok(), "build_refused", "after empty key: %s", S(db.status()).c_str());
  Audit(c, **db, m, "after empty key");
  c.Count("refusals");
}

VH_GROUP(refusals, 4800, 30000) {
  if (c.index % 2) Refusal<CuckooHashedDpfPirDatabase::Builder, CuckooHashingParams>(c, "cuckoo");
  else Refusal<SimpleHashedDpfPirDatabase::Builder, SimpleHashingParams>(c, "simple");
}

}  // namespace
}  // namespace vh
