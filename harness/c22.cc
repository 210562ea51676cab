// needs: pir
// C22: simple and multiple-choice tables place every element where it belongs.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "common/vh.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;
using Table = std::vector<std::vector<std::string>>;

enum Kind { SHA, FARM, FEW, CONST, IDENT };

int Eval(Kind kind, uint64_t salt, int j, absl::string_view in, int bound) {
  switch (kind) {
    case SHA: return SHA256HashFunction(absl::StrCat(salt, j))(in, bound);
    case FARM: return FarmHashFunction(absl::StrCat(salt, j))(in, bound);
    case FEW: return static_cast<int>(Mix(Hash(in), salt + static_cast<uint64_t>(j)) % static_cast<uint64_t>(std::min(bound, 3)));
    case CONST: return static_cast<int>(Mix(Hash(in), salt) % static_cast<uint64_t>(bound));
    case IDENT: return static_cast<int>((in.empty() ? 0 : static_cast<uint8_t>(in[0]) + static_cast<unsigned>(j)) % static_cast<unsigned>(bound));
  }
  return 0;
}

std::vector<HashFunction> Functions(Kind kind, uint64_t salt, int n) {
  std::vector<HashFunction> f;
  for (int j = 0; j < n; ++j) {
    f.push_back([=](absl::string_view in, int bound) { return Eval(kind, salt, j, in, bound); });
  }
  return f;
}

std::string Element(Rng& r, uint64_t i) {
  if (r.chance(1, 60)) return std::string(r.chance(1, 8) ? 65536 : 250 + r.below(12), 'l') + absl::StrCat(i);
  switch (r.below(6)) {
    case 0: return r.bytes(r.below(40));
    case 1: return std::string(1, static_cast<char>(r.below(4)));
    case 2: return std::string(r.below(3), '\0');
    default: return absl::StrCat("Element number ", i);
  }
}

struct Setup {
  Kind kind;
  int buckets, nf, n;
  absl::optional<int> max;
  uint64_t salt;
};
Setup Draw(Case& c, int min_functions) {
  Rng& r = c.rng;
  Setup s;
  s.kind = static_cast<Kind>(r.below(5));
  s.buckets = r.chance(1, 100) ? 250 + static_cast<int>(r.below(30)) : r.chance(1, 4) ? 1 + static_cast<int>(r.below(4)) : 1 + static_cast<int>(r.below(60));
  s.nf = min_functions + static_cast<int>(r.below(r.chance(1, 20) ? 40 : 4));
  if (r.chance(2, 3)) s.max = 1 + static_cast<int>(r.below(7));
  s.salt = r.below(1 << 20);
  s.n = static_cast<int>(r.below(static_cast<uint64_t>(s.buckets) * 2 + 12));
  c.Desc("kind=%d buckets=%d functions=%d max=%d n=%d salt=%llu", s.kind, s.buckets, s.nf, s.max ? *s.max : -1, s.n,
         (unsigned long long)s.salt);
  if (s.n == 0) c.Trivial();
  return s;
}

bool Equal(Case& c, const Table& want, const Table& got, int step) {
  if (got.size() != want.size()) {
    c.Fail("resized", "%zu buckets", got.size());
    return false;
  }
  for (size_t i = 0; i < want.size(); ++i) {
    if (want[i] == got[i]) continue;
    c.Fail("contents", "bucket %zu holds %zu elements, want %zu, after %d insertions", i, got[i].size(), want[i].size(), step);
    return false;
  }
  return true;
}

VH_GROUP(simple, 24000, 250000) {
  Setup s = Draw(c, 1);
  auto t = SimpleHashTable::Create(Functions(s.kind, s.salt, s.nf), s.buckets, s.max);
  VH_CHECK(c, t.ok(), "create_refused", "%s", S(t.status()).c_str());
  Table want(static_cast<size_t>(s.buckets));
  std::vector<std::string> used;
  if (!Equal(c, want, (*t)->GetTable(), 0)) return;
  for (int i = 0; i < s.n; ++i) {
    std::string e = !used.empty() && c.rng.chance(1, 12) ? c.rng.pick(used) : Element(c.rng, static_cast<uint64_t>(i));
    used.push_back(e);
    Table next = want;
    bool fits = true;
    for (int j = 0; j < s.nf; ++j) {
      auto& b = next[static_cast<size_t>(Eval(s.kind, s.salt, j, e, s.buckets))];
      b.push_back(e);
      if (b.size() > 1 && b[b.size() - 2] == e) c.Count("same_bucket_twice");
      if (s.max && b.size() > static_cast<size_t>(*s.max)) fits = false;
    }
    absl::Status st = (*t)->Insert(e);
    if (fits) {
      VH_CHECK(c, st.ok(), "fitting_refused", "%s at insertion %d: %s", Hex(e).c_str(), i, S(st).c_str());
      want = next;
      c.Count("inserted");
    } else {
      VH_CHECK(c, !st.ok(), "overfull_accepted", "%s at insertion %d", Hex(e).c_str(), i);
      VH_CHECK(c, st.code() == absl::StatusCode::kInternal, "insert_status", "%s", S(st).c_str());
      c.Count("refused");
    }
    if (!Equal(c, want, (*t)->GetTable(), i + 1)) return;
  }
}

VH_GROUP(multiple_choice, 24000, 250000) {
  Setup s = Draw(c, 2);
  auto t = MultipleChoiceHashTable::Create(Functions(s.kind, s.salt, s.nf), s.buckets, s.max);
  auto u = MultipleChoiceHashTable::Create(Functions(s.kind, s.salt, s.nf), s.buckets, s.max);
  VH_CHECK(c, t.ok() && u.ok(), "create_refused", "%s", S(t.status()).c_str());
  Table want(static_cast<size_t>(s.buckets));
  std::vector<std::string> used;
  if (!Equal(c, want, (*t)->GetTable(), 0)) return;
  for (int i = 0; i < s.n; ++i) {
    std::string e = !used.empty() && c.rng.chance(1, 12) ? c.rng.pick(used) : Element(c.rng, static_cast<uint64_t>(i));
    used.push_back(e);
    size_t least = SIZE_MAX;
    std::vector<size_t> choices;
    for (int j = 0; j < s.nf; ++j) {
      choices.push_back(static_cast<size_t>(Eval(s.kind, s.salt, j, e, s.buckets)));
      least = std::min(least, want[choices.back()].size());
    }
    absl::Status st = (*t)->Insert(e);
    absl::Status st2 = (*u)->Insert(e);
    bool fits = !s.max || least < static_cast<size_t>(*s.max);
    VH_CHECK(c, st == st2, "not_deterministic", "%s, then %s", S(st).c_str(), S(st2).c_str());
    if (!fits) {
      VH_CHECK(c, !st.ok(), "overfull_accepted", "%s at insertion %d", Hex(e).c_str(), i);
      VH_CHECK(c, st.code() == absl::StatusCode::kInternal, "insert_status", "%s", S(st).c_str());
      c.Count("refused");
    } else {
      VH_CHECK(c, st.ok(), "fitting_refused", "%s at insertion %d: %s", Hex(e).c_str(), i, S(st).c_str());
      // The bucket it went to is one of the least loaded choices.
      auto& got = (*t)->GetTable();
      VH_CHECK(c, got.size() == want.size(), "resized", "%zu", got.size());
      size_t grew = SIZE_MAX;
      for (size_t b = 0; b < want.size(); ++b) {
        if (got[b].size() == want[b].size()) continue;
        VH_CHECK(c, grew == SIZE_MAX && got[b].size() == want[b].size() + 1, "inserted_more_than_once", "insertion %d", i);
        grew = b;
      }
      VH_CHECK(c, grew != SIZE_MAX, "lost", "insertion %d", i);
      bool choice = false;
      for (size_t b : choices) choice = choice || b == grew;
      VH_CHECK(c, choice, "misplaced", "bucket %zu is no choice of %s", grew, Hex(e).c_str());
      VH_CHECK(c, want[grew].size() == least, "not_least_loaded", "bucket of %zu, least is %zu", want[grew].size(), least);
      want[grew].push_back(e);
      c.Count("inserted");
    }
    if (!Equal(c, want, (*t)->GetTable(), i + 1)) return;
    VH_CHECK(c, (*t)->GetTable() == (*u)->GetTable(), "not_deterministic", "contents differ after %d insertions", i + 1);
  }
}

// Loads, limits and tables past what small counters hold.
VH_GROUP(large, 16, 400) {
  Rng& r = c.rng;
  Kind kind = static_cast<Kind>(r.below(2));
  bool wide = c.index % 2, choice = (c.index / 2) % 2;
  int buckets = wide ? 65536 + static_cast<int>(r.below(3000)) : 1 + static_cast<int>(r.below(6));
  int nf = (choice ? 2 : 1) + static_cast<int>(r.below(3));
  int n = wide ? 30000 : r.chance(1, 4) ? 66000 / nf * buckets : 300 * buckets + static_cast<int>(r.below(4000));
  absl::optional<int> max;
  if (r.chance(2, 3)) max = wide ? 2 : n * (choice ? 1 : nf) / buckets - 3 + static_cast<int>(r.below(6));
  uint64_t salt = r.below(1 << 20);
  c.Desc("kind=%d choice=%d buckets=%d functions=%d max=%d n=%d salt=%llu", kind, choice, buckets, nf, max ? *max : -1, n,
         (unsigned long long)salt);
  std::unique_ptr<SimpleHashTable> simple;
  std::unique_ptr<MultipleChoiceHashTable> multiple;
  if (choice) {
    auto t = MultipleChoiceHashTable::Create(Functions(kind, salt, nf), buckets, max);
    VH_CHECK(c, t.ok(), "create_refused", "%s", S(t.status()).c_str());
    multiple = std::move(*t);
  } else {
    auto t = SimpleHashTable::Create(Functions(kind, salt, nf), buckets, max);
    VH_CHECK(c, t.ok(), "create_refused", "%s", S(t.status()).c_str());
    simple = std::move(*t);
  }
  auto table = [&]() -> const Table& { return choice ? multiple->GetTable() : simple->GetTable(); };
  Table want(static_cast<size_t>(buckets));
  for (int i = 0; i < n; ++i) {
    std::string e = std::to_string(i);
    std::vector<size_t> at;
    for (int j = 0; j < nf; ++j) at.push_back(static_cast<size_t>(Eval(kind, salt, j, e, buckets)));
    bool fits = true;
    if (choice) {
      size_t least = SIZE_MAX;
      for (size_t b : at) least = std::min(least, want[b].size());
      fits = !max || least < static_cast<size_t>(*max);
      VH_CHECK(c, multiple->Insert(e).ok() == fits, fits ? "fitting_refused" : "overfull_accepted", "at insertion %d", i);
      if (fits) {
        std::set<size_t> grown;
        for (size_t b : at)
          if (table()[b].size() == want[b].size() + 1) grown.insert(b);
        VH_CHECK(c, grown.size() == 1, "lost", "insertion %d", i);
        VH_CHECK(c, want[*grown.begin()].size() == least, "not_least_loaded", "bucket of %zu, least is %zu", want[*grown.begin()].size(), least);
        want[*grown.begin()].push_back(e);
      }
    } else {
      std::map<size_t, size_t> more;
      for (size_t b : at) ++more[b];
      for (auto& m : more) fits = fits && (!max || want[m.first].size() + m.second <= static_cast<size_t>(*max));
      VH_CHECK(c, simple->Insert(e).ok() == fits, fits ? "fitting_refused" : "overfull_accepted", "at insertion %d", i);
      if (fits)
        for (size_t b : at) want[b].push_back(e);
    }
    c.Count(fits ? "inserted_large" : "refused_large");
  }
  Equal(c, want, table(), n);
}

VH_GROUP(families, 4500, 40000) {
  Rng& r = c.rng;
  bool sha = r.chance(1, 2);
  std::string seed = r.bytes(r.below(20));
  auto family = [&] { return sha ? HashFamily(WrapWithSeed(SHA256HashFamily{}, seed)) : HashFamily(WrapWithSeed(FarmHashFamily{}, seed)); };
  int buckets = 1 + static_cast<int>(r.below(30)), nf = 2 + static_cast<int>(r.below(4));
  c.Desc("sha=%d seed=%s buckets=%d functions=%d", sha, Hex(seed).c_str(), buckets, nf);
  auto a = SimpleHashTable::Create(family(), buckets, nf);
  auto b = MultipleChoiceHashTable::Create(family(), buckets, nf);
  VH_CHECK(c, a.ok() && b.ok(), "create_refused", "%s, %s", S(a.status()).c_str(), S(b.status()).c_str());
  Table want(static_cast<size_t>(buckets));
  for (int i = 0; i < 12; ++i) {
    std::string e = Element(r, static_cast<uint64_t>(i));
    VH_CHECK(c, (*a)->Insert(e).ok() && (*b)->Insert(e).ok(), "insert_refused", "%d", i);
    bool placed = false;
    for (int j = 0; j < nf; ++j) {
      std::string full = absl::StrCat(seed, j);
      size_t h = static_cast<size_t>(sha ? SHA256HashFunction(full)(e, buckets) : FarmHashFunction(full)(e, buckets));
      want[h].push_back(e);
      for (auto& x : (*b)->GetTable()[h]) placed = placed || x == e;
    }
    VH_CHECK(c, placed, "misplaced", "%s", Hex(e).c_str());
  }
  if (!Equal(c, want, (*a)->GetTable(), 12)) return;
  size_t total = 0;
  for (auto& x : (*b)->GetTable()) total += x.size();
  VH_CHECK(c, total == 12, "lost", "%zu of 12", total);
  c.Count("from_families");
}

VH_GROUP(arguments, 12000, 80000) {
  Rng& r = c.rng;
  int buckets = static_cast<int>(r.range(-3, 4));
  if (r.chance(1, 10)) buckets = std::numeric_limits<int>::min();
  int nf = static_cast<int>(r.below(5));
  absl::optional<int> max;
  if (r.chance(2, 3)) max = static_cast<int>(r.range(-3, 3));
  bool choice = r.chance(1, 2), family = r.chance(1, 2);
  c.Desc("%d %d %d %d %d", buckets, nf, max ? *max : -99, choice, family);
  bool valid = buckets > 0 && nf >= (choice ? 2 : 1) && (!max || *max > 0);
  absl::Status s;
  if (choice) {
    s = family ? MultipleChoiceHashTable::Create(SHA256HashFamily{}, buckets, nf, max).status()
               : MultipleChoiceHashTable::Create(Functions(FARM, 1, nf), buckets, max).status();
  } else {
    s = family ? SimpleHashTable::Create(SHA256HashFamily{}, buckets, nf, max).status()
               : SimpleHashTable::Create(Functions(FARM, 1, nf), buckets, max).status();
  }
  VH_CHECK(c, valid ? s.ok() : s.code() == kInvalid, valid ? "valid_refused" : "invalid_accepted", "%s", S(s).c_str());
  c.Count(valid ? "accepted" : "invalid_refused");
  int neg = -1 - static_cast<int>(r.below(5));
  VH_CHECK(c, SimpleHashTable::Create(SHA256HashFamily{}, 5, neg).status().code() == kInvalid, "negative_functions", "simple %d", neg);
  VH_CHECK(c, MultipleChoiceHashTable::Create(SHA256HashFamily{}, 5, neg).status().code() == kInvalid, "negative_functions", "multiple choice %d", neg);
}

}  // namespace
}  // namespace vh
