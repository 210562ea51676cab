// needs: pir
// C21: a cuckoo table never loses, duplicates or misplaces an element.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "common/vh.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/sha256_hash_family.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

// Observes what a table asks of its hash functions.
struct Watch {
  uint64_t calls = 0;
  bool bad_bound = false;
};

enum Kind { SHA, FARM, FEW, CONST, IDENT };

// One of several families; FEW maps everything into few buckets, CONST makes
// all the functions agree, IDENT depends on the first bytes only.
int Eval(Kind kind, uint64_t salt, int j, absl::string_view in, int bound) {
  switch (kind) {
    case SHA: return SHA256HashFunction(absl::StrCat(salt, j))(in, bound);
    case FARM: return FarmHashFunction(absl::StrCat(salt, j))(in, bound);
    case FEW: return static_cast<int>(Mix(Hash(in), salt + static_cast<uint64_t>(j)) % static_cast<uint64_t>(std::min(bound, 3)));
    case CONST: return static_cast<int>(Mix(Hash(in), salt) % static_cast<uint64_t>(bound));
    case IDENT: return static_cast<int>((in.empty() ? 0 : static_cast<uint8_t>(in[0]) + static_cast<unsigned>(j)) % static_cast<unsigned>(bound));
  }
  return 0;
}

std::vector<HashFunction> Functions(Kind kind, uint64_t salt, int n, int buckets, Watch* w) {
  std::vector<HashFunction> f;
  for (int j = 0; j < n; ++j) {
    f.push_back([=](absl::string_view in, int bound) {
      ++w->calls;
      if (bound != buckets) w->bad_bound = true;
      return Eval(kind, salt, j, in, bound);
    });
  }
  return f;
}

std::string Element(Rng& r, uint64_t i) {
  switch (r.below(6)) {
    case 0: return r.bytes(r.below(40));
    case 1: return std::string(1, static_cast<char>(r.below(4)));
    case 2: return std::string(r.below(3), '\0');
    default: return absl::StrCat("Element number ", i);
  }
}

using Multiset = std::map<std::string, int>;

struct Snapshot {
  std::vector<absl::optional<std::string>> table;
  std::vector<std::string> stash;
};
Snapshot Take(const CuckooHashTable& t) { return {t.GetTable(), t.GetStash()}; }
bool Same(const Snapshot& a, const Snapshot& b) { return a.table == b.table && a.stash == b.stash; }
Multiset Contents(const CuckooHashTable& t) {
  Multiset m;
  for (auto& x : t.GetTable()) {
    if (x) ++m[*x];
  }
  for (auto& x : t.GetStash()) ++m[x];
  return m;
}

bool Placed(Case& c, const CuckooHashTable& t, Kind kind, uint64_t salt, int nf, int buckets) {
  for (int i = 0; i < buckets; ++i) {
    auto& x = t.GetTable()[static_cast<size_t>(i)];
    if (!x) continue;
    bool ok = false;
    for (int j = 0; j < nf && !ok; ++j) ok = Eval(kind, salt, j, *x, buckets) == i;
    if (!ok) {
      c.Fail("misplaced", "%s at %d", Hex(*x).c_str(), i);
      return false;
    }
  }
  return true;
}

VH_GROUP(tables, 18000, 200000) {
  Rng& r = c.rng;
  Kind kind = static_cast<Kind>(r.below(5));
  int buckets = r.chance(1, 4) ? 1 + static_cast<int>(r.below(4)) : 1 + static_cast<int>(r.below(60));
  int nf = 2 + static_cast<int>(r.below(4));
  int relocations = r.chance(1, 6) ? static_cast<int>(r.below(3)) : static_cast<int>(r.below(60));
  absl::optional<int> stash;
  if (!r.chance(1, 4)) stash = static_cast<int>(r.below(8));
  uint64_t salt = r.below(1 << 20);
  int n = static_cast<int>(r.below(static_cast<uint64_t>(buckets) * 2 + 12));
  c.Desc("kind=%d buckets=%d functions=%d relocations=%d stash=%d n=%d salt=%llu", kind, buckets, nf, relocations,
         stash ? *stash : -1, n, (unsigned long long)salt);
  Watch w, w2;
  auto t = CuckooHashTable::Create(Functions(kind, salt, nf, buckets, &w), buckets, relocations, stash);
  auto u = CuckooHashTable::Create(Functions(kind, salt, nf, buckets, &w2), buckets, relocations, stash);
  VH_CHECK(c, t.ok() && u.ok(), "create_refused", "%s", S(t.status()).c_str());
  VH_CHECK(c, (*t)->GetTable().size() == static_cast<size_t>(buckets) && (*t)->GetStash().empty(), "not_empty", "%zu", (*t)->GetTable().size());
  VH_CHECK(c, (*t)->GetHashFunctions().size() == static_cast<size_t>(nf), "functions", "%zu", (*t)->GetHashFunctions().size());
  Multiset want;
  std::vector<std::string> used;
  bool failed_before = false;
  for (int i = 0; i < n; ++i) {
    // Now and then an element that is already there.
    std::string e = !used.empty() && r.chance(1, 12) ? r.pick(used) : Element(r, static_cast<uint64_t>(i));
    used.push_back(e);
    Snapshot before = Take(**t);
    uint64_t calls = w.calls;
    absl::Status s = (*t)->Insert(e);
    absl::Status s2 = (*u)->Insert(e);
    VH_CHECK(c, !w.bad_bound, "hash_bound", "asked for another bound than %d", buckets);
    VH_CHECK(c, w.calls - calls <= static_cast<uint64_t>(nf) * static_cast<uint64_t>(relocations + 1), "too_many_relocations",
             "%llu calls", (unsigned long long)(w.calls - calls));
    VH_CHECK(c, s == s2, "not_deterministic", "%s, then %s", S(s).c_str(), S(s2).c_str());
    VH_CHECK(c, Same(Take(**t), Take(**u)), "not_deterministic", "contents differ after %d insertions", i + 1);
    if (s.ok()) {
      ++want[e];
      c.Count("inserted");
      if ((*t)->GetStash().size() != before.stash.size()) c.Count("stashed");
      size_t moved = 0;
      for (size_t b = 0; b < before.table.size(); ++b) moved += before.table[b] && before.table[b] != (*t)->GetTable()[b];
      if (moved) c.Count("evictions", moved);
      VH_CHECK(c, (*t)->GetStash().size() <= before.stash.size() + 1, "stash_grew", "by %zu", (*t)->GetStash().size() - before.stash.size());
    } else {
      failed_before = true;
      c.Count("refused");
      VH_CHECK(c, s.code() == absl::StatusCode::kInternal, "insert_status", "%s", S(s).c_str());
      VH_CHECK(c, stash.has_value() && before.stash.size() == static_cast<size_t>(*stash), "refused_early",
               "stash holds %zu of %d", before.stash.size(), stash ? *stash : -1);
      VH_CHECK(c, Contents(**t) == want, "failed_insert_changed_table", "inserting %s, element %d", Hex(e).c_str(), i);
    }
    VH_CHECK(c, (*t)->GetTable().size() == static_cast<size_t>(buckets), "resized", "%zu", (*t)->GetTable().size());
    VH_CHECK(c, !stash || (*t)->GetStash().size() <= static_cast<size_t>(*stash), "stash_too_large", "%zu > %d", (*t)->GetStash().size(), *stash);
    VH_CHECK(c, Contents(**t) == want, "contents", "after %d insertions%s", i + 1, failed_before ? ", some refused" : "");
    if (!Placed(c, **t, kind, salt, nf, buckets)) return;
  }
  if (n > buckets && !stash) c.Count("overfull");
  // Tables that are far from full place everything without a stash.
  if (n == 0) c.Trivial();
}

// The documented use: 1.5 buckets per element, three functions.
VH_GROUP(loaded, 180, 1500) {
  Rng& r = c.rng;
  int n = 1 + static_cast<int>(r.below(1500));
  int buckets = static_cast<int>(1.5 * n);
  if (buckets < n + 1) buckets = n + 1;
  bool sha = r.chance(1, 2);
  std::string seed = r.bytes(1 + r.below(20));
  c.Desc("n=%d sha=%d seed=%s", n, sha, Hex(seed).c_str());
  HashFamily fam = sha ? HashFamily(WrapWithSeed(SHA256HashFamily{}, seed)) : HashFamily(WrapWithSeed(FarmHashFamily{}, seed));
  auto t = CuckooHashTable::Create(std::move(fam), buckets, 3, n);
  VH_CHECK(c, t.ok(), "create_refused", "%s", S(t.status()).c_str());
  Multiset want;
  for (int i = 0; i < n; ++i) {
    std::string e = absl::StrCat("key ", i);
    VH_CHECK(c, (*t)->Insert(e).ok(), "insert_refused", "%d", i);
    ++want[e];
  }
  VH_CHECK(c, Contents(**t) == want, "contents", "%d elements", n);
  for (int i = 0; i < buckets; ++i) {
    auto& x = (*t)->GetTable()[static_cast<size_t>(i)];
    if (!x) continue;
    bool ok = false;
    // Function j of a family has seed j after the family's own seed.
    for (int j = 0; j < 3 && !ok; ++j) {
      std::string full = absl::StrCat(seed, j);
      int h = sha ? SHA256HashFunction(full)(*x, buckets) : FarmHashFunction(full)(*x, buckets);
      ok = h == i;
      if (ok) {
        VH_CHECK(c, (*t)->GetHashFunctions()[static_cast<size_t>(j)](*x, buckets) == h, "function_differs", "%d", j);
      }
    }
    VH_CHECK(c, ok, "misplaced", "%s at %d", x->c_str(), i);
  }
  c.Count("elements", static_cast<uint64_t>(n));
  c.Count("stash_of_loaded", (*t)->GetStash().size());
}

// Tables, stashes and relocation bounds past what small counters hold, with
// contents compared at times rather than after every insertion.
VH_GROUP(large, 16, 400) {
  Rng& r = c.rng;
  Kind kind = static_cast<Kind>(r.below(2));
  int mode = static_cast<int>(c.index % 4);
  int buckets = mode == 0 ? 65536 + static_cast<int>(r.below(5000)) : 100 + static_cast<int>(r.below(3000));
  int nf = 2 + static_cast<int>(r.below(mode == 1 ? 12 : 3));
  int relocations = mode == 2 ? 250 + static_cast<int>(r.below(300)) : 3 + static_cast<int>(r.below(20));
  absl::optional<int> stash;
  if (mode == 3) stash = 250 + static_cast<int>(r.below(400));
  else if (r.chance(1, 2)) stash = 100000;
  uint64_t salt = r.below(1 << 20);
  int n = mode == 0 ? buckets * 2 / 3 : mode == 3 ? buckets + *stash + 300 : buckets + static_cast<int>(r.below(300));
  c.Desc("kind=%d buckets=%d functions=%d relocations=%d stash=%d n=%d salt=%llu", kind, buckets, nf, relocations,
         stash ? *stash : -1, n, (unsigned long long)salt);
  Watch w;
  auto t = CuckooHashTable::Create(Functions(kind, salt, nf, buckets, &w), buckets, relocations, stash);
  VH_CHECK(c, t.ok(), "create_refused", "%s", S(t.status()).c_str());
  Multiset want;
  int next = 1 + n / 7;
  for (int i = 0; i < n; ++i) {
    std::string e = absl::StrCat("Large ", i);
    size_t before = (*t)->GetStash().size();
    uint64_t calls = w.calls;
    absl::Status s = (*t)->Insert(e);
    VH_CHECK(c, w.calls - calls <= static_cast<uint64_t>(nf) * static_cast<uint64_t>(relocations + 1), "too_many_relocations",
             "%llu calls", (unsigned long long)(w.calls - calls));
    if (s.ok()) {
      ++want[e];
      c.Count("inserted");
    } else {
      VH_CHECK(c, stash && before == static_cast<size_t>(*stash), "refused_early", "stash holds %zu of %d", before, stash ? *stash : -1);
      c.Count("refused_large");
    }
    VH_CHECK(c, !stash || (*t)->GetStash().size() <= static_cast<size_t>(*stash), "stash_too_large", "%zu", (*t)->GetStash().size());
    if (i == next || i + 1 == n) {
      next += n / 7;
      VH_CHECK(c, Contents(**t) == want, "contents", "after %d insertions", i + 1);
      if (!Placed(c, **t, kind, salt, nf, buckets)) return;
    }
  }
  c.Count("stash_of_large", (*t)->GetStash().size());
}

VH_GROUP(arguments, 9000, 60000) {
  Rng& r = c.rng;
  Watch w;
  int buckets = static_cast<int>(r.range(-3, 4));
  if (r.chance(1, 10)) buckets = std::numeric_limits<int>::min();
  int nf = static_cast<int>(r.below(5));
  int rel = static_cast<int>(r.range(-3, 4));
  if (r.chance(1, 10)) rel = std::numeric_limits<int>::min();
  absl::optional<int> stash;
  if (r.chance(2, 3)) stash = static_cast<int>(r.range(-3, 3));
  bool valid = buckets > 0 && nf >= 2 && rel >= 0 && (!stash || *stash >= 0);
  bool family = r.chance(1, 2);
  c.Desc("%d %d %d %d %d", buckets, nf, rel, stash ? *stash : -99, family);
  auto t = family ? CuckooHashTable::Create(SHA256HashFamily{}, buckets, nf, rel, stash)
                  : CuckooHashTable::Create(Functions(FARM, 1, nf, buckets, &w), buckets, rel, stash);
  if (valid) {
    VH_CHECK(c, t.ok(), "valid_refused", "%s", S(t.status()).c_str());
    c.Count("accepted");
    VH_CHECK(c, (*t)->GetHashFunctions().size() == static_cast<size_t>(nf), "functions", "%zu", (*t)->GetHashFunctions().size());
  } else {
    VH_CHECK(c, t.status().code() == kInvalid, "invalid_accepted", "%s", S(t.status()).c_str());
    c.Count("invalid_refused");
  }
  if (family && r.chance(1, 4)) {
    auto f = CuckooHashTable::Create(SHA256HashFamily{}, 5, -1 - static_cast<int>(r.below(5)), 3);
    VH_CHECK(c, f.status().code() == kInvalid, "negative_functions", "%s", S(f.status()).c_str());
  }
}

}  // namespace
}  // namespace vh
