// Random key-value databases and queries for the sparse PIR schemes.
#ifndef VERIF_HARNESS_COMMON_PIRKV_H_
#define VERIF_HARNESS_COMMON_PIRKV_H_

#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "common/pirutil.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"

namespace vh {

// A key in one of several styles; never empty, and never ending in a NUL byte
// unless `nul_end`.
inline std::string RandomKey(Rng& r, int style, uint64_t i, bool nul_end) {
  std::string k;
  switch (style) {
    case 0: k = absl::StrCat(i); break;
    case 1: k = absl::StrCat("key_", i, "_", r.below(1000)); break;
    case 2: k = std::string(1 + i, 'a'); break;  // all prefixes of each other
    case 3: k = r.bytes(1 + r.below(12)); break;
    case 4: k = std::string(1 + r.below(4), '\0') + absl::StrCat(i); break;
    case 5: k = r.bytes(1 + r.below(300)); break;
    case 6: k = std::string(1, static_cast<char>(1 + i % 255)) + std::string(i / 255, '\xff'); break;
    default: k = absl::StrCat("https://example.com/", r.below(50), "/", i, ".html"); break;
  }
  if (!nul_end && k.back() == '\0') k.back() = '\x7f';
  return k;
}

inline std::string RandomValue(Rng& r, int style, uint64_t i) {
  switch (style) {
    case 0: return absl::StrCat("value ", i);
    case 1: return r.bytes(r.below(40));
    case 2: return r.bytes(16);
    case 3: return r.chance(1, 3) ? std::string() : r.bytes(r.below(200));
    case 4: return std::string(r.below(20), '\0') + (r.chance(1, 2) ? "x" : "");
    case 5: return std::string(r.below(30), '\xff');
    default: {
      // Looks like an encoded bucket.
      dp::HashedPirDatabaseBucket b;
      b.add_keys(absl::StrCat(i));
      b.add_values("fake");
      return b.SerializeAsString();
    }
  }
}

// `n` records with distinct keys.
inline std::vector<std::pair<std::string, std::string>> RandomRecords(Rng& r, size_t n, bool nul_end) {
  int ks = static_cast<int>(r.below(8)), vs = static_cast<int>(r.below(7));
  bool mixed = r.chance(1, 5);
  // Sometimes the keys only begin to differ far from their start.
  std::string prefix;
  if (r.chance(1, 16)) prefix = r.chance(1, 2) ? std::string(60 + r.below(70), 'p') : r.bytes(r.chance(1, 4) && n < 40 ? 65530 + r.below(10) : 200 + r.below(5000));
  std::set<std::string> seen;
  std::vector<std::pair<std::string, std::string>> out;
  for (uint64_t i = 0; out.size() < n; ++i) {
    if (mixed || i > 3 * n) ks = static_cast<int>(r.below(8)), vs = static_cast<int>(r.below(7));
    std::string k = prefix + RandomKey(r, ks, i, nul_end);
    if (k.size() > 1000 && r.chance(1, 4)) k.resize(k.size() - r.below(20));
    if (!nul_end && k.back() == '\0') k.back() = '\x7e';
    if (!seen.insert(k).second) continue;
    out.emplace_back(k, RandomValue(r, vs, i));
  }
  if (std::all_of(out.begin(), out.end(), [](auto& x) { return x.second.empty(); }) && !out.empty()) out[0].second = "v";
  return out;
}

// A string that may or may not be stored.
inline std::string RandomQueryKey(Rng& r, const std::vector<std::pair<std::string, std::string>>& recs, bool nul_end) {
  std::string k = recs.empty() ? "nothing" : recs[r.below(recs.size())].first;
  switch (r.below(11)) {
    case 9: k.back() ^= static_cast<char>(1 << r.below(8)); break;
    case 0: k.resize(r.below(k.size())); break;                                           // a prefix
    case 1: k += nul_end && r.chance(1, 2) ? std::string(1, '\0') : r.bytes(1 + r.below(3)); break;  // an extension
    case 2: k += std::string(400, 'z'); break;                                            // longer than every key
    case 3: k[r.below(k.size())] ^= static_cast<char>(1 << r.below(8)); break;
    case 4: k = r.bytes(1 + r.below(20)); break;
    case 5: k.clear(); break;
    default: break;
  }
  if (!nul_end)
    while (!k.empty() && k.back() == '\0') k.back() = '\x01';
  return k;
}

inline dp::HashFamilyConfig RandomHashFamily(Rng& r) {
  dp::HashFamilyConfig c;
  c.set_hash_family(dp::HashFamilyConfig::HASH_FAMILY_SHA256);
  c.set_seed(r.bytes(r.chance(1, 6) ? 1 + r.below(60) : 16));
  return c;
}

inline std::vector<dp::HashFunction> FunctionsOf(const dp::HashFamilyConfig& c, int n) {
  return *dp::CreateHashFunctions(*dp::CreateHashFamilyFromConfig(c), n);
}

inline uint32_t FingerprintOf(const std::string& seed) {
  return static_cast<uint32_t>(dp::SHA256HashFunction("")(seed, std::numeric_limits<int>::max()));
}

// A world of some kind whose databases can be built.
inline World AnyWorld(Rng& r, PirKind kind, size_t max_records) {
  World w;
  w.kind = kind;
  w.records = RandomRecords(r, 1 + r.below(max_records), kind == SIMPLE);
  auto n = static_cast<int64_t>(w.records.size());
  if (kind == DENSE) {
    w.config.mutable_dense_dpf_pir_config()->set_num_elements(n);
  } else if (kind == SIMPLE) {
    auto& p = *w.params.mutable_simple_hashing_sparse_dpf_pir_server_params();
    *p.mutable_hash_family_config() = RandomHashFamily(r);
    p.set_num_buckets(1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(2 * n))));
  } else {
    auto& p = *w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
    p.set_num_hash_functions(3);
    p.set_num_buckets(3 * n + 5);
    do {
      *p.mutable_hash_family_config() = RandomHashFamily(r);
    } while (!CuckooDb(w).ok());
  }
  return w;
}
inline Query AnyQuery(Rng& r, const World& w, size_t max_queries) {
  Query q;
  size_t k = 1 + r.below(max_queries);
  for (size_t i = 0; i < k; ++i) {
    bool again = i > 0 && r.chance(1, 5);  // the same thing twice in a row
    if (w.kind == DENSE) q.indices.push_back(again ? q.indices.back() : static_cast<int>(r.below(w.records.size())));
    else if (again) q.keys.push_back(std::string(q.keys.back()));
    else q.keys.push_back(RandomQueryKey(r, w.records, w.kind == SIMPLE));
  }
  return q;
}

}  // namespace vh

#endif
