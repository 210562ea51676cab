// needs: pir
// C15: a dense database query returns the XOR of exactly the selected records.
#include <memory>
#include <string>
#include <vector>

#include "common/targets.h"
#include "common/vh.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/internal/inner_product_hwy.h"
#include "pir/private_information_retrieval.pb.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
using Block = XorWrapper<absl::uint128>;
using Selection = std::vector<Block>;
using Database = DenseDpfPirDatabase::Interface;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

size_t ValueSize(Rng& r) {
  switch (r.below(7)) {
    case 0: return r.below(4);
    case 1: return 16 * r.below(10) + r.below(3);
    case 2: return 64 * (1 + r.below(5)) - 1 + r.below(3);
    case 3: return r.below(300);
    case 4: return 0;
    default: return r.below(40);
  }
}

struct Records {
  std::vector<std::string> v;
  size_t width = 0;
  std::unique_ptr<Database> db;
};

// Returns false after reporting a failure.
bool Build(Case& c, std::vector<std::string> v, Records* out) {
  DenseDpfPirDatabase::Builder b;
  out->v = std::move(v);
  out->width = 0;
  int64_t padded = 0;
  for (auto& x : out->v) {
    out->width = std::max(out->width, x.size());
    padded += static_cast<int64_t>((x.size() + 15) / 16 * 16);
    std::string copy = x;
    b.Insert(std::move(copy));
  }
  if (b.total_database_bytes() != padded) {
    c.Fail("total_bytes", "%lld, want %lld", (long long)b.total_database_bytes(), (long long)padded);
    return false;
  }
  auto db = b.Build();
  if (!db.ok()) {
    c.Fail("build_refused", "%s", S(db.status()).c_str());
    return false;
  }
  out->db = *std::move(db);
  return true;
}

bool Reports(Case& c, const Records& d) {
  auto* dense = dynamic_cast<const DenseDpfPirDatabase*>(d.db.get());
  bool ok = d.db->size() == d.v.size() && d.db->num_selection_bits() == d.v.size() && dense != nullptr &&
            dense->max_value_size_in_bytes() == d.width && dense->content().size() == d.v.size();
  for (size_t i = 0; ok && i < d.v.size(); ++i) ok = dense->content()[i] == d.v[i];
  if (!ok) c.Fail("reported_size_or_content", "%zu records, reports %zu, %zu selection bits", d.v.size(), d.db->size(), d.db->num_selection_bits());
  return ok;
}

bool Bit(const Selection& s, size_t i) { return ((s[i / 128].value() >> (i % 128)) & 1) != 0; }

std::string Expected(const Records& d, const Selection& s) {
  std::string out(d.width, '\0');
  for (size_t i = 0; i < d.v.size(); ++i) {
    if (!Bit(s, i)) continue;
    for (size_t b = 0; b < d.v[i].size(); ++b) out[b] ^= d.v[i][b];
  }
  return out;
}

void Answers(Case& c, const Records& d, const std::vector<Selection>& sel, const char* what) {
  auto got = d.db->InnerProductWith(sel);
  VH_CHECK(c, got.ok(), "refused", "%s: %s", what, S(got.status()).c_str());
  VH_CHECK(c, got->size() == sel.size(), "number_of_answers", "%s: %zu of %zu", what, got->size(), sel.size());
  for (size_t k = 0; k < sel.size(); ++k) {
    std::string want = Expected(d, sel[k]);
    VH_CHECK(c, (*got)[k].size() == d.width, "answer_size", "%s: %zu, want %zu", what, (*got)[k].size(), d.width);
    VH_CHECK(c, (*got)[k] == want, "answer_differs", "%s: selection %zu of %zu: %s, want %s", what, k, sel.size(), Hex((*got)[k]).c_str(), Hex(want).c_str());
  }
  c.Count("answers", sel.size());
}

std::vector<std::string> RandomRecords(Rng& r) {
  size_t n = r.chance(1, 3) ? 126 + r.below(6) : r.chance(1, 6) ? 254 + r.below(5) : 1 + r.below(r.chance(1, 5) ? 700 : 20);
  std::vector<std::string> v(n);
  int kind = static_cast<int>(r.below(4));
  size_t fixed = ValueSize(r);
  for (auto& x : v) x = r.bytes(kind == 0 ? fixed : kind == 1 ? (r.chance(1, 8) ? ValueSize(r) : 0) : ValueSize(r));
  return v;
}

VH_GROUP(products, 5000, 80000) {
  Rng& r = c.rng;
  Records d;
  auto v = RandomRecords(r);
  c.Desc("records=%zu v=%016llx", v.size(), (unsigned long long)r.u64());
  if (!Build(c, std::move(v), &d) || !Reports(c, d)) return;
  if (d.width == 0) {
    c.Trivial();
    return;
  }
  for (int round = 0; round < 3; ++round) {
    size_t k = 1 + r.below(r.chance(1, 40) ? 300 : r.chance(1, 20) ? 70 : r.chance(1, 4) ? 20 : 4);
    size_t blocks = (d.v.size() + 127) / 128 + (r.chance(1, 3) ? r.below(5) : 0);
    std::vector<Selection> sel(k);
    int density = static_cast<int>(r.below(5));
    for (auto& s : sel) {
      for (size_t i = 0; i < blocks; ++i) {
        s.emplace_back(density == 0 ? r.edgy(128) : density == 1 ? absl::Uint128Max() : density == 2 ? r.wide() & r.wide() & r.wide() & r.wide() : r.wide());
      }
      if (density == 4) {  // the boundary records only
        for (auto& b : s) b = Block(0);
        for (size_t i : {size_t{0}, d.v.size() - 1, d.v.size() / 128 * 128}) {
          if (i < d.v.size() && r.chance(1, 2)) s[i / 128] += Block(absl::uint128{1} << (i % 128));
        }
      }
    }
    if (k > 2 && r.chance(1, 3)) sel[1] = sel[0];
    int64_t t = AllTargets()[r.below(AllTargets().size())];
    WithTarget w(t);
    Answers(c, d, sel, TargetText(t).c_str());
    if (c.failed()) return;
    // Bits past the last record are ignored.
    auto noisy = sel;
    for (auto& s : noisy) {
      for (size_t i = d.v.size(); i < blocks * 128; ++i) {
        if (r.chance(1, 2)) s[i / 128] += Block(absl::uint128{1} << (i % 128));
      }
    }
    auto a = d.db->InnerProductWith(sel), b = d.db->InnerProductWith(noisy);
    VH_CHECK(c, a.ok() && b.ok() && *a == *b, "surplus_bits_matter", "%zu records, %zu blocks", d.v.size(), blocks);
    // One selection alone is answered as in the batch.
    size_t one = r.below(k);
    auto single = d.db->InnerProductWith(absl::MakeConstSpan(sel).subspan(one, 1));
    VH_CHECK(c, single.ok() && single->size() == 1 && (*single)[0] == (*a)[one], "batch_differs", "selection %zu of %zu", one, k);
    c.Count("surplus_bits");
  }
  Reports(c, d);
}

// Each record alone, none, and all of them.
VH_GROUP(each_record, 600, 8000) {
  Rng& r = c.rng;
  Records d;
  auto v = RandomRecords(r);
  c.Desc("records=%zu v=%016llx", v.size(), (unsigned long long)r.u64());
  if (!Build(c, std::move(v), &d) || !Reports(c, d)) return;
  if (d.width == 0) {
    c.Trivial();
    return;
  }
  size_t blocks = (d.v.size() + 127) / 128;
  std::vector<Selection> sel;
  sel.push_back(Selection(blocks));
  sel.push_back(Selection(blocks, Block(absl::Uint128Max())));
  Answers(c, d, sel, "none and all");
  for (size_t i = 0; i < d.v.size() && !c.failed(); ++i) {
    Selection s(blocks);
    s[i / 128] = Block(absl::uint128{1} << (i % 128));
    sel.assign(1, s);
    auto got = d.db->InnerProductWith(sel);
    std::string want = d.v[i];
    want.resize(d.width, '\0');
    VH_CHECK(c, got.ok() && got->size() == 1 && (*got)[0] == want, "record_differs", "%zu of %zu: %s", i, d.v.size(), S(got.status()).c_str());
    c.Count("records");
  }
}

// One database asked very often.
VH_GROUP(long_life, 16, 200) {
  Rng& r = c.rng;
  Records d;
  int n = c.index % 8 == 0 ? 66000 : 300 + static_cast<int>(r.below(3000));
  std::vector<std::string> v;
  if (n > 60000) {
    v.resize(1 + r.below(5));
    for (auto& x : v) x = r.bytes(1 + r.below(20));
  } else {
    v = RandomRecords(r);
    if (v.size() > 140) v.resize(140);
  }
  c.Desc("records=%zu, %d requests v=%016llx", v.size(), n, (unsigned long long)r.u64());
  if (!Build(c, std::move(v), &d)) return;
  if (d.width == 0) {
    c.Trivial();
    return;
  }
  size_t blocks = (d.v.size() + 127) / 128;
  std::vector<Selection> sel(1 + r.below(3), Selection(blocks));
  std::vector<std::string> want(sel.size());
  for (int k = 0; k < n && !c.failed(); ++k) {
    if (k % 20 == 0)
      for (size_t i = 0; i < sel.size(); ++i) {
        for (auto& b : sel[i]) b = Block(r.chance(1, 2) ? r.wide() : r.edgy(128));
        want[i] = Expected(d, sel[i]);
      }
    if (r.chance(1, 100)) {  // a refused one in between
      std::vector<Selection> bad(1, Selection(blocks - 1));
      VH_CHECK(c, d.db->InnerProductWith(bad).status().code() == kInvalid, "short_accepted", "request %d", k);
    }
    auto got = d.db->InnerProductWith(sel);
    VH_CHECK(c, got.ok() && *got == want, "answer_differs", "request %d: %s", k, S(got.status()).c_str());
    c.Count("long_life_answers", sel.size());
  }
  Reports(c, d);
}

VH_GROUP(refusals, 6000, 60000) {
  Rng& r = c.rng;
  Records d;
  auto v = r.chance(1, 8) ? std::vector<std::string>(r.below(300)) : RandomRecords(r);
  c.Desc("records=%zu v=%016llx", v.size(), (unsigned long long)r.u64());
  if (!Build(c, std::move(v), &d) || !Reports(c, d)) return;
  size_t blocks = (d.v.size() + 127) / 128;
  auto none = d.db->InnerProductWith({});
  VH_CHECK(c, none.ok() && none->empty(), "no_selections", "%s", S(none.status()).c_str());
  std::vector<Selection> sel(1 + r.below(6), Selection(blocks, Block(r.wide())));
  if (d.width == 0) {
    auto got = d.db->InnerProductWith(sel);
    VH_CHECK(c, got.status().code() == kInvalid, "empty_database", "%s", S(got.status()).c_str());
    auto payload = got.status().GetPayload(kPirInternalErrorUri);
    CanonicalPirError e;
    VH_CHECK(c, payload.has_value() && e.ParseFromString(std::string(*payload)) && e.code() == CanonicalPirError::MAX_VALUE_SIZE_IS_ZERO,
             "empty_database_payload", "%s", S(got.status()).c_str());
    c.Count("empty_refused");
    return;
  }
  // One of them too short, or all.
  auto shorter = sel;
  size_t cut = 1 + r.below(blocks), at = r.below(sel.size());
  bool all = r.chance(1, 2);
  for (size_t i = 0; i < shorter.size(); ++i) {
    if (all || i == at) shorter[i].resize(blocks - cut);
  }
  auto got = d.db->InnerProductWith(shorter);
  VH_CHECK(c, got.status().code() == kInvalid, "short_accepted", "%zu of %zu blocks for %zu records: %s", blocks - cut, blocks, d.v.size(), S(got.status()).c_str());
  c.Count("short_refused");
  if (sel.size() > 1) {
    auto longer = sel;
    longer[at].resize(blocks + 1 + r.below(3));
    got = d.db->InnerProductWith(longer);
    // Different lengths that all suffice: refused, or answered correctly.
    if (got.ok()) {
      for (size_t i = 0; i < longer.size(); ++i)
        VH_CHECK(c, (*got)[i] == Expected(d, longer[i]), "uneven_answer_differs", "selection %zu", i);
    } else {
      VH_CHECK(c, got.status().code() == kInvalid, "uneven_status", "%s", S(got.status()).c_str());
    }
    c.Count("uneven");
  }
  // The database still answers.
  Answers(c, d, sel, "after refusals");
  // Values wider than announced.
  std::vector<absl::string_view> views(d.v.begin(), d.v.end());
  auto narrow = pir_internal::InnerProduct(views, sel, static_cast<int64_t>(d.width) - 1);
  VH_CHECK(c, narrow.status().code() == kInvalid, "narrow_accepted", "%s", S(narrow.status()).c_str());
}

VH_GROUP(large, 12, 200) {
  Rng& r = c.rng;
  std::vector<std::string> v;
  if (c.index % 3 == 0) {
    v.resize(10000 + r.below(10000));
    for (auto& x : v) x = r.bytes(r.below(24));
  } else if (c.index % 3 == 1) {
    v.resize(1 + r.below(6));
    for (auto& x : v) x = r.bytes(r.below(1 << 20));
  } else {
    v.resize(500);
    for (auto& x : v) x = r.bytes(1);
    v[r.below(500)] = r.bytes(70000 + r.below(70));
  }
  c.Desc("records=%zu v=%016llx", v.size(), (unsigned long long)r.u64());
  Records d;
  if (!Build(c, std::move(v), &d) || !Reports(c, d)) return;
  std::vector<Selection> sel(3);
  for (auto& s : sel) {
    for (size_t i = 0; i < (d.v.size() + 127) / 128; ++i) s.emplace_back(r.wide());
  }
  Answers(c, d, sel, "large");
}

// Very long selections for few records: positions past 2^31 and 2^32 bits.
VH_GROUP(far_selection, 1, 2) {
  Rng& r = c.rng;
  std::vector<std::string> v(1 + r.below(200));
  for (auto& x : v) x = r.bytes(1 + r.below(20));
  c.Desc("records=%zu", v.size());
  Records d;
  if (!Build(c, std::move(v), &d)) return;
  std::vector<Selection> sel(1, Selection((size_t{1} << 25) + 3));
  for (size_t at : {size_t{0}, size_t{1} << 24, (size_t{1} << 24) + 1, size_t{1} << 25, (size_t{1} << 25) + 1}) {
    if (at != 0) sel[0][at] = Block(absl::Uint128Max());
  }
  Answers(c, d, sel, "far");
  if (c.failed()) return;
  std::vector<absl::string_view> views(d.v.begin(), d.v.end());
  auto got = pir_internal::InnerProductNoHwy(views, sel, static_cast<int64_t>(d.width));
  VH_CHECK(c, got.ok() && (*got)[0] == std::string(d.width, '\0'), "portable_differs", "far");
  c.Count("far");
}

}  // namespace
}  // namespace vh
