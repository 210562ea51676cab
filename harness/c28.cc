// needs: ops dcfops dcf pir
// C28: no call uses memory that nobody wrote. Runs under valgrind's memcheck,
// whose error count is read after every call; what a call returns is checked
// bit by bit for bits that were never written.
#include <valgrind/memcheck.h>

#include <memory>

#include "common/fuzzmsg.h"
#include "common/opmix.h"
#include "common/pirkv.h"

namespace vh {
namespace {

unsigned Errors() { return static_cast<unsigned>(VALGRIND_COUNT_ERRORS); }

// The number of bits among `size` bytes which nobody wrote.
size_t Unwritten(const void* data, size_t size) {
  const char* p = static_cast<const char*>(data);
  std::vector<unsigned char> bits(size);
  if (size == 0 || VALGRIND_GET_VBITS(p, bits.data(), size) != 1) return 0;
  size_t n = 0;
  for (unsigned char b : bits) n += static_cast<size_t>(__builtin_popcount(b));
  return n;
}

// True if the monitor is there and sees memory nobody wrote.
bool Alive(Case& c) {
  if (!RUNNING_ON_VALGRIND) {
    c.Fail("no_monitor", "not run under valgrind");
    return false;
  }
  std::unique_ptr<char[]> fresh(new char[24]);
  if (Unwritten(fresh.get(), 24) == 24 * 8) c.Count("monitor_alive");
  rand::SetLogging(false);
  return true;
}

void Calls(Case& c, const Maker& make) {
  if (!Alive(c)) return;
  uint64_t seed = c.rng.u64();
  c.Desc(" v=%016llx", static_cast<unsigned long long>(seed));
  unsigned before = Errors();
  Shared s = make(seed);
  VH_CHECK(c, !s.failed && !s.ops.empty(), "setup_refused", "no objects");
  VH_CHECK(c, Errors() == before, "unwritten_used", "while the objects were made");
  uint64_t n = 0;
  for (auto& op : s.ops) {
    rand::Reset(seed + ++n);
    rand::SetLogging(false);
    std::string out = op.run();
    VH_CHECK(c, Errors() == before, "unwritten_used", "%s decided something by memory nobody wrote", op.what.c_str());
    size_t bad = Unwritten(out.data(), out.size());
    VH_CHECK(c, bad == 0, "unwritten_returned", "%s: %zu bits of the result are memory nobody wrote", op.what.c_str(), bad);
    c.Count(("calls." + op.what).c_str());
    c.Count("result_bytes", out.size());
  }
}

VH_GROUP(dpf, 64, 1600) { Calls(c, MakeDpfOps(c)); }
VH_GROUP(dcf, 40, 1000) { Calls(c, MakeDcfOps(c)); }
VH_GROUP(intervals, 8, 200) { Calls(c, MakeIntervalOps(c)); }
VH_GROUP(hashes, 16, 400) { Calls(c, MakeHashOps(c)); }
VH_GROUP(databases, 48, 1200) { Calls(c, MakeDatabaseOps(c)); }
VH_GROUP(pir, 27, 540) { Calls(c, MakePirOps(c)); }
VH_GROUP(construction, 16, 400) { Calls(c, MakeConstructionOps(c)); }

// Looks at what a call returned, and at what memcheck had to say about it.
bool Look(Case& c, unsigned before, const char* what, const std::string& out) {
  if (Errors() != before) {
    c.Fail("unwritten_used", "%s decided something by memory nobody wrote", what);
    return false;
  }
  size_t bad = Unwritten(out.data(), out.size());
  if (bad) {
    c.Fail("unwritten_returned", "%s: %zu bits of the result are memory nobody wrote", what, bad);
    return false;
  }
  c.Count(what);
  c.Count("result_bytes", out.size());
  return true;
}

// Takes away what a well-formed key has.
std::string Lessen(Rng& r, DpfKey* k) {
  auto* cws = k->mutable_correction_words();
  dpflib::CorrectionWord* cw = cws->empty() ? nullptr : cws->Mutable(static_cast<int>(r.below(static_cast<uint64_t>(cws->size()))));
  auto* last = k->mutable_last_level_value_correction();
  switch (r.below(8)) {
    case 0:
      if (cw) cw->clear_seed();
      return "cw seed";
    case 1:
      if (cw) cw->clear_control_left(), cw->clear_control_right();
      return "cw controls";
    case 2:
      if (cw && cw->value_correction_size() > 1) cw->mutable_value_correction()->RemoveLast();
      return "cw value";
    case 3:
      for (int i = 0; i < cws->size(); ++i)
        while (cws->Mutable(i)->value_correction_size() > 1) cws->Mutable(i)->mutable_value_correction()->RemoveLast();
      while (last->size() > 1) last->RemoveLast();
      return "values";
    case 4:
      if (last->size() > 1) last->RemoveLast();
      return "last value";
    case 5:
      if (!last->empty()) last->Mutable(static_cast<int>(r.below(static_cast<uint64_t>(last->size()))))->Clear();
      return "value";
    case 6: k->mutable_seed()->Clear(); return "seed";
    default: return MutateMessage(r, k, 3);
  }
}

VH_GROUP(malformed_keys, 160, 6000) {
  if (!Alive(c)) return;
  Rng& r = c.rng;
  GenOptions go;
  go.max_levels = 3;
  auto lv = RandomLevels(r, go);
  auto d = MakeDpf(c, lv);
  if (!d || !RegisterAll(c, *d, lv)) return;
  u128 alpha = r.edgy(lv.back().ld);
  auto k = GenAny(c, *d, lv, alpha, RandomBetas(r, lv));
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  std::vector<DpfKey> keys = {k->first, k->second};
  std::string what;
  Rng same(r.u64());
  for (auto& key : keys) {
    Rng q = same;
    what = Lessen(q, &key);
  }
  c.Desc("levels=%s %s", LevelsName(lv).c_str(), what.c_str());
  unsigned before = Errors();
  bool uniform = true;
  for (size_t i = 0; i < lv.size(); ++i) {
    const Ops* o = FindOps(lv[i].t);
    uniform &= lv[i].t == lv.back().t;
    auto x = RandomPoints(r, lv, static_cast<int>(i), alpha, 1 + static_cast<int>(r.below(12)));
    for (auto& key : keys) {
      if (!Look(c, before, "evaluate_at", Show(o->EvalAt(*d, key, static_cast<int>(i), x)))) return;
      auto ctx = d->CreateEvaluationContext(key);
      if (!ctx.ok()) continue;
      auto copy = *ctx;
      if (!Look(c, before, "evaluate_at_context", Show(o->EvalAt(*d, static_cast<int>(i), x, copy)) + copy.SerializePartialAsString())) return;
      if (lv[i].ld <= 8 && !Look(c, before, "evaluate_until", Show(o->EvalUntil(*d, static_cast<int>(i), {}, *ctx)) + ctx->SerializePartialAsString())) return;
    }
  }
  if (uniform) {
    auto x = RandomPoints(r, lv, static_cast<int>(lv.size()) - 1, alpha, 2);
    std::string out;
    auto st = FindOps(lv.back().t)->Apply(*d, absl::MakeConstSpan(keys), x, [&](std::vector<RVal> v) {
      for (auto& e : v) out += Str(e) + ",";
      return true;
    }, 0);
    Look(c, before, "evaluate_and_apply", out + S(st));
  }
}

VH_GROUP(malformed_contexts, 80, 3000) {
  if (!Alive(c)) return;
  Rng& r = c.rng;
  GenOptions go;
  go.max_ld = 10, go.small_last = true;
  auto lv = RandomLevels(r, go);
  auto d = MakeDpf(c, lv);
  if (!d || !RegisterAll(c, *d, lv)) return;
  u128 alpha = r.edgy(lv.back().ld);
  auto k = GenAny(c, *d, lv, alpha, RandomBetas(r, lv));
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  auto ctx = d->CreateEvaluationContext(k->first);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  int at = static_cast<int>(r.below(lv.size()));
  if (r.chance(1, 2)) (void)FindOps(lv[static_cast<size_t>(at)].t)->EvalUntil(*d, at, {}, *ctx);
  else (void)FindOps(lv[static_cast<size_t>(at)].t)->EvalAt(*d, at, RandomPoints(r, lv, at, alpha, 5), *ctx);
  std::string what;
  auto* pe = ctx->mutable_partial_evaluations();
  switch (r.below(5)) {
    case 0:
      for (auto& e : *pe)
        if (r.chance(1, 2)) e.clear_seed();
      what = "seeds";
      break;
    case 1:
      for (auto& e : *pe)
        if (r.chance(1, 2)) e.clear_prefix();
      what = "prefixes";
      break;
    case 2: what = Lessen(r, ctx->mutable_key()); break;
    case 3: pe->Clear(); what = "all"; break;
    default: what = MutateMessage(r, &*ctx, 3);
  }
  c.Desc("levels=%s at=%d %s", LevelsName(lv).c_str(), at, what.c_str());
  unsigned before = Errors();
  for (int n = 0; n < 5; ++n) {
    int i = static_cast<int>(r.below(lv.size()));
    const Ops* o = FindOps(lv[static_cast<size_t>(i)].t);
    auto pre = r.chance(1, 4) ? std::vector<absl::uint128>{} : RandomPoints(r, lv, static_cast<int>(r.below(lv.size())), alpha, 1 + static_cast<int>(r.below(5)));
    auto copy = *ctx;
    std::string out;
    switch (r.below(3)) {
      case 0: out = Show(o->EvalUntil(*d, i, pre, copy)); break;
      case 1: out = Show(o->EvalNext(*d, pre, copy)); break;
      default: out = Show(o->EvalAt(*d, i, pre, copy)); break;
    }
    if (!Look(c, before, "context_calls", out + copy.SerializePartialAsString())) return;
    if (r.chance(1, 2)) *ctx = copy;
  }
}

VH_GROUP(malformed_comparison, 64, 2000) {
  if (!Alive(c)) return;
  Rng& r = c.rng;
  const DcfOps* o = r.pick(AllDcfOps());
  int ld = 1 + static_cast<int>(r.below(static_cast<uint64_t>(std::min(MaxDcfDomain(o->t), 20))));
  auto d = DistributedComparisonFunction::Create(DcfParams(o->t, ld));
  VH_CHECK(c, d.ok(), "create_refused", "%s", S(d.status()).c_str());
  auto k = o->Gen(**d, r.edgy(ld), RandomVal(o->t, r));
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  std::vector<DcfKey> keys = {k->first, k->second, k->second};
  std::string what = Lessen(r, keys[r.below(3)].mutable_key());
  c.Desc("%s/%d %s", o->t.Name().c_str(), ld, what.c_str());
  unsigned before = Errors();
  std::vector<absl::uint128> x = {r.edgy(ld), r.edgy(ld), r.edgy(ld)};
  if (!Look(c, before, "dcf_batch", Show(o->Batch(**d, keys, x)))) return;
  for (size_t i = 0; i < 3; ++i) {
    auto v = o->Eval(**d, keys[i], x[i]);
    if (!Look(c, before, "dcf_evaluate", v.ok() ? Str(*v) : S(v.status()))) return;
  }
}

VH_GROUP(malformed_messages, 48, 1500) {
  if (!Alive(c)) return;
  Rng& r = c.rng;
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 30);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), static_cast<unsigned long long>(c.rng.u64()));
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, &Open), plain = MakeServer(w, PirRole::PLAIN);
  VH_CHECK(c, helper.ok() && plain.ok(), "setup_refused", "%s", S(helper.status()).c_str());
  bool bend = r.chance(1, 2);
  auto leader = MakeServer(w, PirRole::LEADER, [&](const dp::PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<dp::PirResponse> {
    wait();
    auto a = (*helper)->HandleRequest(q);
    if (a.ok() && bend) MutateMessage(r, &*a, 2);
    return a;
  });
  auto cl = Clients(w);
  VH_CHECK(c, leader.ok() && cl.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  auto req = cl->CreateRequest(AnyQuery(r, w, 3));
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  unsigned before = Errors();
  auto show = [](const absl::StatusOr<std::vector<absl::optional<std::string>>>& a) {
    if (!a.ok()) return S(a.status());
    std::string out;
    for (auto& e : *a) out += e ? "+" + *e + "/" : std::string("-/");
    return out;
  };
  for (int n = 0; n < 4; ++n) {
    auto q = req->first;
    auto* lr = q.mutable_dpf_pir_request()->mutable_leader_request();
    if (r.chance(1, 2) && lr->plain_request().dpf_key_size() > 0) Lessen(r, lr->mutable_plain_request()->mutable_dpf_key(0));
    else MutateMessage(r, &q, 2);
    auto a = (*leader)->HandleRequest(q);
    if (!Look(c, before, "leader", a.ok() ? a->SerializePartialAsString() : S(a.status()))) return;
    auto p = (*plain)->HandleRequest(Wrap(q.dpf_pir_request().leader_request().plain_request()));
    if (!Look(c, before, "plain", p.ok() ? p->SerializePartialAsString() : S(p.status()))) return;
    auto state = req->second;
    if (r.chance(1, 2)) MutateMessage(r, &state, 2);
    if (a.ok() && r.chance(1, 2)) MutateMessage(r, &*a, 2);
    auto answer = cl->HandleResponse(a.ok() ? *a : dp::PirResponse(), state);
    if (!Look(c, before, "client", show(answer))) return;
  }
}

// Records and responses large enough for memory that comes straight from the
// system, which is zero only the first time.
VH_GROUP(large_records, 8, 80) {
  if (!Alive(c)) return;
  Rng& r = c.rng;
  static const size_t sizes[] = {4097, 65536, 131072, 131073, 200001, 300000, 1 << 20};
  size_t size = sizes[r.below(c.thorough ? 7 : 5)];
  dp::DenseDpfPirDatabase::Builder b;
  size_t n = 2 + r.below(4), big = r.below(n);
  std::vector<std::string> recs;
  for (size_t i = 0; i < n; ++i) {
    recs.push_back(std::string(i == big ? size : r.below(100), static_cast<char>('a' + i)));
    b.Insert(recs.back());
  }
  c.Desc("%zu of %zu records, the %zu. of them %zu", n, n, big, size);
  auto db = b.Build();
  VH_CHECK(c, db.ok(), "setup_refused", "%s", S(db.status()).c_str());
  unsigned before = Errors();
  std::vector<std::vector<dp::DenseDpfPirDatabase::BlockType>> sel(1 + r.below(3));
  for (auto& v : sel) v.push_back(dp::DenseDpfPirDatabase::BlockType(r.wide()));
  auto out = (*db)->InnerProductWith(sel);
  VH_CHECK(c, out.ok(), "refused", "%s", S(out.status()).c_str());
  for (auto& x : *out)
    if (!Look(c, before, "large_results", x)) return;
}

}  // namespace
}  // namespace vh
