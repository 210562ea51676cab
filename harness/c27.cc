// needs: ops dcfops dcf pir
// C27: calls give back the memory they take; serving does not grow.
#include <sanitizer/allocator_interface.h>

#include <memory>

#include "c26_fault.h"
#include "common/opmix.h"
#include "common/pirkv.h"

namespace vh {
namespace {

size_t Live() { return __sanitizer_get_current_allocated_bytes(); }

// Repeats `once` in ever longer rounds. Whatever is kept once, or up to some
// bound, stops growing; a leak grows in every round.
bool Grows(const std::function<void()>& once, std::vector<size_t>* live) {
  live->clear();
  int rounds[] = {3, 4, 8, 16, 32};
  bool grew = false;
  for (int n : rounds) {
    for (int i = 0; i < n; ++i) once();
    live->push_back(Live());
    grew = live->size() < 3 || live->back() > (*live)[live->size() - 2];
    if (!grew) return false;
  }
  // Grown in all rounds: once more, twice as long.
  for (int i = 0; i < 64; ++i) once();
  live->push_back(Live());
  return live->back() > (*live)[live->size() - 2];
}
std::string Text(const std::vector<size_t>& live) {
  std::string s;
  for (size_t i = 1; i < live.size(); ++i) s += std::to_string(static_cast<long>(live[i] - live[i - 1])) + " ";
  return s;
}
void Quiet() {
  rand::SetLogging(false);
  TheFaults().Reset();
}

// Every call, healthy and with something refused.
void Calls(Case& c, const Maker& make) {
  Rng& r = c.rng;
  Quiet();
  uint64_t seed = r.u64();
  c.Desc(" v=%016llx", static_cast<unsigned long long>(seed));
  Shared s = make(seed);
  VH_CHECK(c, !s.failed && !s.ops.empty(), "setup_refused", "no objects");
  std::vector<size_t> live;
  live.reserve(16);
  for (auto& op : s.ops) {
    uint64_t n = 0;
    bool fresh = r.chance(1, 2);  // other random bytes each time
    auto run = [&] {
      rand::Reset(seed + (fresh ? ++n : 0));
      rand::SetLogging(false);
      op.run();
    };
    TheFaults().Reset();
    bool grows = Grows(run, &live);
    VH_CHECK(c, !grows, "kept_by_call", "%s: live bytes grew by %s", op.what.c_str(), Text(live).c_str());
    c.Count(("calls." + op.what).c_str());
    TheFaults().Reset();
    run();
    long seen[FAULT_KINDS];
    std::copy_n(TheFaults().seen, static_cast<int>(FAULT_KINDS), seen);
    for (int kind = 0; kind < FAULT_KINDS; ++kind) {
      if (seen[kind] == 0) continue;
      long at = r.chance(1, 3) ? seen[kind] - 1 : static_cast<long>(r.below(static_cast<uint64_t>(seen[kind])));
      bool onwards = r.chance(1, 4);
      long fired = 0;
      auto refused = [&] {
        TheFaults().Reset();
        TheFaults().kind = kind;
        TheFaults().at = at;
        TheFaults().onwards = onwards;
        run();
        fired += TheFaults().fired;
      };
      grows = Grows(refused, &live);
      TheFaults().Reset();
      VH_CHECK(c, !grows, "kept_by_refused_call", "%s without %s %ld of %ld: live bytes grew by %s", op.what.c_str(), FaultName(kind), at, seen[kind],
               Text(live).c_str());
      if (fired) c.Count((std::string("refused.") + FaultName(kind)).c_str());
    }
  }
}

VH_GROUP(dpf, 80, 1600) { Calls(c, MakeDpfOps(c)); }
VH_GROUP(dcf, 80, 1600) { Calls(c, MakeDcfOps(c)); }
VH_GROUP(intervals, 24, 480) { Calls(c, MakeIntervalOps(c)); }
VH_GROUP(hashes, 24, 480) { Calls(c, MakeHashOps(c)); }
VH_GROUP(databases, 60, 1200) { Calls(c, MakeDatabaseOps(c)); }
VH_GROUP(pir, 54, 900) { Calls(c, MakePirOps(c)); }
VH_GROUP(construction, 40, 800) { Calls(c, MakeConstructionOps(c)); }

// Objects that are made, used and given up.
void Lifetimes(Case& c, const Maker& make) {
  Quiet();
  uint64_t seed = c.rng.u64(), n = 0;
  bool fresh = c.rng.chance(1, 2);
  c.Desc(" v=%016llx", static_cast<unsigned long long>(seed));
  size_t calls = 0;
  auto once = [&] {
    Shared s = make(fresh ? Mix(seed, ++n) : seed);
    rand::SetLogging(false);
    for (size_t i = 0; i < s.ops.size() && i < 6; ++i) {
      s.ops[i].run();
      ++calls;
    }
  };
  std::vector<size_t> live;
  live.reserve(16);
  bool grows = Grows(once, &live);
  VH_CHECK(c, !grows, "kept_by_object", "live bytes grew by %s", Text(live).c_str());
  c.Count("calls", calls);
}
VH_GROUP(lifetimes, 70, 1400) {
  switch (c.index % 6) {
    case 0: return Lifetimes(c, MakeDpfOps(c));
    case 1: return Lifetimes(c, MakeDcfOps(c));
    case 2: return Lifetimes(c, MakeIntervalOps(c));
    case 3: return Lifetimes(c, MakeHashOps(c));
    case 4: return Lifetimes(c, MakeDatabaseOps(c));
    default: return Lifetimes(c, MakePirOps(c));
  }
}

// Servers and clients through many different requests.
VH_GROUP(sessions, 45, 900) {
  Rng& r = c.rng;
  Quiet();
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 40);
  uint64_t seed = r.u64(), n = 0;
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), static_cast<unsigned long long>(seed));
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, &Open);
  VH_CHECK(c, helper.ok(), "setup_refused", "%s", S(helper.status()).c_str());
  bool deaf = r.chance(1, 4);
  auto leader = MakeServer(w, PirRole::LEADER, [&](const dp::PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<dp::PirResponse> {
    wait();
    if (deaf) return absl::UnavailableError("nobody there");
    return (*helper)->HandleRequest(q);
  });
  auto cl = Clients(w);
  VH_CHECK(c, leader.ok() && cl.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  uint64_t answered = 0;
  auto once = [&] {
    Rng q(Mix(seed, ++n));
    rand::Reset(q.u64());
    rand::SetLogging(false);
    auto req = cl->CreateRequest(AnyQuery(q, w, 3));
    if (!req.ok()) return;
    auto a = (*leader)->HandleRequest(req->first);
    if (!a.ok()) return;
    answered += cl->HandleResponse(*a, req->second).ok();
  };
  std::vector<size_t> live;
  live.reserve(16);
  bool grows = Grows(once, &live);
  VH_CHECK(c, !grows, "kept_by_request", "%s: live bytes grew by %s", KindName(w.kind), Text(live).c_str());
  VH_CHECK(c, deaf || answered == n, "not_answered", "%llu of %llu", static_cast<unsigned long long>(answered), static_cast<unsigned long long>(n));
  c.Count(deaf ? "requests_without_helper" : "requests", n);
}

// Servers of each kind that are sent requests to refuse, no two of them alike.
VH_GROUP(refused_sessions, 45, 900) {
  Rng& r = c.rng;
  Quiet();
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 40);
  uint64_t seed = r.u64(), n = 0;
  int side = static_cast<int>(c.index / 3 % 3);  // plain, helper, leader
  int way = r.chance(1, 4) ? -1 : static_cast<int>(r.below(12));
  c.Desc("%s n=%zu side=%d way=%d v=%016llx", KindName(w.kind), w.records.size(), side, way, static_cast<unsigned long long>(seed));
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, &Open);
  VH_CHECK(c, plain.ok() && helper.ok(), "setup_refused", "%s", S(helper.status()).c_str());
  auto leader = MakeServer(w, PirRole::LEADER, [&](const dp::PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<dp::PirResponse> {
    wait();
    return (*helper)->HandleRequest(q);
  });
  auto cl = Clients(w);
  VH_CHECK(c, leader.ok() && cl.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  uint64_t answered = 0, refused = 0;
  auto once = [&] {
    Rng q(Mix(seed, ++n));
    rand::Reset(q.u64());
    rand::SetLogging(false);
    Query query = AnyQuery(q, w, 3);
    dp::PirRequest req;
    if (side == 0) {
      auto p = cl->CreatePlainRequests(query);
      if (!p.ok()) return;
      req = Wrap(std::get<0>(*p));
    } else {
      auto p = cl->CreateRequest(query);
      if (!p.ok()) return;
      req = p->first;
      if (side == 1) {
        dp::PirRequest enc;
        *enc.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = req.dpf_pir_request().leader_request().encrypted_helper_request();
        req = enc;
      }
    }
    req = Bent(q, std::move(req), way);
    dp::PirServer* s = side == 0 ? plain->get() : side == 1 ? helper->get() : leader->get();
    (s->HandleRequest(req).ok() ? answered : refused)++;
  };
  std::vector<size_t> live;
  live.reserve(16);
  bool grows = Grows(once, &live);
  VH_CHECK(c, !grows, "kept_by_refusal", "%s: live bytes grew by %s", KindName(w.kind), Text(live).c_str());
  c.Count("refused_requests", refused);
  c.Count("bent_but_answered_requests", answered);
}

// A context that is asked again and again, forwards only as far as it goes.
VH_GROUP(contexts, 120, 2400) {
  Rng& r = c.rng;
  Quiet();
  GenOptions go;
  go.max_levels = 4;
  auto lv = RandomLevels(r, go);
  c.Desc("%s v=%016llx", LevelsName(lv).c_str(), static_cast<unsigned long long>(r.u64()));
  auto d = MakeDpf(c, lv);
  if (!d || !RegisterAll(c, *d, lv)) return;
  u128 alpha = r.edgy(lv.back().ld);
  auto keys = GenAny(c, *d, lv, alpha, RandomBetas(r, lv));
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  auto ctx = d->CreateEvaluationContext(keys->first);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  int level = static_cast<int>(r.below(lv.size()));
  const Ops* o = FindOps(lv[static_cast<size_t>(level)].t);
  auto x = RandomPoints(r, lv, level, alpha, 1 + static_cast<int>(r.below(20)));
  uint64_t good = 0;
  auto once = [&] { good += o->EvalAt(*d, level, x, *ctx).ok(); };
  std::vector<size_t> live;
  live.reserve(16);
  size_t before = 0;
  once();
  before = ctx->ByteSizeLong();
  bool grows = Grows(once, &live);
  VH_CHECK(c, !grows, "context_grows", "level %d, %zu points: live bytes grew by %s", level, x.size(), Text(live).c_str());
  VH_CHECK(c, ctx->ByteSizeLong() <= before, "context_longer", "%zu instead of %zu bytes", ctx->ByteSizeLong(), before);
  c.Count("evaluations", good);
}

// Builders that are filled and cleared, cloned, and refused.
VH_GROUP(builders, 60, 1200) {
  Rng& r = c.rng;
  Quiet();
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 40);
  int what = static_cast<int>(r.below(4));
  c.Desc("%s n=%zu what=%d v=%016llx", KindName(w.kind), w.records.size(), what, static_cast<unsigned long long>(r.u64()));
  auto cycle = [&](auto& b, auto insert, auto spoil) {
    uint64_t built = 0;
    auto once = [&] {
      for (auto& x : w.records) insert(b, x);
      if (what == 1) {
        auto clone = b.Clone();
        built += clone->Build().ok();
      } else if (what == 2) {
        built += b.Build().ok();
        built += b.Build().ok();  // refused
      } else if (what == 3) {
        spoil(b);
        built += b.Build().ok();
      }
      b.Clear();
    };
    std::vector<size_t> live;
    live.reserve(16);
    bool grows = Grows(once, &live);
    VH_CHECK(c, !grows, "builder_grows", "%s, kind %d: live bytes grew by %s", KindName(w.kind), what, Text(live).c_str());
    c.Count("built", built);
  };
  if (w.kind == DENSE) {
    dp::DenseDpfPirDatabase::Builder b;
    cycle(b, [](auto& x, auto& rec) { x.Insert(rec.second); }, [](auto&) {});
  } else if (w.kind == CUCKOO) {
    dp::CuckooHashedDpfPirDatabase::Builder b;
    b.SetParams(w.params.cuckoo_hashing_sparse_dpf_pir_server_params());
    cycle(b, [](auto& x, auto& rec) { x.Insert(rec); }, [](auto& x) { x.Insert({"", "no key"}); });
  } else {
    dp::SimpleHashedDpfPirDatabase::Builder b;
    b.SetParams(w.params.simple_hashing_sparse_dpf_pir_server_params());
    cycle(b, [](auto& x, auto& rec) { x.Insert(rec); }, [](auto& x) { x.Insert({"", "no key"}); });
  }
}

}  // namespace
}  // namespace vh
