// needs: ops dcfops dcf pir
// C26: what the surroundings refuse is reported, and never makes a result wrong.
#include <algorithm>
#include <limits>
#include <memory>

#include "absl/strings/match.h"
#include "c26_fault.h"
#include "common/opmix.h"
#include "dcf/fss_gates/prng/basic_rng.h"

namespace vh {
namespace {

// The status a refusal has to end in.
const char* CodeFor(int kind) { return kind == ALLOC ? "RESOURCE_EXHAUSTED" : "INTERNAL"; }
bool RightCode(int kind, const absl::Status& s) {
  return s.code() == (kind == ALLOC ? absl::StatusCode::kResourceExhausted : absl::StatusCode::kInternal);
}

// Numbers of the requests to refuse, out of n.
std::vector<long> Choose(Rng& r, long n, size_t max) {
  std::vector<long> out;
  if (n <= static_cast<long>(max)) {
    for (long i = 0; i < n; ++i) out.push_back(i);
    return out;
  }
  out = {0, n - 1};
  while (out.size() < max) out.push_back(static_cast<long>(r.below(static_cast<uint64_t>(n))));
  std::sort(out.begin(), out.end());
  out.erase(std::unique(out.begin(), out.end()), out.end());
  return out;
}

// Makes every call with healthy surroundings, with single or lasting refusals,
// and again with healthy ones.
void Refused(Case& c, const Maker& make) {
  Rng& r = c.rng;
  uint64_t seed = r.u64();
  c.Desc(" v=%016llx", static_cast<unsigned long long>(seed));
  TheFaults().Reset();
  Shared s = make(seed);
  VH_CHECK(c, !s.failed && !s.ops.empty(), "setup_refused", "no objects");
  uint64_t refusals = 0;
  for (auto& op : s.ops) {
    uint64_t op_seed = r.u64();
    auto run = [&] {
      rand::Reset(op_seed);
      return op.run();
    };
    TheFaults().Reset();
    const std::string want = run();
    long seen[FAULT_KINDS];
    std::copy_n(TheFaults().seen, static_cast<int>(FAULT_KINDS), seen);
    if (want.find("RESOURCE_EXHAUSTED") != std::string::npos || want.find("INTERNAL") != std::string::npos) continue;
    for (int kind = 0; kind < FAULT_KINDS; ++kind) {
      for (long at : Choose(r, seen[kind], c.thorough ? 24 : 5)) {
        TheFaults().Reset();
        TheFaults().kind = kind;
        TheFaults().at = at;
        TheFaults().onwards = r.chance(1, 4);
        std::string got = run();
        long fired = TheFaults().fired;
        TheFaults().Reset();
        VH_CHECK(c, got == want || got.find(CodeFor(kind)) != std::string::npos, std::string("swallowed_") + FaultName(kind),
                 "%s, request %ld of %ld refused: %s instead of %s", op.what.c_str(), at, seen[kind], Hex(got, 200).c_str(),
                 Hex(want, 200).c_str());
        if (fired == 0) continue;
        refusals += static_cast<uint64_t>(fired);
        c.Count((std::string("refused.") + FaultName(kind)).c_str());
        c.Count(got == want ? "survived" : "reported");
        if (got != want) c.Count(("reported_by." + op.what).c_str());
      }
    }
    std::string again = run();
    VH_CHECK(c, again == want, "differs_afterwards", "%s: %s instead of %s", op.what.c_str(), Hex(again, 200).c_str(), Hex(want, 200).c_str());
  }
  if (refusals == 0) c.Trivial();
}

VH_GROUP(dpf, 600, 6000) { Refused(c, MakeDpfOps(c)); }
VH_GROUP(dcf, 600, 6000) { Refused(c, MakeDcfOps(c)); }
VH_GROUP(intervals, 120, 1200) { Refused(c, MakeIntervalOps(c)); }
VH_GROUP(hashes, 120, 1200) { Refused(c, MakeHashOps(c)); }
VH_GROUP(databases, 300, 3000) { Refused(c, MakeDatabaseOps(c)); }
VH_GROUP(pir, 300, 3000) { Refused(c, MakePirOps(c)); }
VH_GROUP(construction, 300, 3000) { Refused(c, MakeConstructionOps(c)); }

// A context survives refused calls: whatever it still accepts is right.
VH_GROUP(contexts, 3000, 40000) {
  Rng& r = c.rng;
  GenOptions go;
  go.max_levels = 5;
  auto lv = RandomLevels(r, go);
  c.Desc("%s v=%016llx ", LevelsName(lv).c_str(), static_cast<unsigned long long>(c.rng.u64()));
  auto d = MakeDpf(c, lv);
  if (!d || !RegisterAll(c, *d, lv)) return;
  u128 alpha = r.edgy(lv.back().ld);
  auto keys = GenAny(c, *d, lv, alpha, RandomBetas(r, lv));
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  const DpfKey& key = r.chance(1, 2) ? keys->first : keys->second;
  RefDpf ref(lv);
  auto made = d->CreateEvaluationContext(key);
  VH_CHECK(c, made.ok(), "context_refused", "%s", S(made.status()).c_str());
  EvaluationContext ctx = *std::move(made);
  int n = static_cast<int>(lv.size());
  int done = -1;  // last level evaluated
  std::vector<absl::uint128> known;
  bool hurt = false;  // a call was refused before
  int pending = 0;    // calls refused since the last accepted one
  int calls = 0, refused = 0;
  for (int step = 0; step < 3 * n && done < n - 1; ++step) {
    bool at = r.chance(1, 3) && (done >= 0 || r.chance(1, 3));
    int level = done + 1;
    while (level < n - 1 && r.chance(1, 4)) ++level;
    std::vector<absl::uint128> x;  // points or prefixes
    if (at) {
      if (done < 0) {
        x = RandomPoints(r, lv, level, alpha, 1 + static_cast<int>(r.below(5)));
      } else {
        int gap = lv[level].ld - lv[done].ld;
        size_t m = 1 + r.below(5);
        for (size_t i = 0; i < m; ++i) x.push_back(Shl(r.pick(known), gap) | r.edgy(gap));
      }
    } else {
      int gap = lv[level].ld - (done < 0 ? 0 : lv[done].ld);
      if (gap > 9) {
        if (done >= 0 || level > 0) {
          if (r.chance(1, 2)) continue;
          break;
        }
        at = true;
        x = RandomPoints(r, lv, level, alpha, 1 + static_cast<int>(r.below(5)));
      } else if (done >= 0) {
        size_t m = 1 + r.below(5);
        for (size_t i = 0; i < m; ++i) x.push_back(r.pick(known));
      }
    }
    const Ops* o = FindOps(lv[level].t);
    auto call = [&](EvaluationContext& on) { return at ? o->EvalAt(*d, level, x, on) : o->EvalUntil(*d, level, x, on); };
    TheFaults().Reset();
    int kind = -1;
    if (r.chance(1, 2)) {
      // How often would the call ask?
      EvaluationContext copy = ctx;
      (void)call(copy);
      long seen[FAULT_KINDS];
      std::copy_n(TheFaults().seen, static_cast<int>(FAULT_KINDS), seen);
      int want = r.chance(1, 2) ? ALLOC : r.chance(1, 2) ? CIPHER : SCHEDULE;
      if (seen[want] > 0) kind = want;
      TheFaults().Reset();
      TheFaults().kind = kind;
      if (kind >= 0) TheFaults().at = static_cast<long>(r.below(static_cast<uint64_t>(seen[kind])));
    }
    auto got = call(ctx);
    bool fired = TheFaults().fired > 0;
    TheFaults().Reset();
    ++calls;
    c.Desc("%s%d[%zu]%s ", at ? "A" : "U", level, x.size(), fired ? "!" : "");
    if (!got.ok()) {
      if (fired) {
        VH_CHECK(c, RightCode(kind, got.status()) || hurt, std::string("wrong_code_") + FaultName(kind), "%s", S(got.status()).c_str());
        c.Count("calls_refused");
        ++refused;
        hurt = true;
        // The same call again has to work, unless other refused calls have
        // narrowed what the context knows.
        if (pending++ > 0 || r.chance(1, 3)) continue;
        got = call(ctx);
        c.Desc("again ");
        VH_CHECK(c, got.ok(), "repetition_refused", "level %d: %s", level, S(got.status()).c_str());
        c.Count("repeated_after_refusal");
      } else {
        VH_CHECK(c, hurt && got.status().code() == absl::StatusCode::kInvalidArgument, "refused_healthy", "level %d: %s", level,
                 S(got.status()).c_str());
        c.Count("refused_after_refusal");
        break;
      }
    }
    if (hurt) c.Count("accepted_after_refusal");
    std::vector<absl::uint128> points = x;
    if (!at) {
      points.clear();
      int gap = lv[level].ld - (done < 0 ? 0 : lv[done].ld);
      if (done < 0) {
        for (size_t j = 0; j < (size_t{1} << gap); ++j) points.push_back(j);
      } else {
        for (auto& p : x)
          for (size_t j = 0; j < (size_t{1} << gap); ++j) points.push_back(Shl(p, gap) | u128{j});
      }
    }
    VH_CHECK(c, got->size() == points.size(), "size_after_refusal", "%zu values for %zu points", got->size(), points.size());
    for (size_t j = 0; j < points.size(); ++j) {
      auto want = ref.Eval(key, level, points[j]);
      VH_CHECK(c, want && *want == (*got)[j], hurt || fired ? "wrong_after_refusal" : "wrong_value", "level %d point %s: %s instead of %s", level,
               Str(points[j]).c_str(), Str((*got)[j]).c_str(), want ? Str(*want).c_str() : "-");
    }
    c.Count("values_compared", points.size());
    done = level;
    pending = 0;
    known = std::move(points);
  }
  c.Count("calls", static_cast<uint64_t>(calls));
  if (refused == 0) c.Trivial();
}

// Evaluations too large for the memory there is are refused, and leave the
// context able to take a smaller step.
VH_GROUP(too_large, 800, 10000) {
  Rng& r = c.rng;
  const Ops* o = r.pick(AllOps());
  GenOptions go;
  go.only = o;
  std::vector<RefLevel> lv;
  // A small first level, one within reach, one out of reach of it.
  int small = 1 + static_cast<int>(r.below(4)), big = small + 26 + static_cast<int>(r.below(44));
  std::vector<int> lds = {small, small + 3, big};
  if (r.chance(1, 2)) lds.push_back(std::min(128, big + 1 + static_cast<int>(r.below(70))));
  for (int ld : lds) {
    RefLevel l;
    l.t = o->t;
    l.ld = ld;
    FixSecurity(r, &l);
    lv.push_back(l);
  }
  c.Desc("%s v=%016llx", LevelsName(lv).c_str(), static_cast<unsigned long long>(c.rng.u64()));
  auto d = MakeDpf(c, lv);
  if (!d || !RegisterAll(c, *d, lv)) return;
  u128 alpha = r.edgy(lv.back().ld);
  auto keys = GenAny(c, *d, lv, alpha, RandomBetas(r, lv));
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  const DpfKey& key = r.chance(1, 2) ? keys->first : keys->second;
  auto ctx = d->CreateEvaluationContext(key);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  auto compare = [&](int level, const std::vector<absl::uint128>& points, const absl::StatusOr<std::vector<RVal>>& got) {
    VH_CHECK(c, got.ok(), "smaller_step_refused", "level %d: %s", level, S(got.status()).c_str());
    VH_CHECK(c, got->size() == points.size(), "size", "%zu values for %zu points", got->size(), points.size());
    RefDpf ref(lv);
    for (size_t j = 0; j < points.size(); ++j) {
      auto want = ref.Eval(key, level, points[j]);
      VH_CHECK(c, want && *want == (*got)[j], "wrong_value", "level %d point %s: %s", level, Str(points[j]).c_str(), Str((*got)[j]).c_str());
    }
  };
  auto too_large = [&](int level, const std::vector<absl::uint128>& prefixes) {
    TheFaults().Reset();
    TheFaults().max_alloc = size_t{1} << 26;
    auto got = o->EvalUntil(*d, level, prefixes, *ctx);
    bool fired = TheFaults().fired > 0;
    TheFaults().Reset();
    VH_CHECK(c, !got.ok(), "too_large_accepted", "%zu values", got->size());
    VH_CHECK(c, got.status().code() == absl::StatusCode::kResourceExhausted || got.status().code() == absl::StatusCode::kInvalidArgument,
             "wrong_code", "%s", S(got.status()).c_str());
    c.Count(fired ? "memory_refused" : "refused_before");
  };
  std::vector<absl::uint128> points, none;
  too_large(2, none);
  if (c.failed()) return;
  if (r.chance(1, 2)) {
    too_large(2, none);
    if (c.failed()) return;
  }
  for (size_t j = 0; j < (size_t{1} << small); ++j) points.push_back(j);
  compare(0, points, o->EvalUntil(*d, 0, {}, *ctx));
  if (c.failed()) return;
  std::vector<absl::uint128> some, below;
  for (size_t j = 1 + r.below(points.size()); j > 0; --j) some.push_back(r.pick(points));
  too_large(2, some);
  if (c.failed()) return;
  for (auto& p : some)
    for (int j = 0; j < 8; ++j) below.push_back((p << 3) | u128(j));
  // A single element of the large level, or all of the one between.
  if (r.chance(1, 2)) {
    compare(1, below, o->EvalUntil(*d, 1, some, *ctx));
  } else {
    std::vector<absl::uint128> one = {Shl(some[0], lv[2].ld - small) | r.edgy(lv[2].ld - small)};
    compare(2, one, o->EvalAt(*d, 2, one, *ctx));
  }
}

// A random source that fails.
VH_GROUP(random_source, 600, 6000) {
  Rng& r = c.rng;
  rand::Reset(c.rng.u64());
  auto g = dp::BasicRng::Create(r.bytes(r.below(3)));
  VH_CHECK(c, g.ok(), "rng_refused", "%s", S(g.status()).c_str());
  auto draw = [&](int which) -> absl::Status {
    switch (which) {
      case 0: return (*g)->Rand8().status();
      case 1: return (*g)->Rand64().status();
      default: return (*g)->Rand128().status();
    }
  };
  for (int k = 0; k < 12; ++k) {
    bool broken = r.chance(1, 2);
    int which = static_cast<int>(r.below(3));
    rand::SetBroken(broken);
    absl::Status s = draw(which);
    rand::SetBroken(false);
    VH_CHECK(c, s.ok() == !broken, broken ? "swallowed_random" : "healthy_refused", "draw %d: %s", which, S(s).c_str());
    if (broken) VH_CHECK(c, s.code() == absl::StatusCode::kInternal, "wrong_code_random", "%s", S(s).c_str());
    c.Count(broken ? "refused.random" : "drawn");
  }
  // The interval gate masks its keys with it.
  int n = 1 + static_cast<int>(r.below(r.chance(1, 4) ? 127 : 12));
  dpflib::fss_gates::MicParameters p;
  p.set_log_group_size(n);
  size_t m = 1 + r.below(3);
  std::vector<absl::uint128> r_out;
  for (size_t i = 0; i < m; ++i) {
    u128 a = r.edgy(n), b = r.edgy(n);
    if (a > b) std::swap(a, b);
    auto* iv = p.add_intervals();
    iv->mutable_lower_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(a));
    iv->mutable_lower_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(a));
    iv->mutable_upper_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(b));
    iv->mutable_upper_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(b));
    r_out.push_back(r.edgy(n));
  }
  c.Desc("n=%d m=%zu v=%016llx", n, m, static_cast<unsigned long long>(c.rng.u64()));
  auto gate = MultipleIntervalContainmentGate::Create(p);
  VH_CHECK(c, gate.ok(), "gate_refused", "%s", S(gate.status()).c_str());
  u128 r_in = r.edgy(n);
  rand::SetBroken(true);
  auto keys = (*gate)->Gen(r_in, r_out);
  rand::SetBroken(false);
  VH_CHECK(c, !keys.ok(), "swallowed_random", "keys for %zu intervals without randomness", m);
  VH_CHECK(c, keys.status().code() == absl::StatusCode::kInternal, "wrong_code_random", "%s", S(keys.status()).c_str());
  c.Count("refused.random");
  keys = (*gate)->Gen(r_in, r_out);
  VH_CHECK(c, keys.ok(), "refused_afterwards", "%s", S(keys.status()).c_str());
}

// What a caller's own function returns as an error comes back as it is.
absl::Status Foreign(Rng& r) {
  static const absl::StatusCode codes[] = {absl::StatusCode::kCancelled, absl::StatusCode::kUnknown, absl::StatusCode::kDeadlineExceeded,
                                           absl::StatusCode::kAborted, absl::StatusCode::kUnavailable, absl::StatusCode::kDataLoss,
                                           absl::StatusCode::kUnauthenticated, absl::StatusCode::kInternal, absl::StatusCode::kInvalidArgument};
  return absl::Status(codes[r.below(sizeof(codes) / sizeof(codes[0]))], absl::StrCat("not today ", r.below(1000)));
}

// A database, or a builder of one, that fails when told to.
struct Switch {
  absl::Status build, product;
  int wrong_count = 0;  // answers too many or too few
  int asked = 0;
};
template <typename I>
class MoodyDb : public I {
 public:
  MoodyDb(std::unique_ptr<I> db, Switch* s) : db_(std::move(db)), s_(s) {}
  absl::StatusOr<std::vector<typename I::ResponseType>> InnerProductWith(
      absl::Span<const std::vector<typename I::BlockType>> sel) const override {
    ++s_->asked;
    if (!s_->product.ok()) return s_->product;
    auto r = db_->InnerProductWith(sel);
    if (r.ok() && s_->wrong_count < 0 && !r->empty()) r->pop_back();
    if (r.ok() && s_->wrong_count > 0) r->emplace_back();
    return r;
  }
  size_t size() const override { return db_->size(); }
  size_t num_selection_bits() const override { return db_->num_selection_bits(); }

 private:
  std::unique_ptr<I> db_;
  Switch* s_;
};
template <typename I>
class MoodyBuilder : public I::Builder {
 public:
  MoodyBuilder(std::unique_ptr<typename I::Builder> b, Switch* s) : b_(std::move(b)), s_(s) {}
  typename I::Builder& Insert(typename I::RecordType x) override {
    b_->Insert(std::move(x));
    return *this;
  }
  std::unique_ptr<typename I::Builder> Clone() const override { return std::make_unique<MoodyBuilder>(b_->Clone(), s_); }
  typename I::Builder& Clear() override {
    b_->Clear();
    return *this;
  }
  absl::StatusOr<std::unique_ptr<I>> Build() override {
    ++s_->asked;
    if (!s_->build.ok()) return s_->build;
    auto db = b_->Build();
    if (!db.ok()) return db.status();
    return std::unique_ptr<I>(std::make_unique<MoodyDb<I>>(*std::move(db), s_));
  }

 private:
  std::unique_ptr<typename I::Builder> b_;
  Switch* s_;
};

template <typename Server, typename Config, typename I>
absl::StatusOr<std::unique_ptr<dp::PirServer>> Moody(PirRole role, const Config& config, absl::StatusOr<std::unique_ptr<I>> db, Switch* sw,
                                                     dp::DpfPirServer::ForwardHelperRequestFn sender,
                                                     dp::DpfPirServer::DecryptHelperRequestFn decrypter) {
  if (!db.ok()) return db.status();
  std::unique_ptr<I> moody = std::make_unique<MoodyDb<I>>(*std::move(db), sw);
  return MakeServerOf<Server>(role, config, std::move(moody), std::move(sender), std::move(decrypter), nullptr);
}
absl::StatusOr<std::unique_ptr<dp::PirServer>> MoodyServer(const World& w, PirRole role, Switch* sw,
                                                           dp::DpfPirServer::ForwardHelperRequestFn sender = nullptr,
                                                           dp::DpfPirServer::DecryptHelperRequestFn decrypter = nullptr) {
  if (w.kind == DENSE) return Moody<dp::DenseDpfPirServer>(role, w.config, DenseDb(w), sw, std::move(sender), std::move(decrypter));
  if (w.kind == CUCKOO)
    return Moody<dp::CuckooHashingSparseDpfPirServer>(role, w.params.cuckoo_hashing_sparse_dpf_pir_server_params(), CuckooDb(w), sw,
                                                      std::move(sender), std::move(decrypter));
  return Moody<dp::SimpleHashingSparseDpfPirServer>(role, w.params.simple_hashing_sparse_dpf_pir_server_params(), SimpleDb(w), sw,
                                                    std::move(sender), std::move(decrypter));
}

VH_GROUP(callers_functions, 1800, 20000) {
  Rng& r = c.rng;
  PirKind kind = static_cast<PirKind>(c.index % 3);
  World w = AnyWorld(r, kind, 30);
  c.Desc("%s v=%016llx", KindName(kind), static_cast<unsigned long long>(c.rng.u64()));
  rand::Reset(c.rng.u64());
  Hybrid h(r.u64());
  // What fails: nothing, or one of these.
  enum { NOTHING, ENCRYPTER, DECRYPTER, SENDER_BEFORE, SENDER_AFTER, LEADER_DB, HELPER_DB, PARTS };
  int bad = NOTHING;
  absl::Status error = Foreign(r);
  Switch leader_db, helper_db;
  auto encrypter = [&](absl::string_view p, absl::string_view x) -> absl::StatusOr<std::string> {
    if (bad == ENCRYPTER) return error;
    return h.Encrypt(p, x);
  };
  Client cl;
  absl::Status st;
  if (kind == DENSE) {
    auto x = dp::DenseDpfPirClient::Create(w.config, encrypter);
    if (x.ok()) cl.dense = *std::move(x); else st = x.status();
  } else if (kind == CUCKOO) {
    auto x = dp::CuckooHashingSparseDpfPirClient::Create(w.params, encrypter);
    if (x.ok()) cl.cuckoo = *std::move(x); else st = x.status();
  } else {
    auto x = dp::SimpleHashingSparseDpfPirClient::Create(w.params, encrypter);
    if (x.ok()) cl.simple = *std::move(x); else st = x.status();
  }
  VH_CHECK(c, st.ok(), "client_refused", "%s", S(st).c_str());
  auto helper = MoodyServer(w, PirRole::HELPER, &helper_db, nullptr, [&](absl::string_view x, absl::string_view i) -> absl::StatusOr<std::string> {
    if (bad == DECRYPTER) return error;
    return h.Decrypt(x, i);
  });
  VH_CHECK(c, helper.ok(), "server_refused", "%s", S(helper.status()).c_str());
  auto leader = MoodyServer(w, PirRole::LEADER, &leader_db, [&](const dp::PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<dp::PirResponse> {
    if (bad == SENDER_BEFORE) return error;
    wait();
    if (bad == SENDER_AFTER) return error;
    return (*helper)->HandleRequest(q);
  });
  VH_CHECK(c, leader.ok(), "server_refused", "%s", S(leader.status()).c_str());
  auto answer = [&](const Query& q) -> absl::StatusOr<Answers> {
    auto req = cl.CreateRequest(q);
    if (!req.ok()) return req.status();
    auto resp = (*leader)->HandleRequest(req->first);
    if (!resp.ok()) return resp.status();
    return cl.HandleResponse(*resp, req->second);
  };
  Query q = AnyQuery(r, w, 4);
  auto want = answer(q);
  VH_CHECK(c, want.ok(), "healthy_refused", "%s", S(want.status()).c_str());
  for (int k = 0; k < 6; ++k) {
    bad = 1 + static_cast<int>(r.below(PARTS - 1));
    error = Foreign(r);
    leader_db = helper_db = Switch();
    if (bad == LEADER_DB) leader_db.product = error;
    if (bad == HELPER_DB) helper_db.product = error;
    auto got = answer(q);
    static const char* const names[] = {"nothing", "encrypter", "decrypter", "sender_before", "sender_after", "leader_db", "helper_db"};
    VH_CHECK(c, !got.ok(), std::string("swallowed_") + names[bad], "%zu answers in spite of %s", got->size(), S(error).c_str());
    VH_CHECK(c, got.status().code() == error.code() && absl::StrContains(got.status().message(), error.message()),
             std::string("replaced_") + names[bad], "%s instead of %s", S(got.status()).c_str(), S(error).c_str());
    c.Count((std::string("failed.") + names[bad]).c_str());
    // A database that miscounts.
    bad = NOTHING;
    leader_db = helper_db = Switch();
    int miscount = static_cast<int>(r.below(3));
    if (miscount < 2) {
      (miscount ? leader_db : helper_db).wrong_count = r.chance(1, 2) ? 1 : -1;
      auto odd = answer(q);
      VH_CHECK(c, !odd.ok(), "miscount_accepted", "%zu answers", odd->size());
      c.Count("failed.miscount");
      leader_db = helper_db = Switch();
    }
    auto again = answer(q);
    VH_CHECK(c, again.ok() && *again == *want, "differs_afterwards", "%s", S(again.status()).c_str());
  }
}

// Hashed databases on top of builders that fail.
VH_GROUP(moody_builders, 1200, 15000) {
  Rng& r = c.rng;
  using Dense = dp::CuckooHashedDpfPirDatabase::DenseDatabase;
  bool cuckoo = c.index % 2 == 0;
  World w = AnyWorld(r, cuckoo ? CUCKOO : SIMPLE, 30);
  c.Desc("%s v=%016llx", KindName(w.kind), static_cast<unsigned long long>(c.rng.u64()));
  auto dense = [] { return std::make_unique<dp::DenseDpfPirDatabase::Builder>(); };
  Switch keys, values;
  bool at_build = r.chance(1, 2), in_keys = cuckoo && r.chance(1, 2);
  absl::Status error = Foreign(r);
  Switch& sick = in_keys ? keys : values;
  auto test = [&](auto* proto) {
    using Db = std::decay_t<decltype(*proto)>;
    typename Db::Builder b;
    if constexpr (std::is_same_v<Db, dp::CuckooHashedDpfPirDatabase>) {
      b.SetParams(w.params.cuckoo_hashing_sparse_dpf_pir_server_params());
      b.SetKeyDatabaseBuilder(std::make_unique<MoodyBuilder<Dense>>(dense(), &keys));
      b.SetValueDatabaseBuilder(std::make_unique<MoodyBuilder<Dense>>(dense(), &values));
    } else {
      b.SetParams(w.params.simple_hashing_sparse_dpf_pir_server_params());
      b.SetDenseDatabaseBuilder(std::make_unique<MoodyBuilder<Dense>>(dense(), &values));
    }
    for (auto& x : w.records) b.Insert(x);
    auto spare = b.Clone();
    if (at_build) {
      sick.build = error;
      auto db = r.chance(1, 2) ? b.Build() : b.Clone()->Build();
      VH_CHECK(c, !db.ok(), "swallowed_build", "%s", S(error).c_str());
      VH_CHECK(c, db.status() == error, "replaced_build", "%s instead of %s", S(db.status()).c_str(), S(error).c_str());
      c.Count("failed.build");
      sick.build = absl::OkStatus();
    }
    auto db = spare->Build();
    VH_CHECK(c, db.ok(), "build_refused", "%s", S(db.status()).c_str());
    std::vector<std::vector<dp::XorWrapper<absl::uint128>>> sel(1 + r.below(4));
    for (auto& v : sel)
      for (size_t i = 0; i < ((*db)->num_selection_bits() + 127) / 128; ++i) v.emplace_back(r.wide());
    auto want = (*db)->InnerProductWith(sel);
    VH_CHECK(c, want.ok(), "healthy_refused", "%s", S(want.status()).c_str());
    sick.product = error;
    auto got = (*db)->InnerProductWith(sel);
    VH_CHECK(c, !got.ok(), "swallowed_product", "%s", S(error).c_str());
    VH_CHECK(c, got.status() == error, "replaced_product", "%s instead of %s", S(got.status()).c_str(), S(error).c_str());
    c.Count("failed.product");
    sick.product = absl::OkStatus();
    if (cuckoo) {
      sick.wrong_count = r.chance(1, 2) ? 1 : -1;
      auto odd = (*db)->InnerProductWith(sel);
      VH_CHECK(c, !odd.ok(), "miscount_accepted", "%zu records", odd->size());
      c.Count("failed.miscount");
      sick.wrong_count = 0;
    }
    auto again = (*db)->InnerProductWith(sel);
    VH_CHECK(c, again.ok() && *again == *want, "differs_afterwards", "%s", S(again.status()).c_str());
  };
  if (cuckoo) test(static_cast<dp::CuckooHashedDpfPirDatabase*>(nullptr));
  else test(static_cast<dp::SimpleHashedDpfPirDatabase*>(nullptr));
}

}  // namespace
}  // namespace vh
