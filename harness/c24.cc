// needs: ops dcfops dcf pir
// C24: objects shared between threads: no races, and a lone thread's results.
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>

#include "c24_jitter.h"
#include "common/opmix.h"

namespace vh {
namespace {

// Runs the calls of a shared object in several threads at once.
void Threads(Case& c, const Maker& make) {
  Rng& r = c.rng;
  current_group = c.group.c_str();
  current_index = c.index;
  uint64_t seed = r.u64();
  Shared shared = make(seed), twin = make(seed);
  VH_CHECK(c, !shared.failed && !twin.failed && shared.ops.size() == twin.ops.size() && !shared.ops.empty(), "setup_refused", "no objects");
  size_t n = shared.ops.size();
  std::vector<uint64_t> op_seed(n);
  for (auto& s : op_seed) s = r.u64();
  std::vector<std::string> want(n);
  auto alone = [&] {
    for (size_t i = 0; i < n; ++i) {
      rand::Reset(op_seed[i]);
      want[i] = twin.ops[i].run();
    }
  };
  // Lone results may come first or last, so that state the library keeps
  // outside the objects is not always warm.
  bool before = r.chance(1, 2);
  if (before) alone();
  size_t threads = 2 + r.below(5);
  size_t rounds = 1 + r.below(c.thorough ? 4 : 2);
  // Some cases have everyone do the same call at the same time.
  bool lockstep = r.chance(1, 4);
  struct Result {
    size_t op;
    std::string got;
    bool overlapped;
  };
  std::vector<std::vector<Result>> results(threads);
  std::vector<std::vector<size_t>> plan(threads);
  std::vector<size_t> order;
  for (size_t k = 0; k < rounds; ++k)
    for (size_t i = 0; i < n; ++i) order.push_back(i);
  for (auto& p : plan) {
    p = order;
    if (!lockstep) r.shuffle(p);
  }
  std::vector<uint64_t> jitter(threads);
  bool pauses = r.chance(2, 3);
  for (auto& j : jitter) j = pauses ? r.u64() | 1 : 0;
  std::atomic<int> inflight{0}, ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      rand::SetLogging(false);
      jitter_state = jitter[t];
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < static_cast<int>(threads)) {
      }
      for (size_t i : plan[t]) {
        rand::Reset(op_seed[i]);
        bool overlap = inflight.fetch_add(1, std::memory_order_relaxed) > 0;
        Jitter();
        std::string got = shared.ops[i].run();
        overlap |= inflight.fetch_sub(1, std::memory_order_relaxed) > 1;
        results[t].push_back({i, std::move(got), overlap});
      }
      jitter_state = 0;
    });
  }
  for (auto& t : ts) t.join();
  if (!before) alone();
  size_t calls = 0, overlapped = 0;
  for (auto& v : results) {
    for (auto& x : v) {
      VH_CHECK(c, x.got == want[x.op], "result_differs_among_threads", "%s: %s instead of %s", shared.ops[x.op].what.c_str(),
               Hex(x.got, 200).c_str(), Hex(want[x.op], 200).c_str());
      ++calls;
      overlapped += x.overlapped;
      c.Count(("calls." + shared.ops[x.op].what).c_str());
    }
  }
  // And the shared object still gives a lone thread the same.
  for (size_t i = 0; i < n; ++i) {
    rand::Reset(op_seed[i]);
    std::string got = shared.ops[i].run();
    VH_CHECK(c, got == want[i], "result_differs_afterwards", "%s: %s instead of %s", shared.ops[i].what.c_str(), Hex(got, 200).c_str(),
             Hex(want[i], 200).c_str());
  }
  c.Count("threads", threads);
  c.Count("overlapped_calls", overlapped);
  if (overlapped == 0) c.Trivial();
  c.Desc(" threads=%zu calls=%zu v=%016llx", threads, calls, static_cast<unsigned long long>(seed));
}

VH_GROUP(dpf, 480, 12000) { Threads(c, MakeDpfOps(c)); }
VH_GROUP(dcf, 320, 8000) { Threads(c, MakeDcfOps(c)); }
VH_GROUP(intervals, 160, 4000) { Threads(c, MakeIntervalOps(c)); }
VH_GROUP(hashes, 320, 8000) { Threads(c, MakeHashOps(c)); }
VH_GROUP(databases, 320, 8000) { Threads(c, MakeDatabaseOps(c)); }
VH_GROUP(pir, 480, 12000) { Threads(c, MakePirOps(c)); }
VH_GROUP(construction, 160, 4000) { Threads(c, MakeConstructionOps(c)); }

}  // namespace
}  // namespace vh
