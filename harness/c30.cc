// needs: dpf
// cxxflags: -I/verif/shim_exp -fno-sanitize=return -fno-strict-return
// ld: -labsl_flags_internal -labsl_flags_reflection -labsl_flags_marshalling -labsl_flags_parse -labsl_flags_commandlineflag -labsl_flags_commandlineflag_internal -labsl_flags_config -labsl_flags_program_name -labsl_flags_usage -labsl_flags_usage_internal -labsl_flags_private_handle_accessor
// C30: the experiment expands what its flags and its input say.
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <csignal>
#include <set>

#define main SyntheticMain
#include "experiments/synthetic_data_benchmarks.cc"
#undef main

#include "common/refdpf.h"
#include "common/vh.h"

namespace {
std::vector<std::vector<uint32_t>>* g_results = nullptr;
}
namespace verif_exp {
void Result(const uint32_t* v, size_t n) { g_results->emplace_back(v, v + n); }
}  // namespace verif_exp

namespace vh {
namespace {

struct Outcome {
  bool ended = false;  // by itself, with status 0
  std::string how, says;
  std::vector<std::vector<uint32_t>> results;
  std::vector<std::string> drawn;
};

void Put(int fd, const void* p, size_t n) {
  const char* s = static_cast<const char*>(p);
  while (n > 0) {
    ssize_t k = write(fd, s, n);
    if (k <= 0) _exit(98);
    s += k;
    n -= static_cast<size_t>(k);
  }
}

Outcome Run(uint64_t seed, const std::string* input, std::vector<std::string> flags) {
  Outcome o;
  int in = -1;
  if (input) {
    in = memfd_create("input", 0);
    Put(in, input->data(), input->size());
    flags.push_back("--input=/proc/self/fd/" + std::to_string(in));
  }
  int err = memfd_create("err", 0), fd[2];
  if (pipe(fd) != 0) abort();
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    dup2(err, 2);
    alarm(25);
    g_results = new std::vector<std::vector<uint32_t>>;
    rand::Reset(seed);
    std::string name = "experiment";
    std::vector<char*> argv{&name[0]};
    for (auto& f : flags) argv.push_back(&f[0]);
    int argc = static_cast<int>(argv.size());
    argv.push_back(nullptr);
    SyntheticMain(argc, argv.data());
    auto number = [&](uint64_t n) { Put(fd[1], &n, 8); };
    number(rand::Log().size());
    for (auto& d : rand::Log()) number(d.bytes.size()), Put(fd[1], d.bytes.data(), d.bytes.size());
    number(g_results->size());
    for (auto& r : *g_results) number(r.size()), Put(fd[1], r.data(), 4 * r.size());
    close(fd[1]);
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char buf[65536];
  for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) all.append(buf, static_cast<size_t>(k));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  ssize_t k = pread(err, buf, 300, 0);
  o.says.assign(buf, static_cast<size_t>(std::max<ssize_t>(k, 0)));
  for (char& ch : o.says)
    if (ch == '\n') ch = ' ';
  close(err);
  if (in >= 0) close(in);
  if (WIFSIGNALED(status)) o.how = WTERMSIG(status) == SIGALRM ? "hangs" : "signal " + std::to_string(WTERMSIG(status));
  else o.how = "status " + std::to_string(WEXITSTATUS(status));
  o.ended = WIFEXITED(status) && WEXITSTATUS(status) == 0;
  if (!o.ended) return o;
  size_t at = 0;
  auto number = [&] {
    uint64_t n = 0;
    if (at + 8 <= all.size()) memcpy(&n, &all[at], 8);
    at += 8;
    return n;
  };
  for (uint64_t n = number(); n > 0 && at < all.size(); --n) {
    uint64_t m = number();
    o.drawn.push_back(all.substr(at, m));
    at += m;
  }
  for (uint64_t n = number(); n > 0 && at <= all.size(); --n) {
    uint64_t m = number();
    o.results.emplace_back(m);
    if (m) memcpy(o.results.back().data(), &all[at], 4 * m);
    at += 4 * m;
  }
  return o;
}

std::string Decimal(u128 x) {
  std::string s;
  do s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(x % 10))); while (x /= 10);
  return s;
}
std::set<u128> Buckets(Rng& r, int ld, size_t n) {
  std::set<u128> s;
  int way = static_cast<int>(r.below(5));
  u128 base = r.bits(ld);
  for (size_t i = 0; i < 4 * n && s.size() < n; ++i) {
    switch (way) {
      case 0: s.insert(r.edgy(ld)); break;
      case 1: s.insert(ld == 128 ? base + i : (base + i) % (u128{1} << ld)); break;                 // neighbours
      case 2: s.insert((base ^ r.bits(std::min(ld, 6)))); break;                                       // one cluster
      case 3: s.insert(ld > 4 ? (static_cast<u128>(r.below(16)) << (ld - 4)) | r.bits(std::min(3, ld - 4)) : r.bits(ld)); break;
      default: s.insert(r.bits(ld));
    }
  }
  return s;
}
std::string Csv(Rng& r, const std::set<u128>& s) {
  std::vector<u128> v(s.begin(), s.end());
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
  std::string out;
  int way = static_cast<int>(r.below(3));
  for (u128 x : v) {
    for (int k = r.chance(1, 8) ? 2 : 1; k > 0; --k) {  // some twice
      out += Decimal(x);
      if (way == 1) out += "," + std::to_string(r.below(100));
      if (way == 2) out += r.chance(1, 2) ? ",x,y" : " ,";
      out += "\n";
    }
  }
  if (!out.empty() && r.chance(1, 3)) out.pop_back();
  return out;
}
std::vector<u128> Prefixes(const std::set<u128>& s, int ld, int level) {
  std::set<u128> p;
  for (u128 x : s) p.insert(ld - level >= 128 ? u128{0} : x >> (ld - level));
  return std::vector<u128>(p.begin(), p.end());
}

// There is an alpha for which the values are shares of either party.
bool Explained(const Outcome& o, size_t levels, const std::vector<int>& lds, const std::vector<std::vector<u128>>& points) {
  std::vector<RefLevel> lv;
  for (int l : lds) lv.push_back({l, RT::Int(32)});
  RefDpf ref(lv);
  auto u = [](const std::string& s) {
    u128 x;
    memcpy(&x, s.data(), 16);
    return x;
  };
  std::vector<RVal> beta(levels, RVal{1, {}});
  for (u128 alpha = 0; alpha < (u128{1} << lds.back()); ++alpha) {
    auto keys = ref.Gen(u(o.drawn[0]), u(o.drawn[1]), alpha, beta);
    for (auto* key : {&keys.first, &keys.second}) {
      bool same = true;
      for (size_t i = 0; i < levels && same; ++i) {
        for (size_t j = 0; j < points[i].size() && same; ++j) {
          auto v = ref.Eval(*key, static_cast<int>(i), points[i][j]);
          same = v && v->v == o.results[i][j];
        }
      }
      if (same) return true;
    }
  }
  return false;
}
std::vector<u128> Expanded(const std::vector<u128>& prefixes, int gap) {
  std::vector<u128> x;
  for (u128 p : prefixes)
    for (u128 j = 0; j < (u128{1} << gap); ++j) x.push_back((p << gap) | j);
  return x;
}

std::string Joined(const std::vector<int>& v) {
  std::string s;
  for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
  return s;
}

// What a run must show, given the flags.
VH_GROUP(runs, 1200, 12000) {
  Rng& r = c.rng;
  int way = static_cast<int>(c.index % 5);  // automatic levels (twice), given levels, only the nonzeros, no input
  bool small = r.chance(1, 3);              // small enough to explain the values
  int ld = small ? 1 + static_cast<int>(r.below(5)) : static_cast<int>(r.below(129));
  if (way == 4) ld = small ? ld : static_cast<int>(r.below(14));
  size_t n = r.chance(1, 3) ? 1 + r.below(4) : 1 + r.below(r.chance(1, 8) ? 600 : 60);
  auto buckets = Buckets(r, ld, n);
  n = buckets.size();
  int64_t factor = r.chance(1, 2) ? 2 : r.chance(1, 8) ? 100 + static_cast<int64_t>(r.below(100)) : 2 + static_cast<int64_t>(r.below(9));
  int iterations = 1 + static_cast<int>(r.below(3));
  uint64_t seed = r.u64();
  std::string input = Csv(r, buckets);
  std::vector<std::string> flags{"--log_domain_size=" + std::to_string(ld), "--num_iterations=" + std::to_string(iterations)};
  if (factor != 2 || r.chance(1, 2)) flags.push_back("--max_expansion_factor=" + std::to_string(factor));
  std::vector<int> given;
  if (way == 2 || (way == 3 && r.chance(1, 3) && ld > 1)) {
    for (int l = static_cast<int>(1 + r.below(9)); l < ld; l += 1 + static_cast<int>(r.below(8))) given.push_back(l);
    if (ld > 0) given.push_back(ld);
    if (!given.empty()) flags.push_back("--levels_to_evaluate=" + Joined(given));
  }
  if (way == 3) flags.push_back("--only_nonzeros");
  if (way == 4 && ld > 0 && r.chance(1, 3)) flags.push_back("--levels_to_evaluate=" + std::to_string(ld));
  for (size_t i = flags.size(); i > 1; --i) std::swap(flags[i - 1], flags[r.below(i)]);
  std::string all;
  for (auto& f : flags) all += f + " ";
  c.Desc("%s%s n=%zu v=%016llx", all.c_str(), way == 4 ? "no input" : "", n, static_cast<unsigned long long>(seed));
  Outcome o = Run(seed, way == 4 ? nullptr : &input, flags);
  VH_CHECK(c, o.ended, "fails", "%s: %s", o.how.c_str(), o.says.c_str());
  VH_CHECK(c, o.results.size() % static_cast<size_t>(iterations) == 0 && !o.results.empty(), "other_iterations", "%zu results in %d iterations", o.results.size(), iterations);
  size_t levels = o.results.size() / static_cast<size_t>(iterations);
  for (size_t i = levels; i < o.results.size(); ++i) VH_CHECK(c, o.results[i] == o.results[i - levels], "iterations_differ", "level %zu", i % levels);
  VH_CHECK(c, o.drawn.size() == 2 && o.drawn[0].size() == 16 && o.drawn[1].size() == 16, "other_draws", "%zu", o.drawn.size());
  std::vector<std::vector<u128>> points;
  std::vector<int> lds;
  if (way == 3) {
    VH_CHECK(c, levels == 1 && o.results[0].size() == n, "other_size", "%zu results, the first of %zu values for %zu buckets", levels, o.results[0].size(), n);
    lds = {ld};
    points = {Prefixes(buckets, ld, ld)};
    c.Count("only_nonzeros");
  } else if (way == 4) {
    VH_CHECK(c, levels == 1 && o.results[0].size() == size_t{1} << ld, "other_size", "%zu results, the first of %zu values", levels, o.results[0].size());
    lds = {ld};
    points = {Expanded({0}, ld)};
    c.Count("full_domains");
  } else {
    std::vector<u128> p{0};
    int last = 0;
    for (size_t i = 0; i < levels; ++i) {
      size_t size = o.results[i].size();
      VH_CHECK(c, size > 0 && size % p.size() == 0, "other_size", "level %zu: %zu values below %zu prefixes", i, size, p.size());
      size_t per = size / p.size();
      int gap = 0;
      while ((size_t{1} << gap) < per) ++gap;
      VH_CHECK(c, (size_t{1} << gap) == per && last + gap <= ld && (i == 0 || gap > 0), "other_size", "level %zu: %zu values below %zu prefixes of %d bits", i, size, p.size(), last);
      if (given.empty()) VH_CHECK(c, static_cast<int64_t>(size) <= factor * static_cast<int64_t>(n), "too_large", "level %zu: %zu values for %zu buckets and a factor of %lld", i, size, n, static_cast<long long>(factor));
      points.push_back(Expanded(p, gap));
      last += gap;
      lds.push_back(last);
      p = Prefixes(buckets, ld, last);
    }
    VH_CHECK(c, last == ld, "incomplete", "the last level has %d bits", last);
    if (!given.empty()) VH_CHECK(c, lds == given, "other_levels", "%s", Joined(lds).c_str());
    c.Count(given.empty() ? "automatic_levels" : "given_levels", levels);
  }
  if (ld <= 6) {
    VH_CHECK(c, Explained(o, levels, lds, points), "other_values", "no alpha explains the values");
    c.Count("explained");
  }
  c.Count("values", o.results[0].size());
}

// Flags and inputs to refuse, or at least not to stumble over.
VH_GROUP(refusals, 300, 3000) {
  Rng& r = c.rng;
  std::vector<std::string> flags;
  std::string input = "3\n5\n12\n";
  const std::string* in = &input;
  int way = static_cast<int>(c.index % 12);
  switch (way) {
    case 0: flags = {"--log_domain_size=" + std::to_string(-1 - static_cast<int>(r.below(5)))}; in = nullptr; break;
    case 1: flags = {"--num_iterations=" + std::to_string(-static_cast<int>(r.below(3)))}; break;
    case 2: flags = {"--only_nonzeros"}; in = nullptr; break;
    case 3: flags = {"--max_expansion_factor=" + std::to_string(1 - static_cast<int>(r.below(4)))}; break;
    case 4: flags = {"--levels_to_evaluate=3,x,20"}; break;
    case 5: flags = {"--levels_to_evaluate=" + std::string(r.chance(1, 2) ? "0" : r.chance(1, 2) ? "0,20" : std::to_string(21 + r.below(9)))}; break;
    case 6: input.insert(r.below(3) * 2, "\n"); break;
    case 7: input.insert(r.below(3) * 2, r.chance(1, 2) ? "abc\n" : "-4\n"); break;
    case 8: flags = {"--levels_to_evaluate=8,4,20"}; break;
    case 9: flags = {"--levels_to_evaluate=4,12,20"}; in = nullptr; break;
    case 10: input += "340282366920938463463374607431768211456\n"; break;
    default: flags = {"--input=/nonexistent/input"}; in = nullptr; break;
  }
  c.Desc("way=%d %s %s v=%016llx", way, flags.empty() ? "" : flags[0].c_str(), in ? in->substr(0, 20).c_str() : "no input", static_cast<unsigned long long>(r.u64()));
  Outcome o = Run(r.u64(), in, flags);
  VH_CHECK(c, o.how != "hangs", "hangs", "%s", o.says.c_str());
  VH_CHECK(c, o.how != "status 99" && o.how != "signal 11" && o.says.find("runtime error") == std::string::npos && o.says.find("Sanitizer") == std::string::npos,
           "stumbles", "%s: %s", o.how.c_str(), o.says.c_str());
  VH_CHECK(c, !o.ended, "accepted", "%s", o.says.c_str());
  c.Count("refused");
}

}  // namespace
}  // namespace vh
