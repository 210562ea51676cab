#include "common/vh.h"

#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <valgrind/valgrind.h>

#include <algorithm>
#include <mutex>
#include <set>
#include <unordered_set>

namespace vh {
namespace {

uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Group {
  std::string name;
  uint64_t quick, thorough;
  CaseFn fn;
};
std::vector<Group>& Groups() {
  static auto* g = new std::vector<Group>();
  return *g;
}

// Shared with the runner through a file: which case is running.
struct Status {
  char group[64];
  uint64_t index;
  uint64_t started;  // cases started by this process
  char desc[4000];
};
Status* g_status = nullptr;
FILE* g_out = nullptr;
std::mutex g_mu;
std::map<std::string, uint64_t>& Tallies() {
  static auto* t = new std::map<std::string, uint64_t>();
  return *t;
}
uint64_t g_failures = 0;

std::string Escape(const std::string& s) {
  std::string out;
  for (char ch : s) {
    if (ch == '\n' || ch == '\t' || ch == '\r') {
      out += ' ';
    } else if (static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) > 126) {
      out += '?';
    } else {
      out += ch;
    }
  }
  return out;
}

}  // namespace

Rng::Rng(uint64_t seed) {
  for (auto& s : s_) s = SplitMix(seed);
}
uint64_t Rng::u64() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t result = rotl(s_[1] * 5, 7) * 9;
  uint64_t t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return result;
}
uint64_t Rng::below(uint64_t n) {
  if (n == 0) return 0;
  return static_cast<uint64_t>((static_cast<unsigned __int128>(u64()) * n) >> 64);
}
std::string Rng::bytes(size_t n) {
  std::string out(n, '\0');
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = u64();
    memcpy(&out[i], &v, std::min<size_t>(8, n - i));
  }
  return out;
}
u128 Rng::bits(int bits) {
  if (bits <= 0) return 0;
  u128 v = wide();
  if (bits < 128) v &= (u128{1} << bits) - 1;
  return v;
}
u128 Rng::edgy(int bits) {
  if (bits <= 0) return 0;
  u128 max = bits >= 128 ? absl::Uint128Max() : (u128{1} << bits) - 1;
  switch (below(8)) {
    case 0: return u128{below(4)} & max;
    case 1: return max - (u128{below(4)} & max);
    case 2: return (u128{1} << below(bits)) & max;
    case 3: return ((u128{1} << below(bits)) - 1) & max;
    default: return this->bits(bits);
  }
}

uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ULL + b;
  SplitMix(x);
  return SplitMix(x);
}
uint64_t Hash(absl::string_view s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL;
  return Mix(h, s.size());
}

Case::Case(uint64_t seed_in, const std::string& group_in, uint64_t index_in, bool thorough_in)
    : rng(Mix(Mix(seed_in, Hash(group_in)), index_in)),
      seed(seed_in), group(group_in), index(index_in), thorough(thorough_in) {}

void Case::Desc(const char* fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  desc_ += buf;
  if (g_status) {
    size_t n = std::min(desc_.size(), sizeof(g_status->desc) - 1);
    memcpy(g_status->desc, desc_.data(), n);
    g_status->desc[n] = 0;
  }
}

void Case::Fail(const std::string& key, const char* fmt, ...) {
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  std::lock_guard<std::mutex> l(g_mu);
  failed_ = true;
  ++g_failures;
  if (g_failures > 200) return;
  fprintf(g_out ? g_out : stdout, "F\t%s\t%llu\t%s\t%s\t%s\n", group.c_str(),
          static_cast<unsigned long long>(index), Escape(key).c_str(), Escape(buf).c_str(),
          Escape(desc_).substr(0, 3000).c_str());
  fflush(g_out ? g_out : stdout);
}

void Case::Count(const char* what, uint64_t n) {
  std::lock_guard<std::mutex> l(g_mu);
  Tallies()[group + "." + what] += n;
}

Registration::Registration(const char* name, uint64_t quick, uint64_t thorough, CaseFn fn) {
  Groups().push_back({name, quick, thorough, fn});
}

std::string Str(u128 v) {
  if (v == 0) return "0";
  std::string s;
  while (v > 0) {
    s += static_cast<char>('0' + static_cast<int>(absl::Uint128Low64(v % 10)));
    v /= 10;
  }
  std::reverse(s.begin(), s.end());
  return s;
}
std::string Hex(absl::string_view s, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string out;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    out += d[static_cast<unsigned char>(s[i]) >> 4];
    out += d[static_cast<unsigned char>(s[i]) & 15];
  }
  if (s.size() > max) out += "..";
  return out;
}
std::string S(const absl::Status& s) { return std::string(s.ToString()); }

int Main(int argc, char** argv) {
  uint64_t seed = 1, index = 0, shard = 0, nshards = 1, resume_index = 0;
  bool list = false, thorough = false, single = false, resume = false;
  std::string group, out, status, resume_group;
  double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") list = true;
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--group") group = next();
    else if (a == "--index") { index = strtoull(next().c_str(), nullptr, 10); single = true; }
    else if (a == "--shard") { std::string v = next(); sscanf(v.c_str(), "%lu/%lu", &shard, &nshards); }
    else if (a == "--out") out = next();
    else if (a == "--status") status = next();
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--resume-after") { resume = true; resume_group = next(); resume_index = strtoull(next().c_str(), nullptr, 10); }
    else { fprintf(stderr, "unknown flag %s\n", a.c_str()); return 64; }
  }
  if (list) {
    for (auto& g : Groups()) printf("%s %llu %llu\n", g.name.c_str(), (unsigned long long)g.quick, (unsigned long long)g.thorough);
    return 0;
  }
  g_out = out.empty() ? stdout : fopen(out.c_str(), "a");
  if (!g_out) { perror("out"); return 65; }
  if (!status.empty()) {
    int fd = open(status.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) { perror("status"); return 65; }
    g_status = static_cast<Status*>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
    if (g_status == MAP_FAILED) { perror("mmap"); return 65; }
  }
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> prints;
  bool skipping = resume;
  for (auto& g : Groups()) {
    if (!group.empty() && g.name != group) continue;
    if (skipping && g.name != resume_group) continue;
    uint64_t n = thorough ? g.thorough : g.quick;
    if (scale != 1) n = std::max<uint64_t>(1, static_cast<uint64_t>(n * scale));
    uint64_t first = 0, last = n;
    if (single) { first = index; last = index + 1; }
    int samples = 0;
    for (uint64_t i = first; i < last; ++i) {
      if (!single && (i + Hash(g.name)) % nshards != shard) continue;
      if (skipping && i <= resume_index) continue;
      Case c(seed, g.name, i, thorough);
      if (g_status) {
        snprintf(g_status->group, sizeof(g_status->group), "%s", g.name.c_str());
        g_status->index = i;
        g_status->desc[0] = 0;
        ++g_status->started;
      }
      rand::Reset(c.rng.u64());
      rand::SetLogging(true);
      rand::SetFill(-1);
      unsigned errors = VALGRIND_COUNT_ERRORS;
      g.fn(c);
      ++evaluations;
      if (RUNNING_ON_VALGRIND) {
        if (VALGRIND_COUNT_ERRORS != errors && !c.failed())
          c.Fail("unwritten_used", "memcheck reported errors: something was decided by memory nobody wrote, or memory out of bounds was used");
        c.Count("on_memcheck");
      }
      if (!c.trivial()) {
        uint64_t h = Hash(g.name + "|" + c.desc());
        if (prints.insert(h).second) {
          fprintf(g_out, "N\t%016llx\n", (unsigned long long)h);
        }
        if (samples < 2 && !c.desc().empty()) {
          ++samples;
          fprintf(g_out, "S\t%s\t%llu\t%s\n", g.name.c_str(), (unsigned long long)i, Escape(c.desc()).substr(0, 500).c_str());
        }
      }
      Tallies()["cases." + g.name] += 1;
    }
    skipping = false;
  }
  fprintf(g_out, "E\t%llu\n", (unsigned long long)evaluations);
  for (auto& [k, v] : Tallies()) fprintf(g_out, "T\t%s\t%llu\n", k.c_str(), (unsigned long long)v);
  fprintf(g_out, "D\n");
  fflush(g_out);
  return g_failures ? 1 : 0;
}

}  // namespace vh

int main(int argc, char** argv) {
  int rc = vh::Main(argc, argv);
  fflush(stdout);
  fflush(stderr);
  return rc;
}
