// Property-based testing engine: choice-sequence generators, forked workers, shrinking, replay.
//
// A case is a pure function of a sequence of words ("choices").  In a run the words come from a
// seeded generator and are recorded (in shared memory, so that they survive a crash); a replay or
// a shrinking attempt feeds recorded words back (missing words read as 0).  Generators map 0 to the
// simplest value, so deleting and lowering words simplifies the case.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string tag, msg; };
struct Discard {};

constexpr size_t kMaxWords = 1u << 18;
struct Shared {               // MAP_SHARED between supervisor and case-running child
  volatile uint64_t case_idx;
  volatile uint64_t n_words;
  volatile int status;        // 0 running, 1 pass, 2 fail, 3 discard
  volatile uint64_t progress; // bumped per case
  char tag[256];
  char msg[16384];
  char desc[65536];
  uint64_t words[kMaxWords];
};

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b, uint64_t c = 0) {
  uint64_t s = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL) * 0xd6e8feb86659fd93ULL ^
               (c + 0x2545F4914F6CDD1DULL) * 0xc2b2ae3d27d4eb4fULL;
  splitmix(s);
  return splitmix(s);
}

class Src {
 public:
  bool random = true;
  uint64_t rng = 0;
  const uint64_t* in = nullptr;
  size_t n_in = 0, pos = 0;
  const uint8_t* bytes = nullptr;  // libFuzzer mode
  size_t n_bytes = 0;
  Shared* rec = nullptr;
  uint64_t hash = 1469598103934665603ULL;

  uint64_t below(uint64_t n) {  // [0, n)
    if (n <= 1) n = 1;
    uint64_t v;
    if (bytes) {
      v = 0;
      int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      for (int i = 0; i < k; ++i) { v <<= 8; if (pos < n_bytes) v |= bytes[pos++]; }
      v %= n;
    } else if (random) {
      v = splitmix(rng) % n;
    } else {
      v = pos < n_in ? in[pos] % n : 0;
      ++pos;
    }
    if (rec && rec->n_words < kMaxWords) { rec->words[rec->n_words] = v; rec->n_words = rec->n_words + 1; }
    hash = (hash ^ v) * 1099511628211ULL;
    hash ^= hash >> 29;
    return v;
  }
  int irange(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
  // Mostly in [lo,hi], one time in twenty-five in [lo,big].
  int sized(int lo, int hi, int big) { return irange(lo, chance(1, 25) ? big : hi); }
  bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
  double unit() { return below(1ull << 40) / (double)(1ull << 40); }
  // Real in [lo,hi]; word 0 gives the point of the range nearest to zero; a third of the draws lie
  // on a half-integer grid.
  double real(double lo, double hi) {
    double anchor = lo > 0 ? lo : hi < 0 ? hi : 0.0;
    uint64_t m = below(3);
    if (m == 0) {
      double k = (double)below(41);
      double off = 0.5 * std::ceil(k / 2) * (((int)k) % 2 ? 1 : -1);
      double v = anchor + off;
      if (v < lo || v > hi) v = anchor;
      return v;
    }
    return lo + (hi - lo) * unit();
  }
  double logreal(double lo, double hi) {  // log-uniform, lo>0
    return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit());
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

class Ctx {
 public:
  Src s;
  std::ostringstream desc;
  std::set<std::string> labels;
  bool nontrivial_ = false;
  std::map<std::string, double>* metrics = nullptr;
  double replay_scale = 1;
  Ctx() { desc.precision(17); }
  void label(const std::string& l) { labels.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = b; }
  void metric(const std::string& k, double v) {
    if (!metrics) return;
    auto it = metrics->find(k);
    if (it == metrics->end()) (*metrics)[k] = v;
    else if (v > it->second || std::isnan(v)) it->second = v;
  }
  [[noreturn]] void fail(const std::string& tag, const std::string& msg) { throw Fail{tag, msg}; }
  void check(bool ok, const char* tag, const std::string& msg) { if (!ok) fail(tag, msg); }
  // |a-b| <= tol ; the margin err/tol is recorded as a metric.
  void close(double a, double b, double tol, const char* tag, const std::string& what) {
    double err = std::fabs(a - b);
    metric(std::string("margin:") + tag, tol > 0 ? err / tol : (err > 0 ? INFINITY : 0));
    if (!(err <= tol)) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": got " << a << ", expected " << b << " (|error| " << err << " > tolerance " << tol << ")";
      fail(tag, o.str());
    }
  }
  void atmost(double a, double bound, const char* tag, const std::string& what) {
    if (!(a <= bound)) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": got " << a << ", must be <= " << bound;
      fail(tag, o.str());
    }
  }
};

#define PBT_S(x) ([&] { std::ostringstream o_; o_.precision(17); o_ << x; return o_.str(); }())

struct Sub {
  const char* name;
  int weight;
  std::function<void(Ctx&)> fn;
};

struct Options {
  double cpu_limit_s = 60;     // per case, CPU time of the process
  double wall_limit_s = 300;   // per case, no progress at all
  int confirm = 3;             // replays that have to fail
  int tries = 0;               // of this many (0: all have to)
  int shrink_tries = 1;        // attempts per smaller case
  double shrink_seconds = 40;
  int shrink_attempts = 1500;
  std::function<void()> before_case;  // reset global state
  std::function<void()> child_init;
};

int run_main(int argc, char** argv, std::vector<Sub> subs, Options opt = Options());
// Ends the process with a failure verdict for the running case (from any thread).
[[noreturn]] void die(const std::string& tag, const std::string& msg);
// Runs one case from libFuzzer bytes; aborts with a report on failure.
void fuzz_one(const uint8_t* data, size_t size, std::vector<Sub>& subs);

}  // namespace pbt
