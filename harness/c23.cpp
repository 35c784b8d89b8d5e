// C23: timing statistics, driven with a virtual clock.
#include <mav_trajectory_generation/timing.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <memory>

#include "pbt.hpp"
namespace mt = mav_trajectory_generation::timing;

// Virtual clocks: all advance together; the wall clock may additionally be stepped.
static bool g_virtual = false;
static int64_t g_ns = 0, g_wall_step = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_virtual) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t v = g_ns + (id == CLOCK_REALTIME ? 1700000000000000000LL + g_wall_step : 1000000000LL);
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
struct Virtual { Virtual() { g_virtual = true; g_ns = g_wall_step = 0; } ~Virtual() { g_virtual = false; } };

typedef long double ld;
template <class T, class Total, int N>
static void acc(pbt::Ctx& c) {
  mt::Accumulator<T, Total, N> a;
  c.check(a.TotalSamples() == 0 && a.Sum() == 0 && a.LazyVariance() == 0, "empty", "a new accumulator is not empty");
  int n = c.s.irange(1, c.s.chance(1, 3) ? 3 * N + 3 : 6);
  int sign = (int)c.s.below(4);  // mixed, mixed, all negative, all positive
  double scale = std::is_integral<T>::value ? 1000 : c.s.logreal(1e-6, 1e6);
  c.desc << "N=" << N << " sign=" << sign << " samples:";
  std::vector<T> v;
  ld sum = 0, abssum = 0;
  bool evict = false;
  for (int i = 0; i < n; ++i) {
    double x = (c.s.unit() * 2 - 1) * scale;
    if (c.s.chance(1, 8)) x = 0;
    if (sign == 2) x = -std::fabs(x) - (std::is_integral<T>::value ? 1 : scale * 1e-3);
    if (sign == 3) x = std::fabs(x);
    T t = (T)x;
    v.push_back(t);
    c.desc << " " << t;
    a.Add(t);
    sum += t;
    abssum += std::fabs((ld)t);
    size_t k = v.size(), w = std::min<size_t>(k, N), b = k - w;
    evict |= k > (size_t)N;
    if (!c.s.chance(1, 3) && i + 1 < n) continue;
    ld ws = 0, wv = 0;
    for (size_t j = b; j < k; ++j) ws += v[j];
    ld wm = ws / w;
    for (size_t j = b; j < k; ++j) wv += ((ld)v[j] - wm) * ((ld)v[j] - wm);
    wv /= w;
    double eps = std::is_same<T, float>::value ? 1.2e-7 : std::numeric_limits<Total>::is_integer ? 0 : 2.3e-16;
    double tol = 4 * (k + 1) * eps * (double)abssum + 4 * std::numeric_limits<double>::epsilon() * (double)abssum;
    c.check(a.TotalSamples() == (int)k, "count", PBT_S(a.TotalSamples() << " samples counted, " << k << " added"));
    c.close(a.Sum(), (double)sum, tol, "sum", "sum");
    if (!std::numeric_limits<Total>::is_integer) {
      c.close(a.Mean(), (double)(sum / k), tol, "mean", "mean");
      c.close(a.RollingMean(), (double)wm, tol, "rolling mean", "mean of the last window");
      double range = 0;
      for (size_t j = b; j < k; ++j) range = std::max(range, std::fabs((double)v[j]));
      c.close(a.LazyVariance(), (double)wv, 8 * tol * (range + tol) + 1e-13 * (double)wv, "variance", "variance of the last window");
    }
    c.check(a.Max() == (double)*std::max_element(v.begin(), v.end()), "max", PBT_S("maximum " << a.Max()));
    c.check(a.Min() == (double)*std::min_element(v.begin(), v.end()), "min", PBT_S("minimum " << a.Min()));
  }
  c.label(evict ? "window overflow" : "within window");
  c.nontrivial(n >= 3);
}
static void accumulators(pbt::Ctx& c) {
  switch (c.s.below(5)) {
    case 0: acc<double, double, 50>(c); break;
    case 1: acc<double, double, 3>(c); break;
    case 2: acc<double, double, 1>(c); break;
    case 3: acc<float, double, 7>(c); break;
    default: acc<int, long, 5>(c); break;
  }
}

struct Stat { std::vector<double> v; };
static void registry(pbt::Ctx& c) {
  Virtual clock;
  mt::Timing::Reset();
  c.check(mt::Timing::GetTimers().empty(), "reset", "timers remain after a reset");
  std::map<std::string, size_t> tag;      // current names
  std::map<size_t, Stat> stat;            // handles of this case
  std::set<size_t> current;
  struct Live { std::unique_ptr<mt::Timer> t; size_t h; bool timing; int64_t start, wall; };
  std::vector<Live> live;
  std::vector<std::string> names = {"a", "b", "opt/solve", "", "a longer name"};
  bool stepped = false, reset = false, many = false;
  auto handle = [&](const std::string& n) {
    auto it = tag.find(n);
    if (it != tag.end()) return it->second;
    size_t h = mt::Timing::GetHandle(n);
    c.check(!stat.count(h), "fresh", PBT_S("new timer '" << n << "' shares handle " << h << " with another timer"));
    tag[n] = h;
    stat[h];
    return h;
  };
  auto stop = [&](Live& l) {  // model of a stop
    double dt = (g_ns - l.start) * 1e-9;
    stat[l.h].v.push_back(l.wall == g_wall_step ? dt : -1);  // -1: only known to be >= 0
    l.timing = false;
  };
  auto agree = [&] {
    auto& m = mt::Timing::GetTimers();
    c.check(m.size() == tag.size(), "registry", PBT_S(m.size() << " timers, expected " << tag.size()));
    for (auto& kv : tag) {
      auto it = m.find(kv.first);
      c.check(it != m.end() && it->second == kv.second && mt::Timing::GetHandle(kv.first) == kv.second, "handle", PBT_S("handle of '" << kv.first << "'"));
      c.check(mt::Timing::GetTag(kv.second) == kv.first, "tag", PBT_S("name of handle " << kv.second));
    }
    for (auto& kv : stat) {
      size_t h = kv.first;
      auto& v = kv.second.v;
      c.check(mt::Timing::GetNumSamples(h) == v.size(), "samples", PBT_S("handle " << h << " has " << mt::Timing::GetNumSamples(h) << " samples, expected " << v.size()));
      if (v.empty()) continue;
      c.check(mt::Timing::GetMinSeconds(h) >= 0, "non-negative", PBT_S("negative duration recorded: " << mt::Timing::GetMinSeconds(h)));
      bool exact = true;
      ld sum = 0;
      for (double x : v) { exact &= x >= 0; sum += x; }
      if (!exact) continue;
      size_t w = std::min<size_t>(v.size(), 50);
      ld ws = 0, wv = 0;
      for (size_t j = v.size() - w; j < v.size(); ++j) ws += v[j];
      for (size_t j = v.size() - w; j < v.size(); ++j) wv += (v[j] - ws / w) * (v[j] - ws / w);
      double tol = 1e-12 * (1 + (double)sum);
      c.close(mt::Timing::GetTotalSeconds(h), (double)sum, tol, "total", "total seconds");
      c.close(mt::Timing::GetMeanSeconds(h), (double)(sum / v.size()), tol, "mean", "mean seconds");
      c.close(mt::Timing::GetMinSeconds(h), *std::min_element(v.begin(), v.end()), tol, "min", "shortest");
      c.close(mt::Timing::GetMaxSeconds(h), *std::max_element(v.begin(), v.end()), tol, "max", "longest");
      c.close(mt::Timing::GetVarianceSeconds(h), (double)(wv / w), tol * (1 + (double)sum), "variance", "variance");
      if (ws / w > 1e-3) c.close(mt::Timing::GetHz(h), (double)(w / ws), 1e-6 * (double)(w / ws), "hz", "rate");
    }
    for (auto& kv : tag) {
      c.check(mt::Timing::GetNumSamples(kv.first) == stat[kv.second].v.size(), "by-name", "statistics by name differ");
      if (!stat[kv.second].v.empty()) {
        size_t h = kv.second;
        double hz = mt::Timing::GetHz(h), hz2 = mt::Timing::GetHz(kv.first);
        c.check((hz2 == hz || (std::isnan(hz) && std::isnan(hz2))) && mt::Timing::GetTotalSeconds(kv.first) == mt::Timing::GetTotalSeconds(h) && mt::Timing::GetMeanSeconds(kv.first) == mt::Timing::GetMeanSeconds(h) &&
                mt::Timing::GetMinSeconds(kv.first) == mt::Timing::GetMinSeconds(h) && mt::Timing::GetMaxSeconds(kv.first) == mt::Timing::GetMaxSeconds(h) &&
                mt::Timing::GetVarianceSeconds(kv.first) == mt::Timing::GetVarianceSeconds(h), "by-name", "statistics by name differ");
      }
    }
    for (auto& l : live) c.check(l.t->IsTiming() == l.timing, "is-timing", "timer state");
  };
  int n = c.s.sized(1, 30, 150);
  for (int i = 0; i < n; ++i) {
    switch (c.s.below(9)) {
      case 0: { const auto& s = c.s.pick(names); c.desc << " handle(" << s << ")"; handle(s); break; }
      case 1: {
        const auto& s = c.s.pick(names);
        bool stopped = c.s.chance(1, 3), by_handle = c.s.chance(1, 2);
        c.desc << " timer(" << s << (stopped ? ",stopped)" : ")");
        Live l;
        if (by_handle) { l.h = handle(s); l.t.reset(new mt::Timer(l.h, stopped)); }
        else { l.t.reset(new mt::Timer(s, stopped)); l.h = handle(s); }
        l.timing = !stopped; l.start = g_ns; l.wall = g_wall_step;
        live.push_back(std::move(l));
        break;
      }
      case 2: case 3: { int64_t d = (int64_t)c.s.below(5) * 1000000000 + (int64_t)c.s.below(2000000000); g_ns += d; c.desc << " wait(" << d << ")"; break; }
      case 4: case 5: {
        if (live.empty()) break;
        Live& l = live[c.s.below(live.size())];
        if (l.timing) { c.desc << " stop"; l.t->Stop(); stop(l); many |= stat[l.h].v.size() > 1; }
        else { c.desc << " start"; l.t->Start(); l.timing = true; l.start = g_ns; l.wall = g_wall_step; }
        break;
      }
      case 6: {
        if (live.empty()) break;
        size_t k = c.s.below(live.size());
        c.desc << " destroy";
        if (live[k].timing) stop(live[k]);
        live.erase(live.begin() + k);
        break;
      }
      case 7: if (c.s.chance(1, 2)) { c.desc << " reset"; mt::Timing::Reset(); tag.clear(); reset = true; } break;
      default: if (c.s.chance(1, 3)) { int64_t d = (int64_t)c.s.below(4000000000LL) - 2000000000LL; g_wall_step += d; stepped = true; c.desc << " wall-clock-step(" << d << ")"; } break;
    }
    agree();
  }
  // The printed table: one row per timer with its name, number of samples, total, mean, deviation and extremes.
  std::string p = mt::Timing::Print();
  c.check(tag.empty() == p.empty(), "print", "the table is empty although timers exist, or the other way round");
  std::map<std::string, std::string> rows;
  std::istringstream in(p);
  int rank = 0;
  for (std::string l; std::getline(in, l); ++rank) {
    if (rank < 2) continue;  // heading
    size_t tab = l.find('\t');
    c.check(tab != std::string::npos, "print-row", PBT_S("row '" << l << "'"));
    std::string name = l.substr(0, tab);
    while (!name.empty() && name.back() == ' ') name.pop_back();
    while (!name.empty() && name[0] == ' ') name.erase(0, 1);
    c.check(!rows.count(name), "print-row", "a timer is listed twice");
    rows[name] = l.substr(tab);
  }
  c.check(rows.size() == tag.size(), "print", PBT_S(rows.size() << " timers in the table, " << tag.size() << " exist: " << p));
  for (auto& kv : tag) {
    c.check(rows.count(kv.first), "print", "a timer is missing from the table");
    std::string r = rows[kv.first];
    std::vector<double> got;
    for (size_t i = 0; i < r.size();) {
      bool number = isdigit(r[i]) || (r[i] == '-' && i + 1 < r.size() && isdigit(r[i + 1]));
      if (!number) { ++i; continue; }
      char* e;
      got.push_back(strtod(r.c_str() + i, &e));
      i = e - r.c_str();
    }
    size_t h = kv.second, k = mt::Timing::GetNumSamples(h);
    std::vector<double> want{(double)k};
    if (k) for (double x : {mt::Timing::GetTotalSeconds(h), mt::Timing::GetMeanSeconds(h), std::sqrt(mt::Timing::GetVarianceSeconds(h)), mt::Timing::GetMinSeconds(h), mt::Timing::GetMaxSeconds(h)}) want.push_back(x);
    c.check(got.size() == want.size(), "print-row", PBT_S("row of '" << kv.first << "':" << r));
    for (size_t i = 0; i < want.size(); ++i) c.close(got[i], want[i], 0.6e-6, "print-value", PBT_S("row of '" << kv.first << "':" << r));
  }
  live.clear();
  if (stepped) c.label("wall clock stepped");
  if (reset) c.label("reset");
  c.nontrivial(n >= 5 && !stat.empty());
  if (many) c.label("several samples");
}
static void mini(pbt::Ctx& c) {
  Virtual clock;
  mt::MiniTimer t;
  int64_t start = 0;
  if (c.s.chance(1, 2)) { g_ns += (int64_t)c.s.below(5000000000LL); t.start(); start = g_ns; }
  int64_t d = (int64_t)c.s.below(5000000000LL), step = c.s.chance(1, 3) ? -(int64_t)c.s.below(6000000000LL) : 0;
  g_ns += d;
  g_wall_step += step;
  c.desc << "waited " << d << " wall step " << step;
  double x = t.stop();
  c.check(x >= 0, "mini-negative", PBT_S("negative duration " << x));
  if (!step) c.close(x, (g_ns - start) * 1e-9, 1e-9, "mini", "elapsed");
  c.check(t.getTime() == x, "mini-stable", "getTime differs from stop");
  c.nontrivial(d > 0);
}
int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"accumulators", 4, accumulators}, {"registry", 4, registry}, {"mini", 1, mini}});
}
