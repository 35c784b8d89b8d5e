// C09: no data races. Real threads under ThreadSanitizer, held up at random places.
#include "pbt.hpp"
#include "tsan_prelude.hpp"
#include <dynamic_trajectory.hpp>
#include <mav_trajectory_generation/polynomial_optimization_linear.h>
#include <mav_trajectory_generation/polynomial_optimization_nonlinear.h>
#include <mav_trajectory_generation/timing.h>
#include <mav_trajectory_generation/trajectory.h>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <thread>
#pragma clang optimize on

namespace dtg = dynamic_traj_generator;
namespace mtg = mav_trajectory_generation;
using dtg::DynamicTrajectory;
using dtg::DynamicWaypoint;
using dtg::References;
using Eigen::Vector3d;

#define NOSAN __attribute__((no_sanitize("thread"), no_sanitize("coverage"), noinline))
// The noise of the running case. Plain memory, written while there is one thread.
static uint32_t noise_seed, noise_rate;   // one stall per so many edges, 0: none
static uint32_t noise_us;                 // at most this long
static uint32_t nap_scale = 20;           // the code's own sleeps are divided by this
static uint64_t n_stalls, n_naps;

NOSAN static uint32_t rnd() {
  static __thread uint32_t x;
  if (!x) x = noise_seed * 2654435761u ^ (uint32_t)syscall(SYS_gettid) * 40503u | 1;
  x ^= x << 13; x ^= x >> 17; x ^= x << 5;
  return x;
}
NOSAN static void nap_ns(uint64_t ns) {
  struct timespec t{(time_t)(ns / 1000000000), (long)(ns % 1000000000)};
  syscall(SYS_nanosleep, &t, nullptr);
}
extern "C" NOSAN void __sanitizer_cov_trace_pc_guard(uint32_t*) {
  if (!noise_rate) return;
  uint32_t r = rnd();
  if (r % noise_rate) return;
  ++n_stalls;
  r = rnd();
  if (r & 1) syscall(SYS_sched_yield);
  else nap_ns(1000ull * (rnd() % noise_us));
}
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; ++a) *a = 1; }
extern "C" NOSAN int __wrap_nanosleep(const struct timespec* t, struct timespec*) {
  ++n_naps;
  nap_ns((t->tv_sec * 1000000000ull + t->tv_nsec) / nap_scale);
  return 0;
}

namespace {
std::string v3(const Vector3d& v) { return PBT_S("(" << v[0] << "," << v[1] << "," << v[2] << ")"); }
Vector3d point(pbt::Ctx& c) {
  double x = c.s.real(-15, 15), y = c.s.real(-15, 15), z = c.s.real(-15, 15);
  return Vector3d(x, y, z);
}
DynamicWaypoint waypoint(const std::string& name, const Vector3d& p) {
  DynamicWaypoint w;
  w.resetWaypoint(p);
  w.setName(name);
  return w;
}
void noise(pbt::Ctx& c) {
  noise_seed = 1 + c.s.below(1000000);
  noise_rate = c.s.pick(std::vector<uint32_t>{0, 200, 1000, 5000, 50});
  noise_us = c.s.pick(std::vector<uint32_t>{100, 10, 1000, 5000});
  nap_scale = c.s.pick(std::vector<uint32_t>{20, 100, 5, 1});
  c.desc << "noise 1/" << noise_rate << " up to " << noise_us << " us, naps/" << nap_scale;
}
struct Op { int kind; std::string name; Vector3d p; int us; double x; };
enum { kSet, kSet3, kAppend, kMove, kMovePlan, kMoves, kSpeed, kVehicle, kGetSpeed, kOffset, kRegen, kGenerate, kComputing, kNext, kRemaining, kMaxTime, kMinTime };
const char* kNames[] = {"set", "set3", "append", "move", "move+plan", "moves", "speed", "vehicle", "getspeed", "offset", "regenerated", "generate", "computing", "next", "remaining", "maxtime", "mintime"};
// Requests and status reads of one thread.
std::vector<Op> script(pbt::Ctx& c, int n, int pace, bool requests, bool planned) {
  std::vector<Op> v;
  c.desc << " [";
  // A thread mostly repeats a few kinds of call.
  std::vector<int> kinds;
  int nk = c.s.irange(1, 5);
  for (int i = 0; i < nk; ++i) kinds.push_back(requests ? c.s.below(planned ? 17 : 15) : 6 + c.s.below(planned ? 11 : 9));
  for (int i = 0; i < nk; ++i) c.desc << (i ? "," : "") << kNames[kinds[i]];
  for (int i = 0; i < n; ++i) {
    Op o;
    o.kind = kinds[c.s.below(nk)];
    o.name = "w" + std::to_string(c.s.below(4));
    o.p = point(c);
    o.us = c.s.chance(1, 3) ? 0 : c.s.below(pace);
    o.x = c.s.logreal(0.05, 8);
    v.push_back(o);
  }
  c.desc << "*" << n << "/" << pace << "us]";
  return v;
}
void run(DynamicTrajectory& g, const std::vector<Op>& ops) {
  for (auto& o : ops) {
    switch (o.kind) {
      case kSet: g.setWaypoints({waypoint(o.name, o.p)}); break;
      case kSet3: g.setWaypoints({waypoint("w0", o.p), waypoint("w1", o.p + Vector3d(3, 4, 0)), waypoint("w2", -o.p)}); break;
      case kAppend: g.appendWaypoint(waypoint(o.name, o.p)); break;
      case kMove: g.modifyWaypoint(o.name, o.p, false); break;
      case kMovePlan: g.modifyWaypoint(o.name, o.p); break;
      case kMoves: g.modifyWaypoints({{o.name, o.p}, {"w1", -o.p}}); break;
      case kSpeed: g.setSpeed(o.x); break;
      case kVehicle: g.updateVehiclePosition(o.p); break;
      case kGetSpeed: g.getSpeed(); break;
      case kOffset: g.getTimeCompensation(); break;
      case kRegen: g.getWasTrajectoryRegenerated(); break;
      case kGenerate: g.getGenerateNewTraj(); break;
      case kComputing: g.getComputingNewTrajectoryStatus(); break;
      case kNext: g.getNextTrajectoryWaypoints(); break;
      case kRemaining: g.getRemainingWaypoints(); break;
      case kMaxTime: g.getMaxTime(); break;
      default: g.getMinTime();
    }
    if (o.us) nap_ns(1000ull * o.us);
  }
}
// What the evaluating thread of a generator does.
struct Eval { int n, us, every, first; double dt; };
Eval evaluator(pbt::Ctx& c) {
  Eval e;
  e.n = (int)c.s.logreal(5, 400);
  e.us = c.s.pick(std::vector<int>{2000, 0, 200, 10000});
  e.every = c.s.irange(1, 9);
  e.first = c.s.below(4);
  e.dt = c.s.pick(std::vector<double>{0.05, 0.001, 0.01, 0.3});
  c.desc << " evaluate " << e.n << " every " << e.us << "us " << e.dt << "s first " << e.first << " look " << e.every;
  return e;
}
// Goes on for a while after the requests.
int fly(DynamicTrajectory& g, const Eval& e, const std::atomic<int>& busy) {
  int plans = 0;
  float t = 0;
  double end = 0;
  int left = e.n;
  for (int i = 0; left > 0 && i < 2000; ++i) {
    if (!busy.load(std::memory_order_relaxed)) --left;
    References r;
    g.evaluateTrajectory(t, r, i % 3 == 1, i % 4 == 2);
    t += (float)e.dt;
    if (i % 16 == 0) {
      double last = g.getMaxTime();
      plans += last != end && plans % (1 << 20) < 9999;
      end = last;
    }
    if (i % e.every == 0) switch ((i / e.every) % 6) {
      case 0: {
        auto d = g.getDynamicWaypoints();
        if (!d.empty() && d[0].getName() == "stitching_point") plans |= 1 << 20;
        break;
      }
      case 1: g.getMaxTime(); break;
      case 2: g.getMinTime(); break;
      case 3: g.getWasTrajectoryRegenerated(); break;
      case 4: g.getTimeCompensation(); g.getSpeed(); break;
      default: g.getNextTrajectoryWaypoints(); g.getRemainingWaypoints();
    }
    if (e.us) nap_ns(1000ull * e.us);
  }
  return plans;
}
struct Flight {
  std::unique_ptr<DynamicTrajectory> g;
  std::vector<std::vector<Op>> ops;
  Eval e;
  Vector3d veh;
  DynamicWaypoint::Vector first;
  double speed;
  int plans = 0;
};
Flight flight(pbt::Ctx& c, int min_threads) {
  Flight f;
  f.veh = point(c);
  f.speed = c.s.logreal(0.05, 8);
  int n = c.s.irange(1, 3);
  for (int i = 0; i < n; ++i) f.first.push_back(waypoint("w" + std::to_string(i), point(c)));
  f.e = evaluator(c);
  int nt = c.s.irange(min_threads, 3);
  for (int i = 0; i < nt; ++i) f.ops.push_back(script(c, c.s.irange(1, 40), c.s.pick(std::vector<int>{3000, 300, 20000, 100000}), i == 0 || c.s.chance(1, 2), f.e.first < 3));
  return f;
}
void begin(Flight& f) {
  f.g.reset(new DynamicTrajectory);
  f.g->setSpeed(f.speed);
  f.g->updateVehiclePosition(f.veh);
  f.g->setWaypoints(f.first);
  // Once there is a trajectory its times may be asked for on any thread.
  switch (f.e.first) {
    case 0: f.g->getMaxTime(); break;
    case 1: f.g->getMinTime(); break;
    case 2: f.g->getDynamicWaypoints(); break;
    default: break;
  }
}
void with_requests(Flight& f) {
  std::vector<std::thread> th;
  std::atomic<int> busy{(int)f.ops.size()};
  for (auto& o : f.ops) th.emplace_back([&f, &o, &busy] { run(*f.g, o); busy.fetch_sub(1, std::memory_order_relaxed); });
  f.plans = fly(*f.g, f.e, busy);
  for (auto& t : th) t.join();
}
}  // namespace

static void one_generator(pbt::Ctx& c) {
  noise(c);
  Flight f = flight(c, 1);
  begin(f);
  with_requests(f);
  if (c.s.chance(1, 2)) f.g.reset();
  c.label(PBT_S(f.ops.size() << " request threads"));
  if (f.plans >> 20) c.label("spliced in flight");
  f.plans &= (1 << 20) - 1;
  c.label(PBT_S((f.plans < 5 ? std::to_string(f.plans) : "5 or more") << " plans"));
  if (n_stalls) c.label("held up");
  n_stalls = 0;
  c.nontrivial();
  f.g.reset();
}

static void several_generators(pbt::Ctx& c) {
  noise(c);
  int n = c.s.irange(2, 4);
  std::vector<Flight> fs;
  for (int i = 0; i < n; ++i) {
    fs.push_back(flight(c, 0));
    fs.back().e.n = std::min(fs.back().e.n, 20);
  }
  std::vector<std::thread> th;
  for (auto& f : fs) th.emplace_back([&f] { begin(f); with_requests(f); f.g.reset(); });
  for (auto& t : th) t.join();
  c.label(PBT_S(n << " generators"));
  c.nontrivial();
}

// Planning, timers and evaluation on objects of their own in several threads.
static void library(pbt::Ctx& c) {
  noise(c);
  struct Job { int kind; int reps; std::vector<Vector3d> p; };
  int n = c.s.irange(2, 5);
  std::vector<Job> jobs;
  for (int i = 0; i < n; ++i) {
    Job j{(int)c.s.below(4), c.s.irange(1, 20), {}};
    int k = c.s.irange(2, 4);
    for (int q = 0; q < k; ++q) j.p.push_back(point(c));
    c.desc << " job " << j.kind << "*" << j.reps;
    jobs.push_back(j);
  }
  auto work = [](const Job& j, int id) {
    mtg::Vertex::Vector vs;
    for (size_t i = 0; i < j.p.size(); ++i) {
      mtg::Vertex v(3);
      if (i == 0 || i + 1 == j.p.size()) v.makeStartOrEnd(j.p[i], 3);
      else v.addConstraint(0, j.p[i]);
      vs.push_back(v);
    }
    for (int r = 0; r < j.reps; ++r) {
      if (j.kind == 0) {
        mtg::PolynomialOptimization<10> o(3);
        o.setupFromVertices(vs, mtg::estimateSegmentTimes(vs, 3, 5), 2);
        o.solveLinear();
        mtg::Trajectory t;
        o.getTrajectory(&t);
        double v, a;
        t.computeMaxVelocityAndAcceleration(&v, &a);
        t.scaleSegmentTimesToMeetConstraints(2, 4);
        t.evaluate(0.5 * t.getMaxTime(), 1);
      } else if (j.kind == 1) {
        if (r > 2) break;
        mtg::NonlinearOptimizationParameters p;
        p.max_iterations = 10;
        mtg::PolynomialOptimizationNonLinear<10> o(3, p);
        o.setupFromVertices(vs, mtg::estimateSegmentTimes(vs, 3, 5), 2);
        o.addMaximumMagnitudeConstraint(1, 3);
        o.optimize();
      } else if (j.kind == 2) {
        mtg::timing::Timer a("task" + std::to_string(id % 2)), b("own" + std::to_string(id) + "_" + std::to_string(r));
        a.Stop();
        a.Start();
        nap_ns(1000);
        b.Stop();
      } else {
        std::string tag = "task" + std::to_string(r % 3);
        mtg::timing::Timing::GetNumSamples(tag);
        mtg::timing::Timing::GetMeanSeconds(tag);
        mtg::timing::Timing::GetMaxSeconds(tag);
        mtg::timing::Timing::GetTag(mtg::timing::Timing::GetHandle(tag));
        if (mtg::timing::Timing::Print().empty()) nap_ns(1000);
      }
    }
  };
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i) th.emplace_back([&, i] { work(jobs[i], i); });
  for (auto& t : th) t.join();
  c.nontrivial();
}

// The holder of the trajectory in use: replaced, copied, compared and evaluated at once.
static void holder(pbt::Ctx& c) {
  noise(c);
  int n = c.s.irange(2, 5);
  std::vector<std::pair<int, int>> jobs;
  for (int i = 0; i < n; ++i) {
    int k = c.s.below(6), reps = c.s.irange(1, 50);
    jobs.push_back({k, reps});
    c.desc << " job " << k << "*" << reps;
  }
  std::vector<std::shared_ptr<mtg::Trajectory>> ts;
  for (int i = 0; i < 3; ++i) {
    mtg::Segment s(10, 1);
    s[0] = mtg::Polynomial(Eigen::VectorXd::Constant(10, i + 1));
    s.setTime(1 + i);
    auto t = std::make_shared<mtg::Trajectory>();
    t->setSegments({s});
    ts.push_back(t);
  }
  auto hold = [&](int i) { auto p = ts[i % 3]; return ThreadSafeTrajectory(std::move(p)); };
  ThreadSafeTrajectory a = hold(0), b = hold(1);
  auto work = [&](int kind, int reps) {
    int hits = 0;
    for (int r = 0; r < reps; ++r) switch (kind) {
      case 0: a = hold(r); break;
      case 1: { ThreadSafeTrajectory x(a), y(b); hits += x == y; break; }
      case 2: hits += a == b; hits += b != a; hits += a == nullptr; hits += a != nullptr; break;
      case 3: a.evaluate(0.5, r % 3); break;
      case 4: hits += a.getMaxTime() > a.getMinTime(); hits += a.getSegments().size(); hits += a.getWaypoints().size(); break;
      default: r & 1 ? a = b : b = a;
    }
    return hits;
  };
  std::vector<std::thread> th;
  for (auto& j : jobs) th.emplace_back([&, j] { work(j.first, j.second); });
  for (auto& t : th) t.join();
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Options o;
  o.confirm = 1;
  o.tries = 12;
  o.shrink_tries = 3;
  o.shrink_seconds = 60;
  o.cpu_limit_s = 600;
  o.wall_limit_s = 240;
  return pbt::run_main(argc, argv, {{"one_generator", 6, one_generator}, {"several_generators", 2, several_generators}, {"library", 1, library}, {"holder", 1, holder}}, o);
}
