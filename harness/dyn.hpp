// Shared parts of the dynamic-layer harnesses: a generator under the deterministic scheduler.
#pragma once
#include <dynamic_trajectory.hpp>

#include "detsched.hpp"
#include "pbt.hpp"

namespace dyn {
namespace dtg = dynamic_traj_generator;
using dtg::DynamicTrajectory;
using dtg::DynamicWaypoint;
using dtg::References;
using Eigen::Vector3d;

inline std::string v3(const Vector3d& v) { return PBT_S("(" << v[0] << "," << v[1] << "," << v[2] << ")"); }

// Starts the scheduler for a case; ends it when destroyed.
struct Session {
  pbt::Ctx& c;
  bool ended = false;
  explicit Session(pbt::Ctx& c_, const ds::Config& cfg) : c(c_) {
    ds::on_failure = [](const char* tag, const std::string& m) { pbt::die(tag, m); };
    ds::start(cfg);
  }
  void end() {
    if (ended) return;
    ended = true;
    if (!ds::stop()) pbt::die("thread-left", "a thread is still running a minute after its generator was destroyed");
  }
  ~Session() { if (!ended) ds::abandon(); }
};
inline Vector3d point(pbt::Ctx& c, double lim) {
  double x = c.s.real(-lim, lim), y = c.s.real(-lim, lim), z = c.s.real(-lim, lim);
  return Vector3d(x, y, z);
}
inline DynamicWaypoint waypoint(const std::string& name, const Vector3d& p) {
  DynamicWaypoint w;
  w.resetWaypoint(p);
  w.setName(name);
  return w;
}
inline std::string show(const DynamicWaypoint::Deque& d) {
  std::string s;
  for (auto& w : d) s += PBT_S(" '" << w.getName() << "'" << v3(w.getCurrentPosition()) << "@" << w.getTime());
  return s;
}
inline References eval(DynamicTrajectory& g, float t, bool only = false, bool plot = true) {
  References r;
  r.position = r.velocity = r.acceleration = Vector3d::Constant(std::nan(""));
  g.evaluateTrajectory(t, r, only, plot);
  return r;
}
}  // namespace dyn
namespace dyn {
// A list of waypoint positions: independent points, repeats, near repeats and straight lines.
inline std::vector<Vector3d> points(pbt::Ctx& c, int n, const Vector3d& start, double lim, double min_gap = 0) {
  std::vector<Vector3d> r;
  Vector3d prev = start, prev2 = start;
  for (int i = 0; i < n; ++i) {
    Vector3d p;
    for (int tries = 0;; ++tries) {
      switch (c.s.below(min_gap > 0 ? 3 : 6)) {
        case 0: case 1: p = point(c, lim); break;
        case 2: {  // onwards in a straight line
          Vector3d d = prev - prev2;
          p = d.norm() > 0 ? Vector3d(prev + d * c.s.logreal(0.2, 3)) : Vector3d(prev + Vector3d(c.s.logreal(0.1, lim), 0, 0));
          break;
        }
        case 3: p = prev; break;                                         // same place
        case 4: p = c.s.chance(1, 2) ? start : r.empty() ? prev : r[0]; break;  // return
        default: { double e = c.s.logreal(1e-6, 0.1); p = prev + Vector3d(e, c.s.chance(1, 2) ? e : 0, c.s.chance(1, 2) ? -e : 0); }
      }
      if ((p - prev).norm() >= min_gap && p.norm() <= 4 * lim + 1) break;
      if (tries > 20) { p = prev + Vector3d(min_gap + 1, 0, 0); break; }
    }
    r.push_back(p);
    prev2 = prev;
    prev = p;
  }
  return r;
}
inline float ulpf(double t) { return std::nextafterf((float)std::fabs(t), INFINITY) - (float)std::fabs(t); }
}  // namespace dyn
namespace dyn {
// A generator with a plan for 1..kmax waypoints ahead.
struct Planned {
  DynamicTrajectory* g = nullptr;
  Vector3d veh;
  std::vector<Vector3d> pos;
  std::vector<std::string> names;
  DynamicWaypoint::Deque d;
  double speed = 0, off = 0, tmin = 0, tmax = 0;
  void refresh() {
    d = g->getDynamicWaypoints();
    off = g->getTimeCompensation();
    tmin = g->getMinTime();
    tmax = g->getMaxTime();
  }
  References at(double T) const { return eval(*g, (float)(T - off)); }  // reference at trajectory time T
};
struct PlanOpt { int nmin = 1, nmax = 4; double min_gap = 0; bool unnamed = true, vel = true, same = false; double smin = 0.3, smax = 10; };
inline Planned first_plan(pbt::Ctx& c, const PlanOpt& o) {
  Planned p;
  p.g = new DynamicTrajectory;
  int n = c.s.sized(o.nmin, o.nmax, 3 * o.nmax);
  double lim = c.s.pick(std::vector<double>{10, 3, 40});
  p.speed = c.s.logreal(o.smin, o.smax);
  p.veh = point(c, lim);
  p.g->setSpeed(p.speed);
  p.g->updateVehiclePosition(p.veh);
  p.pos = points(c, n, p.veh, lim, o.min_gap);
  DynamicWaypoint::Vector w;
  c.desc << "speed " << p.speed << " vehicle " << v3(p.veh) << " set";
  for (int i = 0; i < n; ++i) {
    p.names.push_back(o.unnamed && c.s.chance(1, 6) ? "" : "w" + std::to_string(i));
    if (o.same && i && c.s.chance(1, 10)) p.names[i] = p.names[c.s.below(i)];
    w.push_back(waypoint(p.names[i], p.pos[i]));
    c.desc << " '" << p.names[i] << "'" << v3(p.pos[i]);
    if (o.vel && c.s.chance(1, 6)) {
      Vector3d v = point(c, p.speed / 2);
      w.back().setConstraint(1, v);
      c.desc << "v" << v3(v);
    }
  }
  p.g->setWaypoints(w);
  p.refresh();
  c.desc << " ->" << show(p.d) << " offset " << p.off;
  return p;
}
inline void expect_near(pbt::Ctx& c, const Vector3d& a, const Vector3d& b, double tol, const char* tag, const std::string& what) {
  double e = (a - b).norm();
  c.metric(std::string("margin:") + tag, e / tol);
  if (!(e <= tol)) c.fail(tag, PBT_S(what << ": got " << v3(a) << ", expected " << v3(b) << " (distance " << e << " > " << tol << ")"));
}
// Goes on until no request is pending and no plan is being made. False: not within the given number of evaluations.
inline bool settle(DynamicTrajectory& g, float& t, float dt = 0.02f, int max = 3000) {
  for (int i = 0, quiet = 0; quiet < 3; ++i) {
    if (i > max) return false;
    ds::sleep(0.05);
    eval(g, t += dt, false, false);
    quiet = g.getGenerateNewTraj() || g.getComputingNewTrajectoryStatus() ? 0 : quiet + 1;
  }
  return true;
}
// Another plan for one waypoint more, made in flight. Returns the time of the last evaluation.
inline float splice(pbt::Ctx& c, Session& s, Planned& p) {
  float t = (float)(1e-3 + c.s.unit() * 0.3 * (p.tmax - p.off));
  Vector3d more = p.pos.back() + Vector3d(c.s.real(2, 10), c.s.real(-5, 5), 0);
  c.desc << " fly to " << t << " append " << v3(more);
  eval(*p.g, t, false, false);
  p.g->appendWaypoint(waypoint("more", more));
  if (!settle(*p.g, t)) { delete p.g; s.end(); throw pbt::Discard{}; }
  p.refresh();
  p.names.push_back("more");
  p.pos.push_back(more);
  c.desc << " ->" << show(p.d) << " offset " << p.off << " evaluated " << t;
  if (p.tmin > 0) c.label("planned in flight");
  return t;
}
}  // namespace dyn
