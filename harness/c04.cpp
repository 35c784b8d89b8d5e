// C04: speed and acceleration limits, and no needless slowness.
#include "dyn.hpp"
using namespace dyn;

static void measure(pbt::Ctx& c, Planned& p, const Vector3d& from, const char* which) {
  const double g = 9.81;
  double span = p.tmax - p.tmin;
  int n = 300 + 100 * (int)p.pos.size();
  double vm = 0, am = 0, tv = 0, ta = 0;
  auto look = [&](double T) {
    References r = p.at(T);
    if (r.velocity.norm() > vm) { vm = r.velocity.norm(); tv = T; }
    if (r.acceleration.norm() > am) { am = r.acceleration.norm(); ta = T; }
  };
  for (int i = 0; i <= n; ++i) look(p.tmin + span * i / n);
  // Waypoints, and the neighbourhoods of the largest values.
  for (auto& w : p.d) look(w.getTime());
  for (double T0 : {tv, ta}) for (int i = -4; i <= 4; ++i) { double T = T0 + span / n * i / 5; if (T >= p.tmin && T <= p.tmax) look(T); }
  // The optimiser weighs exp(100 * relative violation) against 1000 * duration^2 and the integral of the squared acceleration,
  // and starts from a trajectory within the limits that lasts at most about twice as long.
  double tol = (std::log(1000 * std::pow(2 * span + 1, 2) + g * g * (2 * span + 1) + 10)) / 100 + 0.01;
  c.metric("margin:speed", (vm / p.speed - 1) / tol);
  c.metric("margin:acceleration", (am / g - 1) / tol);
  if (!(vm <= p.speed * (1 + tol))) c.fail("speed", PBT_S(which << ": speed " << vm << " at time " << tv << " of " << p.tmin << ".." << p.tmax << ", requested " << p.speed << " (tolerance " << tol << ")"));
  if (!(am <= g * (1 + tol))) c.fail("acceleration", PBT_S(which << ": acceleration " << am << " at time " << ta << " of " << p.tmin << ".." << p.tmax << " (tolerance " << tol << ")"));
  double straight = 0, len = 0;
  Vector3d prev = from;
  for (auto& q : p.pos) { len += (q - prev).norm(); straight += (q - prev).norm() / p.speed + 2 * p.speed / g + 0.1; prev = q; }
  c.metric("margin:slow", span / straight / 2.5);
  if (!(span <= 2.5 * straight)) c.fail("slow", PBT_S(which << ": takes " << span << " s for " << len << " m at " << p.speed << " m/s in " << p.pos.size() << " legs (2.5 times " << straight << " s)"));
  if (vm > 0.9 * p.speed) c.label("reaches the speed limit");
  if (am > 0.9 * g) c.label("reaches the acceleration limit");
}
static void limits(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.spawn_delay = [](int) { return 0.05; };
  Session s(c, cfg);
  PlanOpt po;
  po.nmax = c.s.chance(1, 3) ? 6 : 3;
  po.min_gap = c.s.chance(1, 4) ? 0 : 0.3;
  po.vel = false;
  po.smin = 0.2;
  po.smax = 15;
  Planned p = first_plan(c, po);
  measure(c, p, p.veh, "first plan");
  int more = c.s.chance(1, 3) ? c.s.irange(1, 2) : 0;
  float te = 0;
  for (int k = 0; k < more; ++k) {
    // Fly to the end; another plan, mostly with another speed, starts at rest there.
    c.label("plan after an ended flight");
    te = (float)(p.tmax - p.off) + (float)c.s.real(0, 5);
    eval(*p.g, te, false, false);
    p.g->getWasTrajectoryRegenerated();
    c.desc << " at " << te;
    if (k == 0 || c.s.chance(1, 3)) {
      p.speed = c.s.logreal(0.2, 15);
      c.desc << " speed " << p.speed;
      p.g->setSpeed(p.speed);
      c.check(p.g->getSpeed() == p.speed, "get-speed", PBT_S("getSpeed() = " << p.g->getSpeed() << " after setSpeed(" << p.speed << ")"));
    }
    Vector3d from = p.pos.back();
    if (c.s.chance(1, 2)) from += point(c, 0.2);
    p.g->updateVehiclePosition(from);
    int n = c.s.irange(1, 3);
    p.pos = points(c, n, from, 10, 0.3);
    DynamicWaypoint::Vector w;
    c.desc << " vehicle " << v3(from) << " set";
    for (int i = 0; i < n; ++i) { w.push_back(waypoint("x" + std::to_string(i), p.pos[i])); c.desc << " " << v3(p.pos[i]); }
    p.g->setWaypoints(w);
    bool late = c.s.chance(1, 3), done = false, fresh = false;
    double wait = c.s.real(0, 0.1), speed = c.s.logreal(0.2, 15);
    for (int i = 0; i < 200 && !fresh; ++i) {
      if (late && !done && (done = p.g->getComputingNewTrajectoryStatus())) {
        // The plan being made may or may not use it; those after it do.
        ds::sleep(wait);
        p.g->setSpeed(speed);
        c.desc << " and, " << wait << " s into the computation, speed " << speed;
        c.label("speed set while computing");
      }
      ds::sleep(0.01);
      te += 0.01f;
      eval(*p.g, te, false, false);
      fresh = p.g->getWasTrajectoryRegenerated();
    }
    c.check(fresh, "second-plan", "no other trajectory within 2 s of the request");
    p.refresh();
    if (done) {
      p.speed = speed;
      c.check(p.g->getSpeed() == speed, "get-speed", PBT_S("getSpeed() = " << p.g->getSpeed() << " after setSpeed(" << speed << ")"));
    } else {
      measure(c, p, from, "plan after an ended flight");
    }
  }
  c.nontrivial();
  delete p.g;
  s.end();
}
// A plan made in flight, mostly with another speed: the legs behind the splice.
static void in_flight(pbt::Ctx& c) {
  const double g = 9.81;
  ds::Config cfg;
  cfg.spawn_delay = [](int) { return 0.05; };
  Session s(c, cfg);
  PlanOpt po;
  po.nmax = 3;
  po.min_gap = 1;
  po.vel = false;
  po.smin = 0.3;
  po.smax = 8;
  Planned p = first_plan(c, po);
  double s1 = p.speed, s2 = s1;
  float t = (float)(1e-3 + c.s.unit() * 0.6 * (p.tmax - p.off));
  eval(*p.g, t, false, false);
  c.desc << " fly to " << t;
  bool other = c.s.chance(2, 3);
  if (other) { s2 = c.s.logreal(0.3, 8); p.g->setSpeed(s2); c.desc << " speed " << s2; }
  int k = c.s.irange(1, 3);
  std::vector<Vector3d> q{p.pos.back()};
  bool set = c.s.chance(1, 3);
  if (set) q[0] = p.at(t + p.off).position;
  DynamicWaypoint::Vector w;
  c.desc << (set ? " set" : " append");
  for (int i = 0; i < k; ++i) {
    Vector3d d = point(c, 10);
    if (d.norm() < 1) d = Vector3d(4, 0, 0);
    q.push_back(q.back() + d);
    w.push_back(waypoint("x" + std::to_string(i), q.back()));
    c.desc << " " << v3(q.back());
  }
  if (set) p.g->setWaypoints(w);
  else for (auto& x : w) p.g->appendWaypoint(x);
  if (!settle(*p.g, t)) { delete p.g; s.end(); throw pbt::Discard{}; }
  p.refresh();
  if (!(p.tmin > 0)) { delete p.g; s.end(); throw pbt::Discard{}; }
  double span = p.tmax - p.tmin, vm = 0, tv = 0;
  int n = 600 + 100 * (int)p.d.size();
  for (int i = 0; i <= n; ++i) {
    double x = p.tmin + span * i / n, v = p.at(x).velocity.norm();
    if (v > vm) { vm = v; tv = x; }
  }
  double smax = std::max(s1, s2), tol = 0.3 + 2 * (std::log(1000 * std::pow(2 * span + 1, 2) + g * g * (2 * span + 1) + 10)) / 100;
  c.metric("margin:flight speed", (vm / smax - 1) / tol);
  c.check(vm <= smax * (1 + tol), "flight-speed", PBT_S("speed " << vm << " at time " << tv << " of the plan made in flight, requested " << s1 << " and then " << s2 << ":" << show(p.d)));
  // Legs between waypoints behind the splice take about as long as the speed requested last asks for.
  for (size_t i = 1; i < p.d.size(); ++i) {
    if (p.d[i - 1].getName() == "stitching_point") continue;
    double d = (p.d[i].getCurrentPosition() - p.d[i - 1].getCurrentPosition()).norm(), leg = p.d[i].getTime() - p.d[i - 1].getTime();
    if (d < 1) continue;
    c.metric(s2 < s1 ? "margin:leg of a slower plan" : "margin:leg", d / s2 / leg);
    double slow = leg / (d / s2 + 2 * s2 / g + 0.1);
    c.metric("margin:slow leg", slow);
    c.check(d / s2 / leg <= 1.25, "leg-fast", PBT_S("a leg of " << d << " m takes " << leg << " s at " << s2 << " m/s:" << show(p.d)));
    c.check(slow <= 8, "leg-slow", PBT_S("a leg of " << d << " m takes " << leg << " s at " << s2 << " m/s:" << show(p.d)));
  }
  if (other) c.label(s2 < s1 ? "slowed down in flight" : "sped up in flight");
  c.nontrivial();
  delete p.g;
  s.end();
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"limits", 3, limits}, {"in_flight", 2, in_flight}}); }
