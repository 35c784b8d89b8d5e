// C02: evaluation is total, clamped, finite, repeatable and free of side effects.
#include "dyn.hpp"
using namespace dyn;

static float any_time(pbt::Ctx& c, const Planned& p) {
  double span = p.tmax - p.tmin;
  switch (c.s.below(8)) {
    case 0: return (float)(p.tmin + span * c.s.unit());
    case 1: return (float)(p.tmin - p.off);
    case 2: return (float)(p.tmax - p.off);
    case 3: return (float)(p.d[c.s.below(p.d.size())].getTime() - p.off);
    case 4: return (float)(p.tmax + 0.1 * c.s.below(100));
    case 5: return (float)(p.tmin - 0.1 * c.s.below(100));
    case 6: return (float)(p.tmin + span * (2 * c.s.unit() - 0.5));
    default: { float m = (float)c.s.logreal(1e-30, 1e30); return c.s.chance(1, 2) ? m : -m; }
  }
}
static bool finite3(const References& r, bool only) {
  return r.position.allFinite() && (only || (r.velocity.allFinite() && r.acceleration.allFinite()));
}

static void evaluation(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.spawn_delay = [](int) { return 0.05; };
  Session s(c, cfg);
  Planned p = first_plan(c, PlanOpt());
  References start = p.at(p.tmin - 100), end = p.at(p.tmax);
  expect_near(c, start.position, p.veh, 3e-4, "first-point", "position long before the beginning");
  expect_near(c, end.position, p.pos.back(), 3e-4, "last-point", "position at the end");
  Vector3d last = p.pos.back();
  bool spliced = c.s.chance(1, 3) && p.tmax > 2;
  if (spliced) {
    splice(c, s, p);
    last = p.at(p.tmax).position;
    start = p.at(p.tmin - 100);
  }
  bool moved = c.s.chance(1, 3);
  if (moved) {
    int n = c.s.irange(1, 3);
    if (!spliced && c.s.chance(1, 2)) { float t = (float)(c.s.unit() * 0.8 * (p.tmax - p.off)); c.desc << " fly to " << t; eval(*p.g, t, false, false); }
    for (int i = 0; i < n; ++i) {
      std::string name = p.names[c.s.below(p.names.size())];
      Vector3d to = point(c, 10);
      c.desc << " move '" << name << "' " << v3(to);
      p.g->modifyWaypoint(name, to, false);
      ds::sleep(0.05);
    }
    c.label("moved in place");
    last = p.at(p.tmax - 1e-9 * (1 + p.tmax)).position;
    start = p.at(p.tmin - 100);
  }
  // Before the beginning it stays where it begins.
  double first_slack = 8 * (ulpf(p.tmin) + ulpf(p.off));
  // (Moves have no effect up to time zero.)
  if (p.tmin > 0 || !moved) expect_near(c, start.position, p.at(p.tmin + first_slack).position, 3e-4 + 100 * first_slack, "clamp-start", "position long before the beginning");
  int k = c.s.irange(2, 14), inside = 0;
  for (int i = 0; i < k; ++i) {
    float t = any_time(c, p);
    int mode = (int)c.s.below(4);
    bool only = mode & 1, plot = mode & 2;
    c.desc << " e(" << t << (only ? ",positions" : "") << (plot ? ",plot" : "") << ")";
    References a;
    bool ok = p.g->evaluateTrajectory(t, a, only, plot);
    c.check(ok, "refused", PBT_S("evaluation at " << t << " failed"));
    c.check(finite3(a, only), "finite", PBT_S("a component at " << t << " is not finite: " << v3(a.position) << (only ? "" : v3(a.velocity) + v3(a.acceleration))));
    References b = eval(*p.g, t, false, c.s.chance(1, 2)), o = eval(*p.g, t, true, true);
    c.check(finite3(b, false), "finite", PBT_S("a component at " << t << " is not finite"));
    c.check(a.position == b.position && (only || (a.velocity == b.velocity && a.acceleration == b.acceleration)), "repeat", PBT_S("the second answer for " << t << " differs"));
    c.check(o.position == b.position, "positions-only", PBT_S("the position alone at " << t << " is " << v3(o.position) << ", with derivatives " << v3(b.position)));
    double T = (double)t + p.off;
    double slack = 4 * (ulpf(t) + ulpf(p.tmax));
    if (T < p.tmin - slack) {
      c.check((b.position - start.position).norm() <= (1e-9 + 1e-13 * std::fabs(t)) * (1 + b.position.norm()) || (moved && std::fabs(t) > 1e6), "clamp-start", PBT_S("position at " << t << ", before the beginning, is " << v3(b.position)));
    } else if (T > p.tmax + slack) {
      expect_near(c, b.position, last, 3e-4 + 100 * slack, "clamp-end", PBT_S("position at " << t << ", after the end"));
      expect_near(c, b.velocity, Vector3d::Zero(), 2e-3, "end-vel", PBT_S("velocity at " << t << ", after the end"));
      expect_near(c, b.acceleration, Vector3d::Zero(), 2e-2, "end-acc", PBT_S("acceleration at " << t << ", after the end"));
    } else {
      ++inside;
    }
  }
  if (inside && inside < k) c.nontrivial();
  delete p.g;
  s.end();
}

// The same history with and without plotting evaluations in between gives the same answers.
struct Op { int kind; double dt, x; Vector3d p; int which; std::vector<float> plots; bool before; };
static std::string run_history(pbt::Ctx& c, const std::vector<Op>& ops, const std::vector<Vector3d>& first, const Vector3d& veh, double speed, double D,
                               bool plotting, std::vector<double>& log) {
  ds::Config cfg;
  cfg.spawn_delay = [D](int) { return D; };
  Session s(c, cfg);
  auto* g = new DynamicTrajectory;
  g->setSpeed(speed);
  g->updateVehiclePosition(veh);
  DynamicWaypoint::Vector w;
  for (size_t i = 0; i < first.size(); ++i) w.push_back(waypoint("w" + std::to_string(i), first[i]));
  g->setWaypoints(w);
  g->getDynamicWaypoints();
  double t = 0;
  int added = 0;
  std::string names;
  auto put = [&](const Vector3d& v) { for (int i = 0; i < 3; ++i) log.push_back(v[i]); };
  for (auto& o : ops) {
    if (o.kind == 0 || o.kind == 3) {
      ds::sleep(o.dt);
      t += o.dt;
      if (plotting && o.before) for (float x : o.plots) eval(*g, (float)(t + x), x < 0, true);
      References r = eval(*g, (float)t, false, false);
      if (plotting) for (float x : o.plots) eval(*g, (float)(t + x), x > 1, true);
      put(r.position); put(r.velocity); put(r.acceleration);
      log.push_back(g->getRemainingWaypoints());
      log.push_back(g->getMinTime());
      log.push_back(g->getMaxTime());
      log.push_back(g->getTimeCompensation());
      for (auto& x : g->getNextTrajectoryWaypoints()) { names += x.getName() + ","; log.push_back(x.getTime()); put(x.getCurrentPosition()); }
      names += ";";
    } else if (o.kind == 1) {
      g->appendWaypoint(waypoint("a" + std::to_string(added++), o.p));
    } else if (o.kind == 2) {
      g->modifyWaypoint("w" + std::to_string(o.which % first.size()), o.p, o.x > 0.5);
    }
  }
  delete g;
  s.end();
  return names;
}
static void plotting(pbt::Ctx& c) {
  double lim = 10, speed = c.s.logreal(0.5, 5), D = c.s.pick(std::vector<double>{0.05, 0.2, 0.01});
  Vector3d veh = point(c, lim);
  auto first = points(c, c.s.irange(1, 3), veh, lim, 0.5);
  std::vector<Op> ops;
  int k = c.s.irange(3, 25), changes = 0;
  c.desc << "speed " << speed << " delay " << D << " vehicle " << v3(veh) << " set";
  for (auto& q : first) c.desc << v3(q);
  for (int i = 0; i < k; ++i) {
    Op o{};
    o.kind = (int)c.s.below(8);
    if (o.kind > 2 || changes > 3) o.kind = 0;
    if (o.kind) ++changes;
    o.dt = c.s.pick(std::vector<double>{0.1, 0.05, 0.5, 0.02});
    o.x = c.s.unit();
    o.p = point(c, lim);
    o.which = (int)c.s.below(4);
    o.before = c.s.chance(1, 2);
    int np = (int)c.s.below(4);
    for (int j = 0; j < np; ++j) o.plots.push_back((float)c.s.real(-5, 40));
    ops.push_back(o);
    if (o.kind == 0) { c.desc << " e+" << o.dt; for (float x : o.plots) c.desc << " plot" << x; }
    else if (o.kind == 1) c.desc << " append" << v3(o.p);
    else c.desc << " move w" << o.which << v3(o.p) << (o.x > 0.5 ? "replan" : "");
  }
  Op last{};
  last.dt = 0.5;
  for (int i = 0; i < 4; ++i) ops.push_back(last);
  std::vector<double> a, b;
  std::string na = run_history(c, ops, first, veh, speed, D, false, a), nb = run_history(c, ops, first, veh, speed, D, true, b);
  c.check(na == nb && a.size() == b.size(), "plot-waypoints", "plotting evaluations changed the waypoints ahead: " + na + " / " + nb);
  for (size_t i = 0; i < a.size(); ++i) {
    double e = std::fabs(a[i] - b[i]);
    c.check(e <= 1e-7 * (1 + std::fabs(a[i])), "plot-answer", PBT_S("plotting evaluations changed a later answer (item " << i << " of the log) from " << a[i] << " to " << b[i]));
  }
  if (changes) c.nontrivial();
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"evaluation", 3, evaluation}, {"plotting", 1, plotting}}); }
