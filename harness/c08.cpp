// C08: requests from several threads under explored interleavings; destruction at any moment.
#include "dyn.hpp"

#include <thread>
using namespace dyn;

namespace {
const char* kStitch = "stitching_point";
ds::Config config(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.seed = c.s.below(1000);
  std::vector<double> d;
  bool slow = c.s.chance(1, 4);
  for (int i = 0; i < 6; ++i) d.push_back(c.s.chance(1, 5) ? 0.0 : c.s.logreal(1e-4, slow ? 0.8 : 0.1));
  int* n = new int(0);
  cfg.spawn_delay = [d, n](int) { return d[(*n)++ % d.size()]; };
  int ns = c.s.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 12});
  bool all = c.s.chance(1, 4);
  for (int i = 0; i < ns; ++i) {
    double s = c.s.pick(std::vector<double>{0.0, 1e-4, 2e-3, 0.011, 0.02, 0.05});
    // Anywhere, or shortly after a synchronisation.
    if (all) cfg.stalls.push_back({(uint64_t)c.s.logreal(1, 20000), s});
    else cfg.stalls.push_back({(uint64_t)c.s.logreal(1, 200), s, (uint64_t)c.s.logreal(1, 200)});
  }
  if (c.s.chance(1, 4)) cfg.p_random = c.s.logreal(0.001, 0.1);
  c.desc << "seed " << cfg.seed << " random " << cfg.p_random << " stalls";
  for (auto& s : cfg.stalls) c.desc << " " << s.sync << "+" << s.gap << ":" << s.seconds;
  c.desc << " delays";
  for (double x : d) c.desc << " " << x;
  return cfg;
}
struct Op { int kind; std::string name; Vector3d p; double wait; int k; };
// Far from the vehicle: nothing is passed during a case.
Vector3d far(pbt::Ctx& c) {
  Vector3d p = point(c, 30);
  p[0] = (p[0] < 0 ? -1 : 1) * (20 + std::fabs(p[0]));
  return p;
}
struct Script {
  std::vector<Op> ops;
  std::vector<std::pair<std::string, Vector3d>> mine;  // appended since the last set, or all
  bool sets = false;
};
Script script(pbt::Ctx& c, int id, bool may_set, int n) {
  Script s;
  int next = 0;
  char pre = (char)('a' + id);
  c.desc << " thread " << pre << ":";
  for (int i = 0; i < n; ++i) {
    Op o;
    o.k = 1;
    o.wait = c.s.chance(1, 2) ? 0 : c.s.logreal(1e-4, 0.1);
    o.p = far(c);
    int k = c.s.below(10);
    if (k < 4) {
      o.kind = 0;
      o.name = pre + std::to_string(next++);
      s.mine.push_back({o.name, o.p});
      c.desc << " append " << o.name;
    } else if (k < 8 && !s.mine.empty()) {
      o.kind = k < 6 ? 1 : k == 6 ? 2 : 3;
      auto& m = s.mine[c.s.below(s.mine.size())];
      o.name = m.first;
      m.second = o.p;
      c.desc << (o.kind == 1 ? " move " : o.kind == 2 ? " move+plan " : " moves ") << o.name;
    } else if (k == 8 && may_set) {
      o.kind = 4;
      o.k = c.s.irange(1, 3);
      o.name = pre + std::to_string(next);
      next += o.k;
      s.mine.clear();
      for (int q = 0; q < o.k; ++q) s.mine.push_back({pre + std::to_string(next - o.k + q), o.p + Vector3d(0, 3 * q, 0)});
      s.sets = true;
      c.desc << " set " << o.name << "*" << o.k;
    } else {
      o.kind = 5 + c.s.below(6);
      c.desc << " look";
    }
    if (o.kind < 5) c.desc << v3(o.p);
    if (o.wait) c.desc << " wait " << o.wait;
    s.ops.push_back(o);
  }
  return s;
}
void run(DynamicTrajectory& g, const Script& s, const Vector3d& veh) {
  for (auto& o : s.ops) {
    switch (o.kind) {
      case 0: g.appendWaypoint(waypoint(o.name, o.p)); break;
      case 1: g.modifyWaypoint(o.name, o.p, false); break;
      case 2: g.modifyWaypoint(o.name, o.p, true); break;
      case 3: g.modifyWaypoints({{o.name, o.p}, {"nobody", o.p}}); break;
      case 4: {
        DynamicWaypoint::Vector w;
        int first = atoi(o.name.c_str() + 1);
        for (int q = 0; q < o.k; ++q) w.push_back(waypoint(o.name[0] + std::to_string(first + q), o.p + Vector3d(0, 3 * q, 0)));
        g.setWaypoints(w);
        break;
      }
      case 5: g.getRemainingWaypoints(); break;
      case 6: g.getNextTrajectoryWaypoints(); break;
      case 7: g.getWasTrajectoryRegenerated(); break;
      case 8: g.getTimeCompensation(); break;
      case 9: g.updateVehiclePosition(veh); break;
      default: g.getSpeed(); g.getGenerateNewTraj(); g.getComputingNewTrajectoryStatus();
    }
    if (o.wait) ds::sleep(o.wait);
  }
}
}  // namespace

static void requests(pbt::Ctx& c) {
  ds::Config cfg = config(c);
  int nt = c.s.irange(1, 3);
  std::vector<Script> sc;
  int setter = c.s.below(4);
  int total = 0;
  for (int i = 0; i < nt; ++i) {
    sc.push_back(script(c, i, i == setter, c.s.sized(1, 7, 24)));
    total += sc[i].mine.size();
  }
  if (!total) throw pbt::Discard{};
  Vector3d veh = point(c, 5);
  double speed = c.s.pick(std::vector<double>{0.1, 0.05, 0.15});
  float t = 0;
  int looks = c.s.irange(0, 40), wait_how = c.s.below(4);
  double dt = c.s.pick(std::vector<double>{0.01, 0.001, 0.02});
  c.desc << " main: " << looks << " evaluations every " << dt << " after query " << wait_how;
  Session s(c, cfg);
  auto* g = new DynamicTrajectory;
  g->setSpeed(speed);
  g->updateVehiclePosition(veh);
  std::vector<std::thread> th;
  for (int i = 0; i < nt; ++i) th.emplace_back([g, &sc, i, veh] { run(*g, sc[i], veh); });
  // Waits until there is a trajectory.
  switch (wait_how) {
    case 0: g->getMaxTime(); break;
    case 1: g->getMinTime(); break;
    case 2: g->getDynamicWaypoints(); break;
    default: break;
  }
  for (int i = 0; i < looks; ++i) {
    eval(*g, t, i & 1, i & 2);
    ds::sleep(dt);
    t += (float)dt;
    if (i % 8 == 3) g->getDynamicWaypoints();
    if (i % 8 == 5) g->getMaxTime();
  }
  for (auto& t : th) t.join();
  double from = ds::now();
  eval(*g, t);
  for (int quiet = 0; quiet < 20;) {  // moves in place do not show as busy: a planner held up again and again has 4 s for them
    ds::sleep(0.2);
    t += 0.2f;
    eval(*g, t, false, false);
    bool busy = g->getGenerateNewTraj() || g->getComputingNewTrajectoryStatus();
    quiet = busy ? 0 : quiet + 1;
    if (ds::now() - from > 300) c.fail("stuck", "a request is still pending after 5 minutes of evaluations");
  }
  DynamicWaypoint::Deque d = g->getDynamicWaypoints();
  if (t > 60) { c.label("too slow to tell"); delete g; s.end(); return; }
  // Own waypoints in order, each once, where they were last moved; a set removes those of the others requested before it.
  size_t skip = 0;
  while (skip < d.size() && (d[skip].getName().empty() || d[skip].getName() == kStitch)) ++skip;
  bool any_set = false;
  for (auto& x : sc) any_set |= x.sets;
  size_t reported = 0;
  for (int i = 0; i < nt; ++i) {
    std::vector<const DynamicWaypoint*> own;
    for (size_t k = skip; k < d.size(); ++k) if (!d[k].getName().empty() && d[k].getName()[0] == 'a' + i && d[k].getName() != kStitch) own.push_back(&d[k]);
    reported += own.size();
    auto& mine = sc[i].mine;
    size_t drop = mine.size() - std::min(mine.size(), own.size());
    if (own.size() > mine.size() || (drop && !(any_set && !sc[i].sets)))
      c.fail("lost", PBT_S("thread " << (char)('a' + i) << " has requested " << mine.size() << " waypoints, of which the plan has " << own.size() << ":" << show(d)));
    for (size_t k = 0; k < own.size(); ++k) {
      if (own[k]->getName() != mine[drop + k].first) c.fail("order", PBT_S("waypoint " << own[k]->getName() << " instead of " << mine[drop + k].first << ":" << show(d)));
      if ((own[k]->getCurrentPosition() - mine[drop + k].second).norm() > 1e-9) c.fail("position", PBT_S("waypoint " << own[k]->getName() << " should be at " << v3(mine[drop + k].second) << ":" << show(d)));
    }
  }
  c.check(skip + reported == d.size(), "foreign", PBT_S("the plan has waypoints nobody asked for:" << show(d)));
  auto r = ds::report();
  c.metric("points", r.points);
  c.metric("switches", r.switches);
  if (r.stalls) c.label("stalls taken");
  if (nt > 1 || r.stalls) c.nontrivial();
  delete g;
  s.end();
}

static void teardown(pbt::Ctx& c) {
  ds::Config cfg = config(c);
  Script sc = script(c, 0, true, c.s.irange(0, 5)), sc2 = script(c, 1, false, c.s.irange(0, 3));
  Vector3d veh = point(c, 5);
  bool two = c.s.chance(1, 3);
  int looks = c.s.chance(1, 2) ? 0 : c.s.irange(1, 10);
  double before = c.s.chance(1, 3) ? 0 : c.s.logreal(1e-5, 0.3);
  bool any = false;
  for (auto& o : sc.ops) any |= o.kind == 0 || o.kind == 4;
  if (!any) looks = 0;
  bool queue = c.s.chance(1, 2);
  c.desc << (two ? " both" : "") << " " << looks << " evaluations, destroyed after " << before;
  Session s(c, cfg);
  auto* g = new DynamicTrajectory;
  g->setSpeed(1);
  g->updateVehiclePosition(veh);
  std::thread other;
  if (two) other = std::thread([g, &sc2, veh] { run(*g, sc2, veh); });
  run(*g, sc, veh);
  for (int i = 0; i < looks; ++i) { eval(*g, 0.001f * i, false, false); ds::sleep(0.01); }
  if (two) other.join();
  if (queue) g->appendWaypoint(waypoint("last", far(c)));
  if (before) ds::sleep(before);
  if (g->getComputingNewTrajectoryStatus()) { c.label("destroyed while computing"); c.nontrivial(); }
  else if (g->getGenerateNewTraj()) { c.label("destroyed with a request pending"); c.nontrivial(); }
  double from = ds::now();
  delete g;
  double took = ds::now() - from;
  c.metric("destruction", took);
  if (took > 30) c.fail("slow", PBT_S("the destruction takes " << took << " s"));
  s.end();
}
// Several threads read the flag which announces a new trajectory: it is seen once for each one.
static void flag(pbt::Ctx& c) {
  ds::Config cfg = config(c);
  int nr = c.s.irange(1, 3), plans = c.s.irange(1, 3);
  double period = c.s.pick(std::vector<double>{2e-4, 1e-3, 5e-3});
  std::vector<Vector3d> at;
  for (int i = 0; i < plans; ++i) at.push_back(far(c) * 3);
  Vector3d veh = point(c, 5);
  c.desc << " " << plans << " plans, " << nr << " readers every " << period;
  Session s(c, cfg);
  auto* g = new DynamicTrajectory;
  g->setSpeed(0.1);
  g->updateVehiclePosition(veh);
  bool over = false;
  int seen = 0;  // one thread runs at a time
  std::vector<std::thread> th;
  for (int i = 0; i < nr; ++i) th.emplace_back([&] {
    while (!*(volatile bool*)&over) {
      if (g->getWasTrajectoryRegenerated()) ++seen;
      ds::sleep(period);
    }
  });
  int taken = 0;
  double pause = 0.1;
  for (auto& x : cfg.stalls) pause += x.seconds;
  double end = -1;
  float t = 0;
  for (int i = 0; i < plans; ++i) {
    g->appendWaypoint(waypoint("p" + std::to_string(i), at[i]));
    double from = ds::now(), last = -1;
    while (last < 0 || ds::now() - last < pause) {
      if (last < 0 && ds::now() - from > 60) break;
      eval(*g, t, false, false);
      if (g->getMaxTime() != end) { ++taken; last = ds::now(); end = g->getMaxTime(); }
      ds::sleep(0.01);
      t += 0.01f;
    }
  }
  over = true;
  for (auto& x : th) x.join();
  seen += g->getWasTrajectoryRegenerated();
  c.check(seen == taken, "flag", PBT_S("the flag is seen " << seen << " times for " << taken << " new trajectories"));
  if (ds::report().stalls && taken) c.nontrivial();
  delete g;
  s.end();
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"requests", 3, requests}, {"teardown", 1, teardown}, {"flag", 1, flag}}); }
