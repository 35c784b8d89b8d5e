// C01: a plan visits the requested waypoints, in order and on time.
#include "dyn.hpp"
using namespace dyn;

static void plan(pbt::Ctx& c) {
  ds::Config cfg;
  double D = c.s.pick(std::vector<double>{0.05, 0.002, 0.3, 1.5});
  cfg.spawn_delay = [D](int) { return D; };
  int rounds = c.s.chance(1, 4) ? 2 : 1;
  Session s(c, cfg);
  auto* g = new DynamicTrajectory;
  double t_now = 0;
  for (int round = 0; round < rounds; ++round) {
    int n = c.s.sized(1, c.s.chance(1, 4) ? 8 : 4, 20);
    double lim = c.s.pick(std::vector<double>{2, 10, 50});
    double speed = c.s.logreal(0.3, 10);
    Vector3d veh = point(c, lim);
    g->setSpeed(speed);
    g->updateVehiclePosition(veh);
    auto pos = points(c, n, veh, lim);
    DynamicWaypoint::Vector w;
    std::vector<bool> has_v(n, false);
    std::vector<Vector3d> vel(n), acc(n);
    std::vector<bool> has_a(n, false);
    c.desc << (round ? " | then" : "") << " speed " << speed << " vehicle " << v3(veh) << " delay " << D << " set";
    for (int i = 0; i < n; ++i) {
      std::string name = c.s.chance(1, 4) ? "" : "w" + std::to_string(c.s.chance(1, 10) ? 0 : i);
      w.push_back(waypoint(name, pos[i]));
      c.desc << " '" << name << "'" << v3(pos[i]);
      if (c.s.chance(1, 4)) {
        vel[i] = point(c, speed / 2);
        has_v[i] = true;
        w.back().setConstraint(1, vel[i]);
        c.desc << "v" << v3(vel[i]);
      }
      if (c.s.chance(1, 15)) {
        acc[i] = point(c, 2);
        has_a[i] = true;
        w.back().setConstraint(2, acc[i]);
        c.desc << "a" << v3(acc[i]);
      }
    }
    g->setWaypoints(w);
    // The first query waits for the plan; a later plan is taken over by an evaluating caller.
    References r;
    int first = (int)c.s.below(3);
    double old_min = round ? g->getMinTime() : 0;
    if (!round) {
      if (first == 0) g->getDynamicWaypoints();
      if (first == 1) g->getMaxTime();
      if (first == 2) g->evaluateTrajectory(0.f, r);
    } else {
      bool moving = c.s.chance(1, 2);
      for (int k = 0; k < 1000; ++k) {
        ds::sleep(0.05);
        if (moving) t_now += 0.05;
        g->evaluateTrajectory((float)t_now, r);
        if (g->getWasTrajectoryRegenerated()) break;
      }
      if (g->getMinTime() == old_min) c.fail("no-plan", "no new plan was made within 50 s of evaluating");
    }
    g->getWasTrajectoryRegenerated();
    auto d = g->getDynamicWaypoints();
    double off = g->getTimeCompensation(), tmin = g->getMinTime(), tmax = g->getMaxTime();
    c.desc << " ->" << show(d) << " [" << tmin << "," << tmax << "] offset " << off;
    c.check((int)d.size() == n + 1, "count", PBT_S(d.size() << " waypoints are reported for " << n << " requested ones"));
    c.check(d[0].getCurrentPosition() == veh, "vehicle", "the first reported waypoint is not the vehicle position");
    c.close(d[0].getTime(), tmin, 1e-9 * (1 + std::fabs(tmin)), "first-time", "time of the first waypoint (start of the trajectory)");
    c.close(d[n].getTime(), tmax, 1e-9 * (1 + std::fabs(tmax)), "last-time", "time of the last waypoint (end of the trajectory)");
    for (int i = 0; i < n; ++i) {
      c.check(d[i + 1].getName() == w[i].getName() && d[i + 1].getCurrentPosition() == pos[i], "list", PBT_S("reported waypoint " << i + 1 << " is '" << d[i + 1].getName() << "' " << v3(d[i + 1].getCurrentPosition())));
      c.check(d[i + 1].getTime() > d[i].getTime(), "times", PBT_S("times do not increase at waypoint " << i + 1));
    }
    auto at = [&](double T) { return eval(*g, (float)(T - off)); };
    double ptol = 3e-4, vtol = 2e-3, atol = 2e-2;
    double u = 2 * ulpf(tmax + std::fabs(off));
    auto ok = [&](const Vector3d& a, const Vector3d& b, double tol, const char* tag, const std::string& what) {
      double e = (a - b).norm();
      c.metric(std::string("margin:") + tag, e / tol);
      if (!(e <= tol)) c.fail(tag, PBT_S(what << ": got " << v3(a) << ", expected " << v3(b) << " (distance " << e << ")"));
    };
    References b = at(tmin - 1);
    ok(b.position, veh, ptol, "start-pos", "position before the start");
    b = at(tmin);
    ok(b.position, veh, ptol, "start-pos", "position at the start");
    ok(b.velocity, Vector3d::Zero(), vtol + 60 * u, "start-vel", "velocity at the start");
    ok(b.acceleration, Vector3d::Zero(), atol + 3000 * u, "start-acc", "acceleration at the start");
    for (int i = 0; i < n; ++i) {
      References q = at(d[i + 1].getTime());
      ok(q.position, pos[i], ptol + 2 * std::max(speed, q.velocity.norm()) * u, "hit", PBT_S("position at the time of waypoint " << i + 1));
      if (has_v[i] && i + 1 < n) ok(q.velocity, vel[i], vtol + std::max(60.0, 2 * q.acceleration.norm()) * u, "velocity", PBT_S("velocity at waypoint " << i + 1));
      if (has_a[i] && i + 1 < n) ok(q.acceleration, acc[i], atol + 3000 * u, "acceleration", PBT_S("acceleration at waypoint " << i + 1));
    }
    References e = at(tmax);
    ok(e.position, pos[n - 1], ptol, "end-pos", "position at the end");
    ok(e.velocity, Vector3d::Zero(), vtol + 60 * u, "end-vel", "velocity at the end");
    ok(e.acceleration, Vector3d::Zero(), atol + 3000 * u, "end-acc", "acceleration at the end");
    if (n >= 2) c.nontrivial();
    if (round + 1 < rounds) {  // fly to the end, then be idle
      t_now = std::max(tmax, tmax - off) + 0.001 + c.s.unit();
      g->evaluateTrajectory((float)t_now, r);
      t_now = (float)t_now;
    }
  }
  delete g;
  s.end();
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"plan", 1, plan}}); }
