// C07: continuity of the references when a new plan takes over in flight.
#include "dyn.hpp"
using namespace dyn;

namespace {
const char* kStitch = "stitching_point";
struct Plan {
  DynamicWaypoint::Deque d;
  double tmin = 0, tmax = 0, off = 0, vmax = 0, amax = 0;
  int n = 0;
  std::vector<Vector3d> path;   // at n + 1 times from tmin to tmax
  double time(int i) const { return tmin + (tmax - tmin) * i / n; }
};
struct Flight {
  pbt::Ctx& c;
  DynamicTrajectory* g = nullptr;
  Plan p;
  std::map<float, References> seen;  // references given by the plan in force
  float t = 0;
  bool have = false, pos_only_last = false;
  Vector3d last;                     // last position reference
  Vector3d veh;
  double delay_used = 0;             // computation time of the plan in force
  int stitched = 0, scratch = 0;
  Flight(pbt::Ctx& c_) : c(c_) {}

  Plan look() {
    Plan q;
    q.d = g->getDynamicWaypoints();
    q.tmin = g->getMinTime();
    q.tmax = g->getMaxTime();
    q.off = g->getTimeCompensation();
    return q;
  }
  void sample(Plan& q) {
    q.n = (int)std::min(4000.0, std::max(400.0, (q.tmax - q.tmin) / 0.01));
    q.path.resize(q.n + 1);
    q.vmax = q.amax = 0;
    for (int i = 0; i <= q.n; ++i) {
      References r = eval(*g, (float)(q.time(i) - q.off));
      q.path[i] = r.position;
      q.vmax = std::max(q.vmax, r.velocity.norm());
      q.amax = std::max(q.amax, r.acceleration.norm());
    }
    double h = (q.tmax - q.tmin) / q.n;
    // Short segments have short peaks.
    for (size_t k = 1; k < q.d.size(); ++k) for (int i = 0; i <= 60; ++i) {
      double a = q.d[k - 1].getTime(), b = q.d[k].getTime();
      References r = eval(*g, (float)(a + (b - a) * i / 60 - q.off));
      q.vmax = std::max(q.vmax, r.velocity.norm());
      q.amax = std::max(q.amax, r.acceleration.norm());
    }
    // Moves made shortly before a waypoint are short as well.
    for (auto& w : q.d) for (int i = -60; i <= 60; ++i) {
      References r = eval(*g, (float)(w.getTime() - q.off + (i < 0 ? -1 : 1) * 1e-3 * std::pow(1.12, std::abs(i))));
      q.vmax = std::max(q.vmax, r.velocity.norm() * 1.003);
      q.amax = std::max(q.amax, r.acceleration.norm());
    }
    q.vmax = q.vmax * 1.002 + q.amax * h * 0.5;
    q.amax *= 1.02;
  }
  bool differs(const Plan& a, const Plan& b) const {
    if (a.d.size() != b.d.size() || a.tmin != b.tmin || a.tmax != b.tmax || a.off != b.off) return true;
    for (size_t i = 0; i < a.d.size(); ++i) if (a.d[i].getTime() != b.d[i].getTime() || a.d[i].getName() != b.d[i].getName()) return true;
    return false;
  }
};
}  // namespace

static void flight(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.seed = c.s.below(100);
  std::vector<double> delays;
  for (int i = 0; i < 8; ++i) delays.push_back(c.s.logreal(0.005, 0.5));
  bool fixed = c.s.chance(1, 2);
  int computed = 0;
  cfg.spawn_delay = [&](int k) { (void)k; return delays[fixed ? 0 : computed++ % 8]; };
  Session s(c, cfg);
  Flight f(c);
  f.g = new DynamicTrajectory;
  DynamicTrajectory& g = *f.g;
  double speed = c.s.logreal(0.5, 10);
  g.setSpeed(speed);
  f.veh = point(c, 10);
  g.updateVehiclePosition(f.veh);
  int nw = c.s.irange(1, 4), next = 0;
  c.desc << "speed " << speed << " vehicle " << v3(f.veh) << " set";
  DynamicWaypoint::Vector w;
  auto fresh = [&]() { Vector3d p = point(c, 20); std::string n = "w" + std::to_string(next++); c.desc << " '" << n << "'" << v3(p); return waypoint(n, p); };
  for (int i = 0; i < nw; ++i) w.push_back(fresh());
  g.setWaypoints(w);
  f.p = f.look();
  f.sample(f.p);
  double dt = c.s.logreal(0.002, 0.1);
  c.desc << " delays " << delays[0] << (fixed ? "" : "...") << " step " << dt;
  int requests = c.s.sized(1, 4, 10);
  bool outstanding = false;
  float t_req = 0;
  g.getWasTrajectoryRegenerated();
  References r = eval(g, 0, false, false);
  f.seen[0] = r;
  f.last = r.position;
  for (int q = 0; q < requests; ++q) {
    // Fly for some time.
    double left = f.p.tmax - f.p.off - f.t;
    double by = c.s.chance(1, 2) ? c.s.unit() * std::min(left, 3.0) : c.s.unit() * left;
    int steps = 0, pend = (int)std::min(400.0, std::max(0.0, by / dt));
    double big = by - pend * dt;  // the first part in one go
    bool asked = false, moved = false;
    for (;;) {
      if (!asked && steps >= pend) {
        asked = true;
        if (!outstanding) t_req = f.t;
        outstanding = true;
        c.desc << " at " << f.t;
        switch (c.s.below(5)) {
          case 0: { int k = c.s.sized(1, 3, 8); DynamicWaypoint::Vector v; c.desc << " set"; for (int i = 0; i < k; ++i) v.push_back(fresh()); g.setWaypoints(v); break; }
          case 1: { std::string n = "w" + std::to_string(c.s.below(next)); Vector3d p = point(c, 20); c.desc << " move '" << n << "'" << v3(p); g.modifyWaypoint(n, p, true); moved = true; break; }
          default: c.desc << " append"; g.appendWaypoint(fresh());
        }
      }
      double h = steps == 0 && big > 0 ? dt + big : dt;
      ds::sleep(h);
      float to = (float)(f.t + h);
      int how = c.s.below(12);
      if (how == 0) eval(g, (float)c.s.real(0, f.p.tmax), false, true);
      if (how == 1) g.getDynamicWaypoints();
      r = eval(g, to, false, false);
      ++steps;
      // Did a plan take over before this evaluation?  (A look may let one take over as well: none may be ready.)
      Plan now = f.look();
      bool flag = g.getWasTrajectoryRegenerated(), again = g.getWasTrajectoryRegenerated();
      c.check(!again, "flag-cleared", "the flag of a new trajectory is not cleared by reading it");
      bool fresh_plan = f.differs(now, f.p);
      if (flag && !fresh_plan && moved) {
        // Applied in place for the time being, which changes the references.
        c.label("moved in place before planning");
        f.sample(f.p);
        for (auto& x : f.seen) x.second = eval(g, x.first);
        f.seen[to] = eval(g, to);
        f.t = to;
        f.last = f.seen[to].position;
        moved = false;
        continue;
      }
      if (flag != fresh_plan) c.fail("flag", PBT_S("flag of a new trajectory is " << flag << " but there is " << (fresh_plan ? "a new one" : "none") << ":" << show(now.d)));
      double step = (r.position - f.last).norm();
      if (!fresh_plan) {
        double bound = f.p.vmax * ((double)to - f.t) + 1e-6;
        c.metric("margin:step", step / bound);
        if (!(step <= bound + f.p.vmax * 2 * ulpf(to))) c.fail("step", PBT_S("reference moves " << step << " from time " << f.t << " to " << to << ", at most " << f.p.vmax << " m/s"));
        f.seen[to] = r;
        f.t = to;
        f.last = r.position;
        if (asked && steps > pend + 2000) break;
        if (asked && !g.getGenerateNewTraj() && !g.getComputingNewTrajectoryStatus()) { outstanding = false; break; }  // nothing to plan
        continue;
      }
      f.sample(now);
      bool stitch = now.d[0].getName() == kStitch;
      // The first point: reference of the old plan at the last evaluation before planning, or the vehicle.
      References start = eval(g, std::nextafterf((float)(now.tmin - now.off), -INFINITY));
      double mid = f.t - now.tmin;
      c.label(stitch ? "stitched" : "from scratch");
      if (stitch) {
        ++f.stitched;
        auto it = f.seen.find((float)now.tmin);
        if (it == f.seen.end() || (double)(float)now.tmin != now.tmin || it->first < t_req)
          c.fail("start-time", PBT_S("the new plan begins at " << now.tmin << ", which is no time evaluated since the request at " << t_req));
        References o = it->second;
        for (int k = 0; k < 3; ++k) {
          double scale = 1e-6 * (1 + o[k].norm());
          expect_near(c, start[k], o[k], scale, k == 0 ? "start-position" : k == 1 ? "start-velocity" : "start-acceleration", PBT_S("derivative " << k << " at the start of the plan begun at " << now.tmin));
        }
        // Second splice point.
        if (now.d.size() > 1 && now.d[1].getName() == kStitch) {
          double T1 = std::min(now.tmin + f.p.off, f.p.tmax), gridstep = (f.p.tmax - f.p.tmin) / f.p.n, best = 1e300, lo = 0, hi = 1e300;
          for (int i = 0; i <= f.p.n; ++i) {
            double T = f.p.time(i);
            if (T < T1 + lo - gridstep || T > T1 + hi + gridstep) continue;
            best = std::min(best, (f.p.path[i] - now.d[1].getCurrentPosition()).norm());
          }
          double tol = f.p.vmax * gridstep + 1e-6;
          c.metric("margin:splice", best / tol);
          if (!(best <= tol)) c.fail("splice", PBT_S("second splice point " << v3(now.d[1].getCurrentPosition()) << " is " << best << " away from the old path ahead"));
        }
        // The first evaluation of the new plan: the time passed plus the alignment step, plus what the plans have come apart since they split.
        double vm = std::max(now.vmax, f.p.vmax);
        double apart = (eval(g, (float)(now.tmin + mid - now.off)).position - f.last).norm();
        double bound = vm * (h + 0.1 + 0.05) + 1e-6 + (mid <= 0.1 ? 0 : apart) + vm * 4 * ulpf(to);
        double am = std::max(now.amax, f.p.amax);
        c.check(apart <= 0.5 * (now.amax + f.p.amax) * mid * mid * 1.1 + vm * 4 * ulpf(to) + 1e-6, "apart", PBT_S("the plans are " << apart << " apart " << mid << " s after they split, with accelerations up to " << am));
        c.metric(mid <= 0.1 ? "margin:jump-short" : "margin:jump-long", step / bound);
        if (!(step <= bound)) c.fail("jump", PBT_S("reference moves " << step << " from time " << f.t << " to " << to << " as the plan of " << now.tmin << " takes over (speeds up to " << vm << ", plans " << apart << " apart):" << show(now.d)));
      } else {
        ++f.scratch;
        expect_near(c, start.position, f.veh, 1e-6, "start-vehicle", "start of a plan from scratch");
        expect_near(c, start.velocity, Vector3d::Zero(), 1e-5, "start-rest", "speed at the start of a plan from scratch");
      }
      f.p = now;
      outstanding = g.getGenerateNewTraj() || g.getComputingNewTrajectoryStatus();
      f.seen.clear();
      f.t = to;
      f.seen[to] = r;
      f.last = r.position;
      break;
    }
  }
  if (f.stitched) c.nontrivial();
  delete f.g;
  s.end();
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"flight", 1, flight}}); }
