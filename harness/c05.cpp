// C05: waypoints moved in place, against a model of superposed bells.
#include "dyn.hpp"
using namespace dyn;

struct Bell { Vector3d diff; double T, sigma; };
struct Model {
  struct W { std::string name; double T; Vector3d pos; double last_sigma = 1.5; };
  std::vector<W> w;
  std::vector<Bell> bells;
  void move(const std::string& name, const Vector3d& p, double last_eval) {
    if (name.empty()) return;
    for (auto& x : w) if (x.name == name) {
      double sigma = last_eval > 0 ? (x.T - last_eval) / 3 : (x.last_sigma *= 0.75);
      Vector3d d = p - x.pos;
      for (int i = 0; i < 3; ++i) if (std::fabs(d[i]) < 0.02) d[i] = 0;
      bells.push_back({d, x.T, sigma});
      x.pos = p;
    }
  }
  // Sum of the bells at time t, and the sum of their sizes.
  Vector3d at(double t, int order, double* size) const {
    Vector3d r = Vector3d::Zero();
    for (auto& b : bells) {
      double x = t - b.T, s2 = b.sigma * b.sigma;
      if (!(std::fabs(x) <= 3.5 * b.sigma) || !(s2 > 0)) continue;
      double e = std::exp(-x * x / (2 * s2));
      r += b.diff * (order == 0 ? e : order == 1 ? -x / s2 * e : (x * x / s2 - 1) / s2 * e);
      *size += b.diff.norm() / std::pow(b.sigma, order);
    }
    return r;
  }
  // Is t so close to the edge of a window that rounding decides?
  bool at_edge(double t) const {
    for (auto& b : bells) if (std::fabs(std::fabs(t - b.T) - 3.5 * b.sigma) < 1e-9 * (1 + std::fabs(t) + std::fabs(b.T))) return true;
    return false;
  }
};

static void moves(pbt::Ctx& c) {
  ds::Config cfg;
  double delay = c.s.logreal(0.01, 0.5);
  cfg.spawn_delay = [delay](int) { return delay; };
  Session s(c, cfg);
  PlanOpt po;
  po.nmax = 5;
  po.min_gap = c.s.chance(1, 3) ? 0 : 0.2;
  po.same = true;
  Planned p = first_plan(c, po);
  double last = 0;
  if (c.s.chance(1, 4)) last = splice(c, s, p);
  Model m;
  for (auto& w : p.d) m.w.push_back({w.getName(), w.getTime(), w.getCurrentPosition()});
  // Reference values of the plan as it is.
  struct Ref { float t; References r; };
  std::vector<Ref> grid;
  auto add = [&](double t) { float f = (float)t; if (f > 0) grid.push_back({f, eval(*p.g, f)}); };
  for (int i = -4; i <= 44; ++i) add(p.tmin - p.off + (p.tmax - p.tmin) * i / 40);
  for (auto& w : p.d) for (double e : {0.0, 1e-3, -1e-3, 0.1, -0.1}) add(w.getTime() - p.off + e);
  for (int i = 0; i < 10; ++i) add(p.tmin - p.off + (p.tmax - p.tmin) * c.s.real(-0.2, 1.3));
  int n = c.s.sized(1, 5, 24), real = 0;
  bool fly = c.s.chance(3, 4);
  for (int i = 0; i < n; ++i) {
    if (fly && (i == 0 || c.s.chance(1, 2))) {
      double room = p.tmax - p.off - last;
      float t = (float)(last + c.s.unit() * c.s.unit() * room);
      if (t > last) { eval(*p.g, t, c.s.chance(1, 2), false); last = t; c.desc << " evaluate " << t; c.label("flying"); }
    }
    // Only waypoints which still lie ahead, by more than rounding and the alignment step.
    std::vector<size_t> ahead;
    for (size_t k = 0; k < m.w.size(); ++k) if (!m.w[k].name.empty() && m.w[k].T > last + std::max(0.0, p.off) + 0.02) {
      bool all = true;  // of that name
      for (size_t q = 0; q < k; ++q) all &= m.w[q].name != m.w[k].name || m.w[q].T > last + std::max(0.0, p.off) + 0.02;
      if (all && m.w[k].name != "stitching_point") ahead.push_back(k);
    }
    std::string name;
    Vector3d to = point(c, 20);
    switch (ahead.empty() ? 0 : c.s.below(8)) {
      case 0: name = c.s.chance(1, 2) ? "nobody" : "w"; c.label("unknown name"); break;
      case 1: name = ""; c.label("empty name"); break;
      default: {
        size_t k = ahead[c.s.below(ahead.size())];
        name = m.w[k].name;
        const Vector3d& at = m.w[k].pos;
        switch (c.s.below(5)) {
          case 0: break;  // anywhere
          case 1: { Vector3d u = point(c, 1); to = at + u * 0.0195; c.label("below two centimetres"); break; }
          case 2: { Vector3d u = point(c, 1); to = at + 0.04 * u; c.label("around two centimetres"); break; }
          case 3: to = at; to[c.s.below(3)] += c.s.real(-3, 3); c.label("one axis"); break;
          default: { Vector3d u = point(c, 2); to = at + u; }
        }
        // Rounding must not decide whether an axis moves.
        for (int q = 0; q < 3; ++q) if (std::fabs(std::fabs(to[q] - at[q]) - 0.02) < 1e-9) to[q] += 1e-6;
        int same = 0;
        for (auto& w : m.w) same += w.name == name;
        if (same > 1) c.label("several waypoints of one name");
        ++real;
      }
    }
    c.desc << " move '" << name << "' to " << v3(to);
    p.g->modifyWaypoint(name, to, false);
    m.move(name, to, last);
    ds::sleep(0.05);
  }
  if (real) c.nontrivial();
  if (real > 1) c.label("several moves");
  c.check(!p.g->getComputingNewTrajectoryStatus() && !p.g->getGenerateNewTraj(), "replans", "moving a waypoint in place starts a new plan");
  // The list.
  DynamicWaypoint::Deque d = p.g->getDynamicWaypoints();
  c.check(d.size() == m.w.size(), "list", PBT_S("the list of waypoints changed:" << show(d)));
  for (size_t i = 0; i < d.size(); ++i) {
    if (d[i].getName() != m.w[i].name || d[i].getTime() != m.w[i].T) c.fail("list", PBT_S("name, time or order of waypoint " << i << " changed:" << show(d)));
    if ((d[i].getCurrentPosition() - m.w[i].pos).norm() > 1e-12) c.fail("list", PBT_S("position of waypoint " << i << " should be " << v3(m.w[i].pos) << ":" << show(d)));
  }
  c.check(p.g->getMinTime() == p.tmin && p.g->getMaxTime() == p.tmax && p.g->getTimeCompensation() == p.off, "times", "moving a waypoint in place changed the times of the trajectory");
  // The references.
  auto compare = [&](float t, const References& was0, bool only, bool plot) {
    double T = (double)t + p.off;
    References now = eval(*p.g, t, only, plot), was = was0;
    // Outside the times of the trajectory its ends are held.
    double slack = 1e-9 * (1 + std::fabs(T));
    if (std::fabs(T - p.tmin) < slack || std::fabs(T - p.tmax) < slack) return;
    bool after = T > p.tmax;
    if (T < p.tmin) T = p.tmin;
    if (after) T = p.tmax;
    if (m.at_edge(T)) return;
    for (int o = 0; o < (only ? 1 : 3); ++o) {
      double size = 0;
      Vector3d b = m.at(T, o, &size), diff = now[o] - was[o];
      if (T <= 0) { b.setZero(); size = 0; }
      if (after && o > 0) {
        expect_near(c, now[o], Vector3d::Zero(), 1e-9, "rest", PBT_S("derivative " << o << " at time " << t << ", after the end"));
        continue;
      }
      double scale = was[o].norm() + size;
      if (size == 0) {
        if (now[o] != was[o]) c.fail("outside", PBT_S("at time " << t << " (trajectory time " << T << ") derivative " << o << " changed by " << v3(diff) << ", though no move reaches so far"));
        continue;
      }
      double tol = 1e-9 * scale + 1e-12, e = (diff - b).norm();
      c.metric(PBT_S("margin:bell" << o), e / tol);
      if (!(e <= tol)) c.fail(PBT_S("bell" << o), PBT_S("at time " << t << " (trajectory time " << T << ") derivative " << o << " changed by " << v3(diff) << " instead of " << v3(b)));
    }
  };
  for (auto& g : grid) compare(g.t, g.r, false, true);
  // Flying on shows the same.
  if (c.s.chance(1, 2)) {
    std::sort(grid.begin(), grid.end(), [](const Ref& a, const Ref& b) { return a.t < b.t; });
    for (auto& g : grid) if (g.t >= last && c.s.chance(1, 2)) compare(g.t, g.r, false, false);
    c.label("flown");
  }
  delete p.g;
  s.end();
}

// Several requests before the planner looks: the last position of each name counts.
static void batch(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.seed = c.s.below(1000);
  cfg.spawn_delay = [](int) { return 0.05; };
  int ns = c.s.below(4);
  for (int i = 0; i < ns; ++i) cfg.stalls.push_back({c.s.below(3000), c.s.logreal(1e-4, 0.1)});
  Session s(c, cfg);
  PlanOpt po;
  po.nmin = 2;
  po.nmax = 5;
  po.min_gap = 1;
  po.unnamed = false;
  Planned p = first_plan(c, po);
  float last = (float)(c.s.unit() * 0.3 * (p.tmax - p.off));
  eval(*p.g, last, false, false);
  std::map<std::string, Vector3d> want;
  std::vector<std::string> ahead;
  for (auto& w : p.d) if (!w.getName().empty() && w.getTime() > last + std::max(0.0, p.off) + 0.02) { ahead.push_back(w.getName()); want[w.getName()] = w.getCurrentPosition(); }
  if (ahead.empty()) { delete p.g; s.end(); throw pbt::Discard{}; }
  int n = c.s.sized(2, 6, 24);
  c.desc << " evaluate " << last;
  for (int i = 0; i < n; ++i) {
    const std::string& name = ahead[c.s.below(ahead.size())];
    Vector3d to = point(c, 20);
    p.g->modifyWaypoint(name, to, false);
    want[name] = to;
    c.desc << " move '" << name << "' to " << v3(to);
    if (c.s.chance(1, 4)) { double t = c.s.logreal(1e-3, 0.05); ds::sleep(t); c.desc << " wait " << t; }
  }
  ds::sleep(0.5);
  DynamicWaypoint::Deque d = p.g->getDynamicWaypoints();
  c.check(d.size() == p.d.size(), "list", PBT_S("the list of waypoints changed:" << show(d)));
  for (size_t i = 0; i < d.size(); ++i) {
    if (d[i].getName() != p.d[i].getName() || d[i].getTime() != p.d[i].getTime()) c.fail("list", PBT_S("name, time or order of waypoint " << i << " changed:" << show(d)));
    Vector3d x = want.count(d[i].getName()) ? want[d[i].getName()] : p.d[i].getCurrentPosition();
    if ((d[i].getCurrentPosition() - x).norm() > 1e-12) c.fail("list", PBT_S("position of waypoint " << i << " should be " << v3(x) << ":" << show(d)));
  }
  // At the time of a waypoint the reference is moved by at least its own displacement, up to the bells of the others.
  for (size_t i = 0; i < d.size(); ++i) {
    double reach = 0;
    for (size_t k = 0; k < d.size(); ++k) if (k != i && want.count(d[k].getName()) && std::fabs(d[k].getTime() - d[i].getTime()) <= 3.5 * (d[k].getTime() - last) / 3 + 1e-3) reach += 1;
    if (reach > 0) continue;
    c.label("waypoint out of reach of the others");
    float t = (float)(d[i].getTime() - p.off);
    if (t <= 0) continue;
    References r = eval(*p.g, t);
    double v = 3 * p.speed + 60;
    expect_near(c, r.position, d[i].getCurrentPosition(), 0.02 * 1.8 + 1e-3 + v * 4 * ulpf(t), "at-waypoint", PBT_S("reference at the time of waypoint " << i));
  }
  c.nontrivial();
  delete p.g;
  s.end();
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"moves", 3, moves}, {"batch", 1, batch}}); }
