// C22: waypoint objects.
#include <dynamic_waypoint.hpp>

#include "gen.hpp"
using namespace gen;
using dynamic_traj_generator::DynamicWaypoint;
using Eigen::Vector3d;
typedef std::map<int, VectorXd> Cons;

struct Move { Vector3d diff; double sigma; };
struct Model {
  Vector3d orig, cur;
  double t = 0, last_sigma = 1.5;
  std::string name;
  int index = -1;
  Cons cons;
  std::vector<Move> moves;
};
static Vector3d pos(pbt::Ctx& c) {
  return Vector3d(c.s.real(-50, 50), c.s.real(-50, 50), c.s.real(-50, 50));
}
static void agree(pbt::Ctx& c, const DynamicWaypoint& w, const Model& m, const char* tag) {
  c.check(w.getCurrentPosition() == m.cur, tag, PBT_S("current position " << vs(w.getCurrentPosition()) << ", expected " << vs(m.cur)));
  c.check(w.getOriginalPosition() == m.orig, tag, PBT_S("original position " << vs(w.getOriginalPosition()) << ", expected " << vs(m.orig)));
  c.check(w.getTime() == m.t, tag, PBT_S("time " << w.getTime() << ", expected " << m.t));
  c.check(w.getName() == m.name && w.getIndex() == m.index, tag, "name or index");
  c.check(w.hasModifiers() == !m.moves.empty(), tag, PBT_S("pending moves reported as " << w.hasModifiers()));
  mtg::Vertex v = w.getVertex();
  c.check(v.getNumberOfConstraints() == m.cons.size(), tag, PBT_S(v.getNumberOfConstraints() << " constraints, expected " << m.cons.size()));
  for (auto& kv : m.cons) {
    VectorXd q;
    c.check(v.getConstraint(kv.first, &q) && q == kv.second, tag, PBT_S("constraint " << kv.first << " is " << vs(q) << ", expected " << vs(kv.second)));
  }
}
static void displacement(pbt::Ctx& c, DynamicWaypoint& w, const Model& m, double t, const char* tag) {
  for (int d = 0; d < 3; ++d) {
    Vector3d got = w.trajectoryCompensation(t, d);
    c.check(got.allFinite(), "finite", PBT_S("displacement of order " << d << " at " << t << " is " << vs(got)));
    for (int i = 0; i < 3; ++i) {
      // A move certainly counts, certainly does not count, or (at the edge of its window and near two centimetres) may.
      ld lo = 0, hi = 0, tol = 1e-300L;
      for (auto& mv : m.moves) {
        ld x = (ld)t - (ld)m.t, s = mv.sigma;
        if (!(s > 0)) continue;
        ld g = mv.diff[i] * expl(-x * x / (2 * s * s));
        if (d == 1) g *= -x / (s * s);
        if (d == 2) g *= x * x / (s * s * s * s) - 1 / (s * s);
        ld a = fabsl(x) / s, df = std::fabs(mv.diff[i]);
        if (a > 4 || df < 0.0199) continue;
        ld mag = fabsl(g) + df * expl(-x * x / (2 * s * s)) * (d == 2 ? 1 / (s * s) : 0);
        tol += 1e-13L * mag * (1 + x * x / (s * s)) + 1e-15L * df * (1 + std::fabs(m.t) + std::fabs(t)) / powl(s, d + 1);
        if (a < 3 && df > 0.0201) { lo += g; hi += g; }
        else { lo += std::min<ld>(g, 0); hi += std::max<ld>(g, 0); }
      }
      c.check(got[i] >= lo - tol && got[i] <= hi + tol, tag, PBT_S("displacement of order " << d << ", axis " << i << " at " << t << " is " << got[i] << ", expected " << (double)lo << ".." << (double)hi));
    }
  }
}
static double query(pbt::Ctx& c, const Model& m) {
  if (m.moves.empty() || c.s.chance(1, 4)) return c.s.real(-20, 120);
  double s = m.moves[c.s.below(m.moves.size())].sigma;
  switch (c.s.below(3)) {
    case 0: return m.t;
    case 1: return m.t + s * (c.s.chance(1, 2) ? 1 : -1) * (c.s.chance(1, 2) ? 2.9 * c.s.unit() : 4.1 + c.s.unit());
    default: return m.t + s * 8 * (c.s.unit() - 0.5);
  }
}
static void history(pbt::Ctx& c) {
  std::vector<DynamicWaypoint> w;
  std::vector<Model> m;
  auto fresh = [&] {
    Model x;
    mtg::Vertex v(3);
    x.orig = x.cur = pos(c);
    v.addConstraint(0, x.cur);
    x.cons[0] = x.cur;
    if (c.s.chance(1, 4)) { VectorXd q = pos(c); v.addConstraint(1, q); x.cons[1] = q; }
    static const char* names[] = {"", "a", "gate 1"};
    x.name = names[c.s.below(3)];
    c.desc << " new(" << vs(x.cur) << ")";
    if (c.s.chance(1, 4)) { x.index = (int)c.s.below(9); w.emplace_back(v, x.index, x.name); }
    else w.emplace_back(v, x.name);
    m.push_back(x);
  };
  fresh();
  int n = c.s.sized(1, 16, 80);
  bool copied = false, moved = false;
  for (int i = 0; i < n; ++i) {
    size_t k = c.s.below(w.size());
    DynamicWaypoint& a = w[k];
    Model& x = m[k];
    c.desc << "\n#" << k;
    switch (c.s.below(11)) {
      case 0: case 1: case 2: {
        Vector3d p = pos(c);
        if (c.s.chance(1, 4)) p = x.cur + Vector3d(0.03 * (c.s.unit() - 0.5), c.s.chance(1, 2) ? 0 : 0.05, 0.01 * c.s.unit());
        double now = 0;
        switch (c.s.below(5)) {
          case 0: now = 0; break;
          case 1: now = x.t; break;
          case 2: now = x.t + c.s.logreal(1e-3, 10); break;
          default: now = x.t - c.s.logreal(1e-3, 30); break;
        }
        c.desc << " move(" << vs(p) << "," << now << ")";
        if (now == 0 && c.s.chance(1, 2)) a.setCurrentPosition(p); else a.setCurrentPosition(p, now);
        double s;
        if (now > 0) s = (x.t - now) / 3; else s = x.last_sigma *= 0.75;
        x.moves.push_back({p - x.cur, s});
        x.cur = p;
        x.cons[0] = p;
        moved = true;
        break;
      }
      case 3: { Vector3d p = pos(c); c.desc << " reset(" << vs(p) << ")"; a.resetWaypoint(p); x.cur = x.orig = p; x.cons[0] = p; x.moves.clear(); break; }
      case 4: c.desc << " reset"; a.resetWaypointWithCurrentPosition(); x.orig = x.cur; x.cons[0] = x.cur; x.moves.clear(); break;
      case 5: case 6: { double t = c.s.chance(1, 6) ? 0 : c.s.real(0, 100); c.desc << " time(" << t << ")"; a.setTime(t); x.t = t; break; }
      case 7: {
        int o = (int)c.s.below(4);
        Vector3d p = pos(c);
        c.desc << " constraint(" << o << "," << vs(p) << ")";
        a.setConstraint(o, p);
        x.cons[o] = p;
        if (o == 0) { x.cur = x.orig = p; x.moves.clear(); }
        break;
      }
      case 8: { DynamicWaypoint copy(a); Model mc = x; w.push_back(copy); m.push_back(mc); copied = true; c.desc << " copy"; break; }
      case 9: {
        if (w.size() < 2) { fresh(); break; }
        size_t j = c.s.below(w.size());
        c.desc << " = #" << j;
        Model mj = m[j];
        w[k] = w[j];
        m[k] = mj;
        copied = true;
        break;
      }
      default:
        switch (c.s.below(3)) {
          case 0: x.name = "renamed"; a.setName(x.name); c.desc << " rename"; break;
          case 1: x.index = (int)c.s.below(20); a.setIndex(x.index); c.desc << " index"; break;
          default: { int d = (int)c.s.below(7) - 3; x.index += d; a.displaceIndex(d); c.desc << " displace"; }
        }
    }
    for (size_t j = 0; j < w.size(); ++j) agree(c, w[j], m[j], copied ? "state-after-copy" : "state");
    size_t j = c.s.below(w.size());
    double t = query(c, m[j]);
    c.desc << " ?#" << j << "@" << t;
    displacement(c, w[j], m[j], t, copied ? "displacement-after-copy" : "displacement");
  }
  c.label(PBT_S((moved ? "moved " : "") << (copied ? "copied" : "")));
  c.nontrivial(moved && n >= 3);
}
static void bell(pbt::Ctx& c) {
  GaussianModifier g;
  double mu = c.s.real(-5, 100), s = c.s.chance(1, 8) ? 0.0 : c.s.chance(1, 8) ? -c.s.logreal(1e-3, 10) : c.s.logreal(1e-6, 50), inc = c.s.real(-30, 30);
  g.setModifierTime(mu);
  g.setSigma(s);
  g.setDifference(inc);
  c.check(g.getSigma() == s, "sigma", "width");
  c.desc << "mu=" << mu << " sigma=" << s << " increment=" << inc << " t:";
  c.nontrivial(s > 0 && std::fabs(inc) > 0.021);
  for (int i = 0; i < 8; ++i) {
    double t = c.s.chance(1, 3) ? mu : c.s.chance(1, 2) ? c.s.real(-100, 200) : mu + std::fabs(s) * 8 * (c.s.unit() - 0.5);
    c.desc << " " << t;
    for (int d = 0; d < 3; ++d) c.check(std::isfinite(g(t, d)), "finite", PBT_S("order " << d << " at " << t << " is " << g(t, d)));
    if (s <= 0 || std::fabs(inc) < 0.021) continue;
    double x = t - mu;
    if (std::fabs(x) > 4 * s) { for (int d = 0; d < 3; ++d) c.check(g(t, d) == 0, "window", "displacement outside the window"); continue; }
    if (std::fabs(x) > 2.99 * s) continue;
    // Derivatives against differences of the curve itself.
    double h = 1e-3 * s, rnd = 1e-15 * (std::fabs(t) + std::fabs(mu)) / s;
    c.close(g(t, 1) * s, (g(t + h, 0) - g(t - h, 0)) / (2e-3), std::fabs(inc) * (1e-5 + 4e3 * rnd), "first-derivative", PBT_S("first derivative at " << t));
    c.close(g(t, 2) * s * s, (g(t + h, 1) - g(t - h, 1)) * s / (2e-3), std::fabs(inc) * (1e-5 + 4e3 * rnd), "second-derivative", PBT_S("second derivative at " << t));
  }
  c.check(std::fabs(inc) < 0.021 || s <= 0 || std::fabs(g(mu, 0) - inc) < 1e-12 * std::fabs(inc), "centre", "displacement at the centre");
}
int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"history", 4, history}, {"bell", 2, bell}});
}
