// C21: waypoint constraint sets, generators, derivative names.
#include <mav_trajectory_generation/motion_defines.h>

#include "gen.hpp"
using namespace gen;
using mtg::Vertex;
typedef std::map<int, VectorXd> Model;

static void agree(pbt::Ctx& c, const Vertex& v, const Model& m, int D, const char* tag) {
  c.check(v.D() == D, tag, "dimension");
  c.check(v.getNumberOfConstraints() == m.size(), tag, PBT_S(v.getNumberOfConstraints() << " constraints, expected " << m.size()));
  auto it = m.begin();
  size_t n = 0;
  for (auto k = v.cBegin(); k != v.cEnd(); ++k, ++it, ++n) {
    c.check(n < m.size() && k->first == it->first && k->second == it->second, tag, PBT_S("constraint " << k->first << " iterated wrongly"));
  }
  c.check(n == m.size(), tag, "iteration is incomplete");
  for (int d = 0; d <= 7; ++d) {
    VectorXd q = VectorXd::Constant(2, -77);
    bool has = m.count(d);
    c.check(v.hasConstraint(d) == has, tag, PBT_S("hasConstraint(" << d << ")"));
    c.check(v.getConstraint(d, &q) == has, tag, PBT_S("getConstraint(" << d << ") result"));
    if (has) c.check(q == m.at(d), tag, PBT_S("constraint " << d << " is " << vs(q) << ", expected " << vs(m.at(d))));
    else c.check(q.size() == 2 && q[0] == -77 && q[1] == -77, tag, "getConstraint wrote a value that does not exist");
  }
}

static void history(pbt::Ctx& c) {
  int D = c.s.sized(1, 6, 20), n = c.s.sized(1, 12, 60);
  Vertex v(D);
  Model m;
  c.desc << "D=" << D;
  bool removed = false, over = false;
  for (int i = 0; i < n; ++i) {
    int d = (int)c.s.below(6);
    switch (c.s.below(6)) {
      case 0: case 1: { VectorXd x = coefs(c, D); over |= m.count(d); v.addConstraint(d, x); m[d] = x; c.desc << " add(" << d << "," << vs(x) << ")"; break; }
      case 2: { double x = coef(c); over |= m.count(d); v.addConstraint(d, x); m[d] = VectorXd::Constant(D, x); c.desc << " add1(" << d << "," << x << ")"; break; }
      case 3: { bool has = m.count(d); c.desc << " remove(" << d << ")"; c.check(v.removeConstraint(d) == has, "remove-result", PBT_S("removing " << d)); m.erase(d); removed |= has; break; }
      case 4: { VectorXd x = coefs(c, D); c.desc << " startOrEnd(" << vs(x) << "," << d << ")"; v.makeStartOrEnd(x, d); m[0] = x; for (int k = 1; k <= d; ++k) m[k] = VectorXd::Zero(D); break; }
      default: { double x = coef(c); c.desc << " startOrEnd1(" << x << "," << d << ")"; v.makeStartOrEnd(x, d); m[0] = VectorXd::Constant(D, x); for (int k = 1; k <= d; ++k) m[k] = VectorXd::Zero(D); break; }
    }
    agree(c, v, m, D, "model");
  }
  c.nontrivial(n >= 3 && (removed || over));
  // Copies are equal and independent.
  Vertex w = v;
  c.check(w.isEqualTol(v, 1e-12) && v.isEqualTol(w, 1e-12), "copy-equal", "copy differs");
  double tol = c.s.logreal(1e-6, 1e-1), k = c.s.chance(1, 2) ? 0.5 : 2.0;
  if (!m.empty()) {
    auto it = m.begin();
    std::advance(it, c.s.below(m.size()));
    VectorXd x = it->second;
    int j = (int)c.s.below(D);
    double delta = tol * k * (c.s.chance(1, 2) ? 1 : -1);
    x[j] += delta;
    if (std::fabs(std::fabs(x[j] - it->second[j]) - tol) > 0.1 * tol) {  // not swallowed by rounding
      w.addConstraint(it->first, x);
      bool eq = std::fabs(x[j] - it->second[j]) <= tol;
      c.check(v.isEqualTol(w, tol) == eq && w.isEqualTol(v, tol) == eq, "tolerance", PBT_S("difference " << delta << " with tolerance " << tol << " judged wrongly"));
      c.label(eq ? "equal in tolerance" : "different in tolerance");
    }
    w.removeConstraint(it->first);
    c.check(!v.isEqualTol(w, 1e9) && !w.isEqualTol(v, 1e9), "sets", "vertices with different constraint sets compare equal");
    w.addConstraint(9, it->second);
    c.check(!v.isEqualTol(w, 1e9) && !w.isEqualTol(v, 1e9), "sets-swap", "vertices with different constraint sets compare equal");
  }
  agree(c, v, m, D, "copy-independent");
  // Sub-dimensions.
  std::vector<size_t> dims;
  int nd = c.s.irange(1, 6);
  bool bad = false;
  for (int i = 0; i < nd; ++i) { dims.push_back(c.s.below(c.s.chance(1, 12) ? 8 : D)); bad |= dims.back() >= (size_t)D; }
  int mo = (int)c.s.below(6);
  Vertex s(1);
  bool ok = v.getSubdimension(dims, mo, &s);
  c.check(ok == !bad, "sub-result", "getSubdimension result");
  if (ok) {
    Model sm;
    for (auto& kv : m) if (kv.first <= mo) { VectorXd x(nd); for (int i = 0; i < nd; ++i) x[i] = kv.second[dims[i]]; sm[kv.first] = x; }
    agree(c, s, sm, nd, "sub");
  }
  agree(c, v, m, D, "sub-pure");
}

static void rest(pbt::Ctx& c, const Vertex& v, int order, const char* tag) {
  c.check((int)v.getNumberOfConstraints() == order + 1, tag, PBT_S("end vertex has " << v.getNumberOfConstraints() << " constraints, expected " << order + 1));
  for (int d = 1; d <= order; ++d) { VectorXd q; c.check(v.getConstraint(d, &q) && q.isZero(0) && q.size() == v.D(), tag, PBT_S("derivative " << d << " of an end vertex is not zero")); }
}

static void generators(pbt::Ctx& c) {
  int order = c.s.irange(1, 4);
  if (c.s.chance(1, 3)) {
    Eigen::Vector3d ctr(coef(c), coef(c), coef(c));
    double side = c.s.logreal(0.1, 100);
    int rounds = c.s.irange(1, 4);
    c.desc << "square " << vs(ctr) << " side " << side << " rounds " << rounds << " order " << order;
    c.nontrivial(rounds >= 2);
    auto v = mtg::createSquareVertices(order, ctr, side, rounds);
    c.check((int)v.size() == 4 * rounds + 1, "square-count", PBT_S(v.size() << " vertices for " << rounds << " rounds"));
    double tol = 1e-9 * (side + ctr.norm());
    for (size_t i = 0; i < v.size(); ++i) {
      VectorXd p, q;
      c.check(v[i].D() == 3 && v[i].getConstraint(0, &p), "square-pos", "position missing");
      c.close(p[2], ctr[2], tol, "square-plane", "square is not level");
      c.close(std::fabs(p[0] - ctr[0]), side / 2, tol, "square-x", "distance of a corner from the centre");
      c.close(std::fabs(p[1] - ctr[1]), side / 2, tol, "square-y", "distance of a corner from the centre");
      if (i) { v[i - 1].getConstraint(0, &q); c.close((p - q).norm(), side, tol, "square-side", "side length"); }
      if (i >= 4) { v[i - 4].getConstraint(0, &q); c.close((p - q).norm(), 0, tol, "square-closed", "square is not closed"); }
      if (i >= 2) { v[i - 2].getConstraint(0, &q); c.close((p - q).norm(), side * std::sqrt(2.0), tol, "square-diagonal", "diagonal"); }
      if (i && i + 1 < v.size()) c.check(v[i].getNumberOfConstraints() == 1, "square-free", "inner corner has more than a position");
    }
    rest(c, v.front(), order, "square-start");
    rest(c, v.back(), order, "square-end");
    return;
  }
  bool one = c.s.chance(1, 4);
  int D = one ? 1 : c.s.irange(1, 4), n = c.s.sized(1, 12, 80);
  VectorXd lo(D), hi(D);
  for (int i = 0; i < D; ++i) { lo[i] = c.s.real(-20, 20); hi[i] = lo[i] + c.s.logreal(0.5, 30); }
  size_t seed = c.s.below(1000);
  c.desc << (one ? "random1D " : "random ") << n << " in " << vs(lo) << ".." << vs(hi) << " seed " << seed << " order " << order;
  c.nontrivial(n >= 2);
  auto make = [&](size_t sd) { return one ? mtg::createRandomVertices1D(order, n, lo[0], hi[0], sd) : mtg::createRandomVertices(order, n, lo, hi, sd); };
  auto v = make(seed), w = make(seed), u = make(seed + 1);
  c.check((int)v.size() == n + 1, "random-count", PBT_S(v.size() << " vertices for " << n << " segments"));
  bool same = true;
  for (size_t i = 0; i < v.size(); ++i) {
    VectorXd p, q;
    c.check(v[i].D() == D && v[i].getConstraint(0, &p) && p.size() == D, "random-pos", "position missing");
    for (int k = 0; k < D; ++k) c.check(p[k] >= lo[k] && p[k] <= hi[k], "random-bounds", PBT_S("component " << p[k] << " outside [" << lo[k] << "," << hi[k] << "]"));
    if (i) { v[i - 1].getConstraint(0, &q); c.check((p - q).norm() > 0.2 * (1 - 1e-12), "random-distance", PBT_S("neighbours only " << (p - q).norm() << " apart")); }
    c.check(v[i].isEqualTol(w[i], 0) || v[i].isEqualTol(w[i], 1e-300), "random-seed", "same seed gives another list");
    u[i].getConstraint(0, &q);
    same &= (p - q).norm() == 0;
    if (i && i + 1 < v.size()) c.check(v[i].getNumberOfConstraints() == 1, "random-free", "inner vertex has more than a position");
  }
  c.check(!same, "random-seed-used", "another seed gives the same list");
  rest(c, v.front(), order, "random-start");
  rest(c, v.back(), order, "random-end");
}

static void names(pbt::Ctx& c) {
  c.nontrivial();
  using namespace mtg::derivative_order;
  int d = c.s.irange(-3, 9);
  c.desc << "derivative " << d;
  static const std::vector<std::string> pn{"position", "velocity", "acceleration", "jerk", "snap"}, on{"orientation", "angular_velocity", "angular_acceleration"};
  std::string p = mtg::positionDerivativeToString(d), o = mtg::orintationDerivativeToString(d);
  c.check(p == (d >= 0 && d < 5 ? pn[d] : "invalid"), "position-name", PBT_S("name of " << d << " is " << p));
  c.check(o == (d >= 0 && d < 3 ? on[d] : "invalid"), "orientation-name", PBT_S("name of " << d << " is " << o));
  c.check(mtg::positionDerivativeToInt(p) == (d >= 0 && d < 5 ? d : INVALID), "position-number", "number of a position derivative");
  c.check(mtg::orientationDerivativeToInt(o) == (d >= 0 && d < 3 ? d : INVALID), "orientation-number", "number of an orientation derivative");
  std::string s = c.s.pick(pn);
  int i = (int)c.s.below(s.size());
  s[i] = (char)('a' + c.s.below(26));
  int e = INVALID;
  for (int k = 0; k < 5; ++k) if (pn[k] == s) e = k;
  c.check(mtg::positionDerivativeToInt(s) == e, "position-parse", PBT_S("number of " << s));
  s = c.s.pick(on) + (c.s.chance(1, 2) ? "x" : "");
  e = INVALID;
  for (int k = 0; k < 3; ++k) if (on[k] == s) e = k;
  c.check(mtg::orientationDerivativeToInt(s) == e, "orientation-parse", PBT_S("number of " << s));
  int N = c.s.irange(2, 12);
  c.check(mtg::getHighestDerivativeFromN(N) == N / 2 - 1, "highest", "highest derivative");
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"history", 6, history}, {"generators", 3, generators}, {"names", 1, names}}); }
