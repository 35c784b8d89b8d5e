// C14: the linear optimiser against an independent long-double reference and metamorphic relations.
#include "opt.hpp"
using namespace opt;

template <int N>
struct Sol {
  mtg::PolynomialOptimization<N> o;
  mtg::Segment::Vector segs;
  double J = 0;
  explicit Sol(int D) : o(D) {}
};
template <int N>
static void solve(pbt::Ctx& c, Sol<N>& s, const Problem& p) {
  c.check(s.o.setupFromVertices(p.v, p.t, p.k), "setup", "setupFromVertices failed");
  c.check(s.o.solveLinear(), "solve", "solveLinear failed");
  s.o.getSegments(&s.segs);
  s.J = s.o.computeCost();
}
static double total_best(const Problem& p) {
  ld s = 0;
  for (int d = 0; d < p.D; ++d) s += best_cost(p, d);
  return (double)s;
}
template <int N>
static void basic(pbt::Ctx& c) {
  Problem p = problem(c, N, 6, 4, 0.2, 10);
  c.desc << p.show();
  // Constraints of too high an order are to be ignored.
  Problem q = p;
  if (c.s.chance(1, 4)) {
    int n = c.s.irange(1, 2);
    for (int i = 0; i < n; ++i) {
      int at = (int)c.s.below(p.K + 1), d = N / 2 + (int)c.s.below(3);
      q.v[at].addConstraint(d, VectorXd::Constant(p.D, 3.5));
      c.desc << " too high: v" << at << " order " << d;
      c.label("constraint of too high an order");
    }
  }
  Sol<N> s(p.D);
  bool reuse = c.s.chance(1, 3);
  if (reuse) {
    Problem other = problem(c, N, 4, 1, 0.2, 10);
    other.D = p.D;
    for (auto& m : other.con) for (auto& x : m) x.second = VectorXd::Constant(p.D, x.second[0]);
    build(other);
    c.desc << " after solving " << other.show();
    c.label("solver used before");
    solve(c, s, other);
  }
  solve(c, s, q);
  feasible(c, p, s.segs, acc(N), "solution");
  std::vector<double> t;
  s.o.getSegmentTimes(&t);
  c.check(t == p.t, "times", "getSegmentTimes differs from the given times");
  for (int i = 0; i < p.K; ++i) c.check(s.segs[i].getTime() == p.t[i], "times", PBT_S("segment " << i << " takes " << s.segs[i].getTime() << " instead of " << p.t[i]));
  mtg::Trajectory tr;
  s.o.getTrajectory(&tr);
  c.check(tr.segments() == s.segs, "trajectory", "getTrajectory and getSegments differ");
  size_t nfix = 0, nall = (size_t)p.K * N;
  for (auto& m : p.con) nfix += m.size();
  c.check((int)s.o.getDimension() == p.D && (int)s.o.getNumberSegments() == p.K && s.o.getDerivativeToOptimize() == p.k, "numbers", "dimension, segments or derivative differ");
  c.check(s.o.getNumberAllConstraints() == nall && s.o.getNumberFixedConstraints() == nfix && s.o.getNumberFreeConstraints() == (size_t)(N / 2) * (p.K + 1) - nfix, "numbers",
          PBT_S("counts of constraints: all " << s.o.getNumberAllConstraints() << " fixed " << s.o.getNumberFixedConstraints() << " free " << s.o.getNumberFreeConstraints()));
  mtg::Vertex::Vector vv;
  s.o.getVertices(&vv);
  bool vsame = vv.size() == p.v.size();
  for (size_t i = 0; vsame && i < vv.size(); ++i) vsame = vv[i].isEqualTol(p.v[i], 0);
  c.check(vsame, "vertices", "getVertices differs from the given vertices without the constraints of too high an order");
  // Reported cost is the integral.
  ld a;
  ld I = integral(s.segs, p.k, &a);
  c.close((double)I, s.J, (double)(1e-12L * a) + 1e-300, "cost", "computeCost against the integral of the squared derivative");
  // No other trajectory is cheaper.
  ld best = total_best(p);
  double cond;
  best_cost(p, 0, &cond);
  double tol = 1e-5 * (double)best + cost_floor(s.segs, p.k, acc(N)) + 1e-300;
  c.metric("margin:optimal", (double)(I - best) / tol);
  if (!(I <= best + tol)) c.fail("optimal", PBT_S("cost " << (double)I << ", but " << (double)best << " is possible (condition " << cond << ")"));
  if (!(I >= best - tol)) c.fail("too-good", PBT_S("cost " << (double)I << " below the optimum " << (double)best << ": a constraint is missing"));
  if (s.o.getNumberFreeConstraints() && p.K >= 2) c.nontrivial();
  c.label(s.o.getNumberFreeConstraints() ? "free derivatives" : "fully constrained");

  // Fixed and free derivatives, and perturbations.
  std::vector<VectorXd> fr, fx;
  s.o.getFreeConstraints(&fr);
  s.o.getFixedConstraints(&fx);
  c.check((int)fr.size() == p.D && (int)fx.size() == p.D, "free", "wrong number of dimensions in getFreeConstraints or getFixedConstraints");
  for (int dim = 0; dim < p.D; ++dim) {
    int f = 0, x = 0;
    for (int i = 0; i <= p.K; ++i) for (int d = 0; d < N / 2; ++d) {
      const mtg::Segment& g = s.segs[std::min(i, p.K - 1)];
      ld T = i == p.K ? g.getTime() : 0;
      ld val = gen::peval(gen::cf(g[dim]), T, d);
      ld tl = acc(N) * gen::ff(N - 1, d) * magnitude(g, dim) / powl(g.getTime(), d) + 1e-300L;
      auto it = p.con[i].find(d);
      if (it != p.con[i].end()) { c.check(fx[dim][x] == it->second[dim], "fixed", PBT_S("fixed derivative " << d << " of vertex " << i << " is reported as " << fx[dim][x])); ++x; }
      else { c.close(fr[dim][f], (double)val, (double)tl, "free", PBT_S("free derivative " << d << " of vertex " << i << " in dimension " << dim)); ++f; }
    }
    c.check(f == fr[dim].size() && x == fx[dim].size(), "free", "number of free or fixed derivatives differs");
  }
  if (s.o.getNumberFreeConstraints()) {
    // Along any direction the cost is a parabola; its lowest point must be here.
    std::vector<VectorXd> e(p.D);
    int one = c.s.chance(1, 2) ? (int)c.s.below(s.o.getNumberFreeConstraints()) : -1;
    int od = (int)c.s.below(p.D);
    for (int dim = 0; dim < p.D; ++dim) {
      e[dim] = VectorXd::Zero(fr[dim].size());
      for (int i = 0; i < e[dim].size(); ++i)
        if (one < 0) e[dim][i] = c.s.real(-1, 1) * (std::fabs(fr[dim][i]) + 1e-3); else if (i == one && dim == od) e[dim][i] = 0.1 * std::fabs(fr[dim][i]) + 1e-2;
    }
    auto at = [&](double h, mtg::Segment::Vector* out) {
      std::vector<VectorXd> x = fr;
      for (int dim = 0; dim < p.D; ++dim) x[dim] += h * e[dim];
      mtg::PolynomialOptimization<N> o2 = s.o;
      o2.setFreeConstraints(x);
      std::vector<VectorXd> back;
      o2.getFreeConstraints(&back);
      c.check(back == x, "set-free", "getFreeConstraints does not return what was set");
      o2.getSegments(out);
      return o2.computeCost();
    };
    mtg::Segment::Vector sp, sm;
    double Jp = at(1, &sp), Jm = at(-1, &sm);
    feasible(c, p, sp, acc(N), "perturbed");
    double b = (Jp - Jm) / 2, aa = (Jp + Jm) / 2 - s.J;
    double t2 = 1e-6 * std::fabs(s.J) + cost_floor(sp, p.k, acc(N)) + cost_floor(sm, p.k, acc(N)) + 1e-300;
    if (!(Jp >= s.J - t2) || !(Jm >= s.J - t2)) c.fail("perturbation", PBT_S("perturbing the free derivatives lowers the cost " << s.J << " to " << std::min(Jp, Jm)));
    if (aa > 4 * t2) { double gain = b * b / (4 * aa); c.metric("margin:gain", gain / t2); if (!(gain <= t2)) c.fail("perturbation", PBT_S("perturbing the free derivatives can lower the cost " << s.J << " by " << gain)); }
  }
}
template <int N>
static void relations(pbt::Ctx& c) {
  Problem p = problem(c, N, 5, 3, 0.2, 8);
  // Positions everywhere: the solution is then unique when at least the velocity is optimised.
  for (auto& m : p.con) if (!m.count(0)) m[0] = VectorXd::Constant(p.D, c.s.real(-5, 5));
  build(p);
  c.desc << p.show();
  Sol<N> s(p.D);
  solve(c, s, p);
  double cond;
  best_cost(p, 0, &cond);
  bool unique = cond > 1e-7;  // otherwise only the costs are compared
  c.label(unique ? "unique solution" : "solution not unique");
  double rel = 1e3 * acc(N);
  auto cost_close = [&](double got, double want, const mtg::Segment::Vector& g, const char* what) {
    double tol = 2e-6 * std::fabs(want) + cost_floor(g, p.k, acc(N)) + cost_floor(s.segs, p.k, acc(N)) * std::fabs(s.J > 0 ? want / s.J : 1) + 1e-300;
    c.close(got, want, tol, "relation-cost", std::string(what) + ": cost");
  };
  if (p.K >= 2) c.nontrivial();
  switch (c.s.below(6)) {
    case 0: {  // translation
      if (p.k == 0) throw pbt::Discard{};
      c.label("translation");
      VectorXd sh(p.D);
      for (int i = 0; i < p.D; ++i) sh[i] = c.s.real(-20, 20);
      Problem q = p;
      for (auto& m : q.con) m[0] += sh;
      build(q);
      Sol<N> r(p.D);
      solve(c, r, q);
      cost_close(r.J, s.J, r.segs, "translated");
      if (!unique) break;
      for (int i = 0; i < p.K; ++i) for (int dim = 0; dim < p.D; ++dim) for (double f : {0.0, 0.3, 0.5, 0.9}) {
        double T = f * p.t[i];
        double got = r.segs[i].evaluate(T, 0)[dim], want = s.segs[i].evaluate(T, 0)[dim] + sh[dim];
        double m = 0;
        for (int j = 0; j < p.K; ++j) m = std::max(m, (double)(magnitude(r.segs[j], dim) + magnitude(s.segs[j], dim)));
        c.close(got, want, rel * (m + 1), "translation", PBT_S("segment " << i << " at " << T));
      }
      break;
    }
    case 1: {  // scaling by a power of two: everything scales, to rounding
      c.label("scaling");
      double f = c.s.pick(std::vector<double>{-1, 2, 0.25, -8});
      Problem q = p;
      for (auto& m : q.con) for (auto& x : m) x.second *= f;
      build(q);
      Sol<N> r(p.D);
      solve(c, r, q);
      c.close(r.J, f * f * s.J, 1e-9 * f * f * s.J + cost_floor(r.segs, p.k, 1e-10) + 1e-300, "scaling", "cost");
      for (int i = 0; i < p.K; ++i) for (int dim = 0; dim < p.D; ++dim) {
        double T = p.t[i] * 0.6;
        c.close(r.segs[i].evaluate(T, 0)[dim], f * s.segs[i].evaluate(T, 0)[dim], 1e-9 * (double)magnitude(r.segs[i], dim) + 1e-300, "scaling", PBT_S("segment " << i));
      }
      break;
    }
    case 2: {  // dimensions are independent of each other and of their order
      c.label("permutation");
      Problem q = p;
      for (auto& m : q.con) for (auto& x : m) x.second = x.second.reverse().eval();
      build(q);
      Sol<N> r(p.D);
      solve(c, r, q);
      for (int i = 0; i < p.K; ++i) for (int dim = 0; dim < p.D; ++dim)
        c.check(gen::cf(r.segs[i][p.D - 1 - dim]) == gen::cf(s.segs[i][dim]), "permutation", PBT_S("segment " << i << " dimension " << dim << " depends on the order of the dimensions"));
      c.close(r.J, s.J, 1e-12 * s.J + cost_floor(s.segs, p.k, 1e-14) + 1e-300, "permutation", "cost");
      break;
    }
    case 3: {  // time reversal
      c.label("reversal");
      Problem q = p;
      std::reverse(q.t.begin(), q.t.end());
      std::reverse(q.con.begin(), q.con.end());
      for (auto& m : q.con) for (auto& x : m) if (x.first % 2) x.second = -x.second;
      build(q);
      Sol<N> r(p.D);
      solve(c, r, q);
      cost_close(r.J, s.J, r.segs, "reversed");
      if (!unique) break;
      for (int i = 0; i < p.K; ++i) for (int dim = 0; dim < p.D; ++dim) for (double f : {0.25, 0.5, 0.75}) {
        double m = 0;
        for (int j = 0; j < p.K; ++j) m = std::max(m, (double)(magnitude(r.segs[j], dim) + magnitude(s.segs[j], dim)));
        double got = r.segs[p.K - 1 - i].evaluate((1 - f) * p.t[i], 0)[dim], want = s.segs[i].evaluate(f * p.t[i], 0)[dim];
        c.close(got, want, rel * (m + 1e-9), "reversal", PBT_S("segment " << i << " at " << f));
      }
      break;
    }
    case 4: {  // time stretching
      c.label("stretching");
      double f = c.s.pick(std::vector<double>{2, 0.5, 1.25, 4});
      Problem q = p;
      for (double& t : q.t) t *= f;
      for (auto& m : q.con) for (auto& x : m) x.second /= std::pow(f, x.first);
      build(q);
      Sol<N> r(p.D);
      solve(c, r, q);
      cost_close(r.J, s.J * std::pow(f, 1 - 2 * p.k), r.segs, "stretched");
      if (!unique) break;
      for (int i = 0; i < p.K; ++i) for (int dim = 0; dim < p.D; ++dim) for (double g : {0.25, 0.5, 0.75}) {
        double m = 0;
        for (int j = 0; j < p.K; ++j) m = std::max(m, (double)(magnitude(r.segs[j], dim) + magnitude(s.segs[j], dim)));
        c.close(r.segs[i].evaluate(g * q.t[i], 0)[dim], s.segs[i].evaluate(g * p.t[i], 0)[dim], rel * (m + 1e-9), "stretching", PBT_S("segment " << i << " at " << g));
      }
      break;
    }
    default: {  // new times on the same solver
      c.label("new times");
      std::vector<double> t2;
      for (int i = 0; i < p.K; ++i) t2.push_back(c.s.logreal(0.2, 8));
      s.o.updateSegmentTimes(t2);
      c.check(s.o.solveLinear(), "solve", "solveLinear failed");
      Problem q = p;
      q.t = t2;
      Sol<N> r(p.D);
      solve(c, r, q);
      mtg::Segment::Vector g;
      s.o.getSegments(&g);
      c.check(g == r.segs, "new-times", "after updateSegmentTimes and solveLinear the solution differs from that of a new solver");
      c.check(s.o.computeCost() == r.J, "new-times", "the costs differ");
      break;
    }
  }
}
template <int N>
static void matrices(pbt::Ctx& c) {
  typedef typename mtg::PolynomialOptimization<N>::SquareMatrix Sq;
  double T = c.s.logreal(0.2, 10);
  Sq A, Ai, Q;
  A.setConstant(7), Ai.setConstant(7), Q.setConstant(7);
  c.desc << "N=" << N << " T=" << T;
  mtg::PolynomialOptimization<N>::setupMappingMatrix(T, &A);
  for (int d = 0; d < N / 2; ++d) for (int j = 0; j < N; ++j) {
    ld lo = j == d ? gen::ff(j, d) : 0, hi = j >= d ? gen::ff(j, d) * powl(T, j - d) : 0;
    c.close(A(d, j), (double)lo, 1e-13 * (double)fabsl(lo), "mapping", PBT_S("start row " << d << " column " << j));
    c.close(A(d + N / 2, j), (double)hi, 1e-13 * (double)fabsl(hi), "mapping", PBT_S("end row " << d << " column " << j));
  }
  mtg::PolynomialOptimization<N>::invertMappingMatrix(A, &Ai);
  // In units of the segment time both matrices are well scaled: compare the products there.
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    ld s = 0, s2 = 0, ab = 0, ab2 = 0;
    for (int m = 0; m < N; ++m) { ld x = (ld)A(i, m) * Ai(m, j), y = (ld)Ai(i, m) * A(m, j); s += x; s2 += y; ab += fabsl(x); ab2 += fabsl(y); }
    c.close((double)s, i == j, acc(N) * (double)ab + 1e-300, "inverse", PBT_S("A * inverse at " << i << "," << j));
    c.close((double)s2, i == j, acc(N) * (double)ab2 + 1e-300, "inverse", PBT_S("inverse * A at " << i << "," << j));
  }
  int k = (int)c.s.below(N);
  mtg::PolynomialOptimization<N>::computeQuadraticCostJacobian(k, T, &Q);
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    ld w = i >= k && j >= k ? 2 * gen::ff(i, k) * gen::ff(j, k) * powl(T, i + j - 2 * k + 1) / (i + j - 2 * k + 1) : 0;
    c.close(Q(i, j), (double)w, 1e-13 * (double)fabsl(w), "cost-matrix", PBT_S("derivative " << k << " entry " << i << "," << j));
  }
  // Assembled matrices of a problem.
  Problem p = problem(c, N, 4, 2, 0.2, 10);
  c.desc << " " << p.show();
  Sol<N> s(p.D);
  solve(c, s, p);
  MatrixXd M, Mp, R, AA, AAi;
  s.o.getM(&M);
  s.o.getMpinv(&Mp);
  s.o.getR(&R);
  s.o.getA(&AA);
  s.o.getAInverse(&AAi);
  int n = N / 2 * (p.K + 1), rows = N * p.K;
  c.check(M.rows() == rows && M.cols() == n && Mp.rows() == n && Mp.cols() == rows && R.rows() == n && R.cols() == n && AA.rows() == rows && AA.cols() == rows && AAi.rows() == rows && AAi.cols() == rows,
          "sizes", "a matrix has the wrong size");
  c.check((Mp * M - MatrixXd::Identity(n, n)).cwiseAbs().maxCoeff() <= 1e-14, "pseudo-inverse", "Mpinv * M is not the identity");
  c.check(((M * Mp) - (M * Mp).transpose()).cwiseAbs().maxCoeff() <= 1e-14, "pseudo-inverse", "M * Mpinv is not symmetric");
  for (int i = 0; i < p.K; ++i) {
    Sq B, Bi;
    mtg::PolynomialOptimization<N>::setupMappingMatrix(p.t[i], &B);
    mtg::PolynomialOptimization<N>::invertMappingMatrix(B, &Bi);
    for (int a = 0; a < rows; ++a) for (int b = 0; b < N; ++b) {
      bool in = a / N == i;
      c.check(AA(a, i * N + b) == (in ? B(a % N, b) : 0), "blocks", PBT_S("A at " << a << "," << i * N + b));
      c.check(AAi(a, i * N + b) == (in ? Bi(a % N, b) : 0), "blocks", PBT_S("inverse of A at " << a << "," << i * N + b));
    }
  }
  // M maps the fixed and free derivatives to the endpoint derivatives of the segments.
  std::vector<VectorXd> fr, fx;
  s.o.getFreeConstraints(&fr);
  s.o.getFixedConstraints(&fx);
  for (int dim = 0; dim < p.D; ++dim) {
    VectorXd d(n);
    if (s.o.getNumberFreeConstraints()) d << fx[dim], fr[dim]; else d = fx[dim];
    VectorXd e = M * d;
    for (int i = 0; i < p.K; ++i) for (int side = 0; side < 2; ++side) for (int k2 = 0; k2 < N / 2; ++k2) {
      const mtg::Segment& g = s.segs[i];
      ld want = gen::peval(gen::cf(g[dim]), side ? g.getTime() : 0, k2);
      c.close(e[i * N + side * (N / 2) + k2], (double)want, (double)(acc(N) * gen::ff(N - 1, k2) * magnitude(g, dim) / powl(g.getTime(), k2)) + 1e-300, "reordering", PBT_S("segment " << i << " side " << side << " derivative " << k2));
    }
  }
  // R is the quadratic form of the cost, in the ordering of M (twice the cost).
  MatL H = MatL::Zero(rows, rows);
  const MatL& U = unit_cost(N, p.k);
  for (int i = 0; i < p.K; ++i) {
    VecL sc(N);
    for (int d = 0; d < N / 2; ++d) sc[d] = sc[d + N / 2] = powl(p.t[i], d);
    H.block(i * N, i * N, N, N) = 2 * (sc.asDiagonal() * U * sc.asDiagonal() * powl(p.t[i], 1 - 2 * p.k));
  }
  MatL W = M.cast<ld>().transpose() * H * M.cast<ld>();
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double tol = 1e3 * acc(N) * (double)sqrtl(W(i, i) * W(j, j)) + 1e-300;
    c.close(R(i, j), (double)W(i, j), tol, "R", PBT_S("entry " << i << "," << j));
  }
  if (p.K >= 2) c.nontrivial();
}
template <int N>
static void maxima(pbt::Ctx& c) {
  Problem p = problem(c, N, 4, 3, 0.3, 5);
  c.desc << p.show();
  Sol<N> s(p.D);
  solve(c, s, p);
  int d = 1 + (int)c.s.below(std::min(4, N - 2));
  c.desc << " maximum of derivative " << d;
  std::vector<mtg::Extremum> cand;
  mtg::Extremum m = s.o.computeMaximumOfMagnitude(d, c.s.chance(1, 4) ? nullptr : &cand);
  c.check(m.segment_idx >= 0 && m.segment_idx < p.K, "segment", PBT_S("maximum reported in segment " << m.segment_idx));
  const mtg::Segment& g = s.segs[m.segment_idx];
  c.check(m.time >= 0 && m.time <= g.getTime(), "time", PBT_S("maximum reported at " << m.time << " of " << g.getTime()));
  double top = 0;
  std::vector<double> scale(p.K, 0);
  for (int i = 0; i < p.K; ++i) {
    ld a = 0;
    for (int dim = 0; dim < p.D; ++dim) a += magnitude(s.segs[i], dim) * gen::ff(N - 1, d) / powl(s.segs[i].getTime(), d);
    scale[i] = (double)a;
  }
  c.close(g.evaluate(m.time, d).norm(), m.value, 1e-13 * scale[m.segment_idx] + 1e-300, "attained", "value at the reported time");
  double slack = 0;
  for (int i = 0; i < p.K; ++i) {
    for (int j = 0; j <= 200; ++j) top = std::max(top, s.segs[i].evaluate(s.segs[i].getTime() * j / 200.0, d).norm());
    slack = std::max(slack, scale[i]);
  }
  c.metric("margin:maximum", (top - m.value) / (1e-9 * slack + 1e-300));
  if (!(top <= m.value + 1e-9 * slack)) c.fail("maximum", PBT_S("derivative " << d << " reaches " << top << ", reported maximum " << m.value));
  for (auto& e : cand) {
    c.check(e.segment_idx >= 0 && e.segment_idx < p.K && e.value <= m.value, "candidates", "a candidate exceeds the maximum or lies outside");
    c.close(s.segs[e.segment_idx].evaluate(e.time, d).norm(), e.value, 1e-13 * scale[e.segment_idx] + 1e-300, "candidates", "value of a candidate");
  }
  if (p.K >= 2 && m.segment_idx > 0) c.nontrivial();
}
template <template <int> class F>
static void dispatch(pbt::Ctx& c) {
  switch (c.s.below(5)) {
    case 0: F<10>::f(c); break;
    case 1: F<8>::f(c); break;
    case 2: F<6>::f(c); break;
    case 3: F<12>::f(c); break;
    default: F<4>::f(c);
  }
}
template <int N> struct Basic { static void f(pbt::Ctx& c) { basic<N>(c); } };
template <int N> struct Relations { static void f(pbt::Ctx& c) { relations<N>(c); } };
template <int N> struct Matrices { static void f(pbt::Ctx& c) { matrices<N>(c); } };
template <int N> struct Maxima { static void f(pbt::Ctx& c) { maxima<N>(c); } };
int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"solve", 4, dispatch<Basic>}, {"relations", 3, dispatch<Relations>}, {"matrices", 1, dispatch<Matrices>}, {"maxima", 2, dispatch<Maxima>}});
}
