// Shared parts of the optimiser harnesses: random problems and an independent long-double reference.
#pragma once
#include <mav_trajectory_generation/polynomial_optimization_linear.h>

#include "gen.hpp"

namespace opt {
namespace mtg = mav_trajectory_generation;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using gen::ld;
typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> MatL;
typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> VecL;

struct Problem {
  int N = 10, D = 1, K = 1, k = 2;        // coefficients, dimensions, segments, derivative to optimise
  mtg::Vertex::Vector v;                  // without constraints of too high an order
  std::vector<double> t;
  std::vector<std::map<int, VectorXd>> con;
  std::string show() const {
    std::string s = PBT_S("N=" << N << " D=" << D << " derivative " << k << " times");
    for (double x : t) s += PBT_S(" " << x);
    for (size_t i = 0; i < con.size(); ++i) {
      s += PBT_S(" | v" << i);
      for (auto& q : con[i]) s += PBT_S(" " << q.first << ":" << gen::vs(q.second));
    }
    return s;
  }
};
inline void build(Problem& p) {
  p.v.clear();
  for (auto& m : p.con) {
    mtg::Vertex x(p.D);
    for (auto& q : m) x.addConstraint(q.first, q.second);
    p.v.push_back(x);
  }
}
// Kinds: rest to rest with free inner derivatives; random subsets; everything fixed.
inline Problem problem(pbt::Ctx& c, int N, int kmax_seg, int dmax, double tmin, double tmax) {
  Problem p;
  p.N = N;
  p.K = c.s.sized(1, kmax_seg, kmax_seg >= 6 ? 16 : kmax_seg);
  p.D = c.s.irange(1, dmax);
  p.k = (int)c.s.below(N / 2);
  int kind = (int)c.s.below(4);
  double size = c.s.pick(std::vector<double>{1, 10, 100});
  bool even = c.s.chance(1, 3);
  double t0 = c.s.logreal(tmin, tmax);
  for (int i = 0; i < p.K; ++i) p.t.push_back(even ? t0 : c.s.logreal(tmin, tmax));
  p.con.resize(p.K + 1);
  auto val = [&](int d) {
    VectorXd x(p.D);
    for (int i = 0; i < p.D; ++i) x[i] = c.s.real(-1, 1) * size;
    (void)d;
    return x;
  };
  for (int i = 0; i <= p.K; ++i) {
    bool end = i == 0 || i == p.K;
    for (int d = 0; d < N / 2; ++d) {
      bool fix;
      switch (kind) {
        case 0: fix = d == 0 || (end && d <= std::max(2, p.k)); break;       // the usual problem
        case 1: fix = d == 0 ? c.s.chance(9, 10) : c.s.chance(1, 4); break;  // any subset
        case 2: fix = d == 0 || (end && c.s.chance(1, 2)); break;
        default: fix = c.s.chance(1, 8) ? false : true;                      // nearly everything
      }
      if (fix) p.con[i][d] = kind == 0 && d > 0 ? VectorXd(VectorXd::Zero(p.D)) : VectorXd(val(d) / std::pow(p.t[std::min(i, p.K - 1)], d));
    }
  }
  build(p);
  return p;
}
// Cost matrix of one segment in terms of its endpoint derivatives (0..N/2-1 at the start, then at the end), duration T.
inline const MatL& unit_cost(int N, int k) {
  static std::map<std::pair<int, int>, MatL> cache;
  auto it = cache.find({N, k});
  if (it != cache.end()) return it->second;
  MatL A = MatL::Zero(N, N), Q = MatL::Zero(N, N);
  for (int d = 0; d < N / 2; ++d) {
    A(d, d) = gen::ff(d, d);
    for (int j = d; j < N; ++j) A(d + N / 2, j) = gen::ff(j, d);
  }
  for (int i = k; i < N; ++i) for (int j = k; j < N; ++j) Q(i, j) = gen::ff(i, k) * gen::ff(j, k) / (i + j - 2 * k + 1);
  MatL Ai = A.fullPivLu().inverse();
  return cache[{N, k}] = Ai.transpose() * Q * Ai;
}
// The lowest possible cost of dimension dim.  Unknowns are scaled by a typical time, so the system is well scaled.
// cond: smallest eigenvalue of the diagonally scaled system (0: the solution is not unique).
inline ld best_cost(const Problem& p, int dim, double* cond = nullptr) {
  if (cond) *cond = 1;
  int h = p.N / 2, n = h * (p.K + 1);
  ld s = 0;
  for (double x : p.t) s += x;
  s /= p.K;  // unknown: derivative d times s^d
  MatL R = MatL::Zero(n, n);
  const MatL& U = unit_cost(p.N, p.k);
  for (int i = 0; i < p.K; ++i) {
    ld T = p.t[i];
    VecL sc(p.N);
    for (int d = 0; d < h; ++d) sc[d] = sc[d + h] = powl(T / s, d);
    MatL H = sc.asDiagonal() * U * sc.asDiagonal() * powl(T, 1 - 2 * p.k);
    R.block(i * h, i * h, p.N, p.N) += H;
  }
  std::vector<int> fix, fre;
  VecL x(n);
  for (int i = 0; i <= p.K; ++i) for (int d = 0; d < h; ++d) {
    auto it = p.con[i].find(d);
    if (it == p.con[i].end()) fre.push_back(i * h + d);
    else { fix.push_back(i * h + d); x[i * h + d] = (ld)it->second[dim] * powl(s, d); }
  }
  int m = (int)fre.size();
  if (m) {
    MatL P(m, m);
    VecL b(m);
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < m; ++j) P(i, j) = R(fre[i], fre[j]);
      b[i] = 0;
      for (int f : fix) b[i] -= R(fre[i], f) * x[f];
    }
    // Diagonal scaling, then a rank-revealing solve.
    VecL g(m);
    for (int i = 0; i < m; ++i) g[i] = P(i, i) > 0 ? 1 / sqrtl(P(i, i)) : 1;
    MatL S = g.asDiagonal() * P * g.asDiagonal();
    if (cond) *cond = (double)Eigen::SelfAdjointEigenSolver<MatL>(S, Eigen::EigenvaluesOnly).eigenvalues()[0];
    VecL y = S.completeOrthogonalDecomposition().solve(VecL(g.asDiagonal() * b));
    for (int i = 0; i < m; ++i) x[fre[i]] = g[i] * y[i];
  }
  return x.dot(R * x);
}
// Integral of the squared derivative k over a trajectory, and the sum of absolute terms.
inline ld integral(const mtg::Segment::Vector& segs, int k, ld* abssum) {
  ld s = 0, a = 0;
  for (auto& g : segs) for (int dim = 0; dim < g.D(); ++dim) {
    VectorXd q = gen::cf(g[dim]);
    ld T = g.getTime();
    for (int i = k; i < q.size(); ++i) for (int j = k; j < q.size(); ++j) {
      ld term = gen::ff(i, k) * gen::ff(j, k) * (ld)q[i] * (ld)q[j] * powl(T, i + j - 2 * k + 1) / (i + j - 2 * k + 1);
      s += term;
      a += fabsl(term);
    }
  }
  *abssum = a;
  return s;
}
// Size of the terms of a segment in dimension dim: max over j of |c_j| T^j.
inline ld magnitude(const mtg::Segment& g, int dim) {
  ld m = 0, pw = 1;
  VectorXd q = gen::cf(g[dim]);
  for (int j = 0; j < q.size(); ++j) { m = std::max(m, fabsl((ld)q[j]) * pw); pw *= g.getTime(); }
  return m;
}
// Relative accuracy of the solver's arithmetic for N coefficients (mapping inverse and normal equations in double).
inline double acc(int N) { return N <= 6 ? 1e-10 : N <= 8 ? 1e-9 : N <= 10 ? 1e-8 : 1e-7; }
// Scale of costs below which differences are rounding.
inline double cost_floor(const mtg::Segment::Vector& segs, int k, double rel) {
  ld a;
  integral(segs, k, &a);
  // Coefficients are accurate to rel times the largest term of their segment.
  for (auto& g : segs) for (int d = 0; d < g.D(); ++d) a += rel * powl(magnitude(g, d) * gen::ff(g.N() - 1, k), 2) * powl(g.getTime(), 1 - 2 * k);
  return rel * (double)a;
}
// Every constraint holds on both sides of its vertex; everything below order N/2 is continuous.
inline void feasible(pbt::Ctx& c, const Problem& p, const mtg::Segment::Vector& segs, double rel, const char* what) {
  c.check((int)segs.size() == p.K, "segments", PBT_S(what << ": " << segs.size() << " segments instead of " << p.K));
  for (int i = 0; i < p.K; ++i) {
    c.check(segs[i].D() == p.D && segs[i].N() == p.N, "shape", PBT_S(what << ": segment " << i << " has " << segs[i].D() << " dimensions and " << segs[i].N() << " coefficients"));
  }
  for (int dim = 0; dim < p.D; ++dim) {
    std::vector<ld> mag;
    for (auto& g : segs) mag.push_back(magnitude(g, dim));
    for (int i = 0; i <= p.K; ++i) for (int d = 0; d < p.N / 2; ++d) {
      ld left = 0, right = 0, tl = 0, tr = 0;
      if (i > 0) { left = gen::peval(gen::cf(segs[i - 1][dim]), segs[i - 1].getTime(), d); tl = rel * gen::ff(p.N - 1, d) * mag[i - 1] / powl(segs[i - 1].getTime(), d); }
      if (i < p.K) { right = gen::peval(gen::cf(segs[i][dim]), 0, d); tr = rel * mag[i] / powl(segs[i].getTime(), d); }
      auto it = p.con[i].find(d);
      if (it != p.con[i].end()) {
        double q = it->second[dim];
        if (i > 0) { c.metric("margin:constraint", (double)(fabsl(left - q) / (tl + 1e-300L))); if (!(fabsl(left - q) <= tl)) c.fail("constraint", PBT_S(what << ": derivative " << d << " of dimension " << dim << " before vertex " << i << " is " << (double)left << " instead of " << q)); }
        if (i < p.K) { c.metric("margin:constraint", (double)(fabsl(right - q) / (tr + 1e-15 * fabs(q) + 1e-300L))); if (!(fabsl(right - q) <= tr + 1e-15 * fabs(q))) c.fail("constraint", PBT_S(what << ": derivative " << d << " of dimension " << dim << " after vertex " << i << " is " << (double)right << " instead of " << q)); }
      }
      if (i > 0 && i < p.K) {
        c.metric("margin:continuity", (double)(fabsl(left - right) / (tl + tr + 1e-300L)));
        if (!(fabsl(left - right) <= tl + tr)) c.fail("continuity", PBT_S(what << ": derivative " << d << " of dimension " << dim << " jumps from " << (double)left << " to " << (double)right << " at vertex " << i));
      }
    }
  }
}
}  // namespace opt
