// Shared generators and reference evaluators for the library-layer harnesses.
#pragma once
#include <mav_trajectory_generation/polynomial.h>
#include <mav_trajectory_generation/segment.h>
#include <mav_trajectory_generation/trajectory.h>
#include <mav_trajectory_generation/vertex.h>

#include <algorithm>

#include "pbt.hpp"

namespace gen {
namespace mtg = mav_trajectory_generation;
using Eigen::VectorXd;
typedef long double ld;
constexpr double kEps = std::numeric_limits<double>::epsilon();

// Signed coefficient: zero, small integers, unit range, or any magnitude 1e-6..1e6.
inline double coef(pbt::Ctx& c) {
  switch (c.s.below(4)) {
    case 0: { int k = (int)c.s.below(9); return (k % 2 ? -1 : 1) * ((k + 1) / 2); }
    case 1:
    case 2: return -1.0 + 2.0 * c.s.unit();
    default: { double m = c.s.logreal(1e-6, 1e6); return c.s.chance(1, 2) ? -m : m; }
  }
}
inline VectorXd coefs(pbt::Ctx& c, int n) {
  VectorXd v(n);
  for (int i = 0; i < n; ++i) v[i] = coef(c);
  return v;
}
inline ld ff(int j, int d) {  // j (j-1) ... (j-d+1)
  ld r = 1;
  for (int i = 0; i < d; ++i) r *= (j - i);
  return r;
}
// d-th derivative of the polynomial at t, and the sum of absolute terms (for rounding bounds).
inline ld peval(const VectorXd& c, ld t, int d, ld* abssum = nullptr) {
  ld s = 0, a = 0;
  ld pw = 1;
  for (int j = d; j < c.size(); ++j) {
    ld term = ff(j, d) * (ld)c[j] * pw;
    s += term;
    a += fabsl(term);
    pw *= t;
  }
  if (abssum) *abssum = a;
  return s;
}
inline VectorXd cf(const mtg::Polynomial& p) { return p.getCoefficients(0); }
inline std::string vs(const VectorXd& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
// Segment duration: dyadic (exact sums) or arbitrary.
inline double seg_time(pbt::Ctx& c, bool dyadic) {
  if (dyadic) return (1 + c.s.below(40)) / 8.0;
  return c.s.logreal(0.05, 20.0);
}
// Wavy: the values stay within a band over the segment (Bernstein coefficients in [-1, 1] times a size), with turns inside.
inline VectorXd wavy_coefs(pbt::Ctx& c, int n, double T) {
  std::vector<ld> b(n);
  double size = c.s.chance(1, 2) ? 1.0 : c.s.logreal(1e-2, 1e3);
  for (auto& x : b) x = c.s.chance(1, 2) ? (c.s.chance(1, 2) ? size : -size) : size * (2 * c.s.unit() - 1);
  VectorXd v(n);
  ld binom = 1, q = 1;
  for (int j = 0; j < n; ++j) {
    v[j] = (double)(binom * q * b[0]);
    for (int i = 0; i + 1 < n - j; ++i) b[i] = b[i + 1] - b[i];  // forward differences
    binom = binom * (n - 1 - j) / (j + 1);
    q /= T;
  }
  return v;
}
// Comes to rest: zeros of order a at the start and b at the end, and wavy between (plus a position).
inline VectorXd rest_coefs(pbt::Ctx& c, int n, double T, int a, int b) {
  if (n - a - b < 1) return wavy_coefs(c, n, T);
  VectorXd w = wavy_coefs(c, n - a - b, T), v = VectorXd::Zero(n);
  std::vector<ld> q(n, 0);
  for (int j = 0; j < w.size(); ++j) q[j + a] = w[j];
  for (int k = 0; k < b; ++k) for (int j = n - 1; j > 0; --j) q[j] -= q[j - 1] / T;
  for (int j = 0; j < n; ++j) v[j] = (double)q[j];
  v[0] += c.s.chance(1, 2) ? 10 * (2 * c.s.unit() - 1) : 0;
  return v;
}
// Balanced: the coefficient of t^j is divided by T^j so that all terms matter inside the segment; 2: wavy; 3: wavy, from or to rest.
inline mtg::Segment segment(pbt::Ctx& c, int n, int d, double T, int balanced) {
  mtg::Segment s(n, d);
  s.setTime(T);
  int at_start = 0, at_end = 0;
  if (balanced == 3) { at_start = c.s.irange(0, 4); at_end = c.s.irange(0, 4); }
  for (int i = 0; i < d; ++i) {
    VectorXd k = balanced == 3 ? rest_coefs(c, n, T, at_start, at_end) : balanced == 2 ? wavy_coefs(c, n, T) : coefs(c, n);
    if (balanced == 1) { double q = 1; for (int j = 0; j < n; ++j) { k[j] *= q; q /= T; } }
    s[i] = mtg::Polynomial(n, k);
  }
  return s;
}
// Makes s start with the value and derivatives (up to order k) with which prev ends.
inline void make_continuous(const mtg::Segment& prev, mtg::Segment& s, int k) {
  for (int i = 0; i < s.D(); ++i) {
    VectorXd q = cf(s[i]);
    for (int j = 0; j <= k && j < q.size(); ++j) q[j] = (double)(peval(cf(prev[i]), prev.getTime(), j) / ff(j, j));
    s[i] = mtg::Polynomial((int)q.size(), q);
  }
}
struct TrajOpt { int kmin = 1, kmax = 6, dmin = 1, dmax = 4, nmin = 1, nmax = 12; };
inline mtg::Trajectory trajectory(pbt::Ctx& c, const TrajOpt& o, bool* dyadic_out = nullptr, int N = 0, int D = 0, int K = 0) {
  if (!K) K = c.s.sized(o.kmin, o.kmax, 8 * o.kmax);
  if (!D) D = c.s.irange(o.dmin, o.dmax);
  if (!N) N = c.s.irange(o.nmin, o.nmax);
  bool dyadic = c.s.chance(1, 2);
  int balanced = (int)c.s.below(4);
  int cont = (int)c.s.below(4);
  mtg::Segment::Vector segs;
  for (int i = 0; i < K; ++i) {
    mtg::Segment s = segment(c, N, D, seg_time(c, dyadic), balanced);
    if (cont && i) make_continuous(segs.back(), s, cont);
    segs.push_back(s);
  }
  if (dyadic_out) *dyadic_out = dyadic;
  mtg::Trajectory t;
  t.setSegments(segs);
  return t;
}
inline std::string show(const mtg::Segment& s) {
  std::ostringstream o;
  o.precision(17);
  o << "{T=" << s.getTime();
  for (int i = 0; i < s.D(); ++i) o << " " << vs(cf(s[i]));
  o << "}";
  return o.str();
}
inline std::string show(const mtg::Trajectory& t) {
  std::ostringstream o;
  o << "traj(K=" << t.K() << ",D=" << t.D() << ",N=" << t.N() << ")";
  for (auto& s : t.segments()) o << show(s);
  return o.str();
}
// Value of dimension dim of segment s at local time t, with a bound on the rounding error of a
// double evaluation whose time argument may be off by dt.
inline ld seg_value(const mtg::Segment& s, int dim, ld t, int d, ld dt, ld* tol) {
  ld a, b;
  VectorXd q = cf(s[dim]);
  ld v = peval(q, t, d, &a);
  // bound of the next derivative near t
  VectorXd qa = q.cwiseAbs();
  b = peval(qa, fabsl(t) + dt, d + 1);
  *tol = 64 * kEps * a + 2 * dt * b + 1e-300L;
  return v;
}
inline double frac_time(pbt::Ctx& c, double T) {  // a time in [0,T], often special
  switch (c.s.below(5)) {
    case 0: return 0;
    case 1: return T;
    case 2: return T * 0.5;
    default: return T * c.s.unit();
  }
}
}  // namespace gen
