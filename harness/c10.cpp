// C10: polynomial arithmetic and calculus against long-double term-by-term evaluation.
#include "gen.hpp"
#include <mav_trajectory_generation/convolution.h>
using namespace gen;
using mtg::Polynomial;

static double a_time(pbt::Ctx& c) {
  switch (c.s.below(4)) {
    case 0: return 0;
    case 1: { int k = (int)c.s.below(41); return (k % 2 ? -1 : 1) * ((k + 1) / 2); }
    default: return -20 + 40 * c.s.unit();
  }
}
static void is_value(pbt::Ctx& c, double got, const VectorXd& k, double t, int d, const char* tag, double extra = 1) {
  ld a, v = peval(k, t, d, &a);
  c.close(got, (double)v, (double)(64 * extra * kEps * a) + 1e-300, tag, PBT_S("derivative " << d << " at t=" << t << " of " << vs(k)));
}

static void evaluation(pbt::Ctx& c) {
  int n = c.s.irange(1, c.s.chance(1, 5) ? 22 : 12);
  VectorXd k = coefs(c, n);
  double t = a_time(c);
  c.desc << "N=" << n << " coeffs=" << vs(k) << " t=" << t;
  c.nontrivial(n >= 3 && t != 0 && k.cwiseAbs().maxCoeff() > 0);
  c.label(PBT_S("N=" << n));
  Polynomial p(n, k);
  c.check(p.N() == n, "N", "wrong number of coefficients");
  c.check(Polynomial(k) == p && !(Polynomial(k) != p), "equal", "polynomials with the same coefficients differ");
  for (int d = 0; d <= std::min(n + 2, 21); ++d) is_value(c, p.evaluate(t, d), k, t, d, "eval");
  int m = c.s.irange(1, n);
  VectorXd r = VectorXd::Constant(m, 12345.0);
  p.evaluate(t, &r);
  c.check(r.size() == m, "evalvec-size", "result vector resized");
  for (int d = 0; d < m; ++d) is_value(c, r[d], k, t, d, "evalvec");
  for (int d = 0; d < n; ++d) {
    VectorXd g = p.getCoefficients(d);
    c.check(g.size() == n, "coeffs-size", PBT_S("getCoefficients(" << d << ") has size " << g.size()));
    for (int j = 0; j < n; ++j) {
      ld e = j + d < n ? ff(j + d, d) * (ld)k[j + d] : 0.0L;
      c.close(g[j], (double)e, (double)fabsl(e) * 4 * kEps, "coeffs", PBT_S("coefficient " << j << " of derivative " << d));
    }
    VectorXd b = Polynomial::baseCoeffsWithTime(n, d, t), b2;
    Polynomial::baseCoeffsWithTime(n, d, t, &b2);
    c.check(b.size() == n && b2.size() == n && b == b2, "base-forms", "the two forms of baseCoeffsWithTime disagree");
    for (int j = 0; j < n; ++j) {
      ld e = j >= d ? ff(j, d) * powl(t, j - d) : 0.0L;
      if (fabs(t) < kEps && j > d) e = 0;
      c.close(b[j], (double)e, (double)fabsl(e) * 64 * kEps, "base", PBT_S("base coefficient " << j << " of derivative " << d << " at t=" << t));
    }
  }
  c.check(p.getCoefficients(0) == k, "coeffs-exact", "coefficients changed");
}

static void algebra(pbt::Ctx& c) {
  int n = c.s.irange(1, 12), m = c.s.irange(1, std::min(12, 23 - n));
  VectorXd a = coefs(c, n), b = coefs(c, n), q = coefs(c, m);
  double t = a_time(c), s = coef(c);
  c.desc << "a=" << vs(a) << " b=" << vs(b) << " q=" << vs(q) << " t=" << t << " s=" << s;
  c.nontrivial(n >= 2 && m >= 2 && t != 0 && s != 0);
  Polynomial A(a), B(b), Q(q);
  int d = (int)c.s.below(4);
  auto val = [&](const VectorXd& k, int dd, ld* as) { return peval(k, t, dd, as); };
  ld s1, s2;
  ld va = val(a, d, &s1), vb = val(b, d, &s2);
  c.close((A + B).evaluate(t, d), (double)(va + vb), (double)(64 * kEps * (s1 + s2)) + 1e-300, "sum", "value of a sum");
  Polynomial C(A);
  Polynomial& ret = (C += B);
  c.check(&ret == &C, "addassign-ref", "+= does not return its left side");
  c.check(C == A + B, "addassign", "+= and + differ");
  c.check(A.getCoefficients(0) == a && B.getCoefficients(0) == b, "sum-pure", "operands changed by a sum");
  c.close((A * s).evaluate(t, d), (double)(va * s), (double)(64 * kEps * fabsl(s1 * s)) + 1e-300, "scalar", "value of a scalar multiple");
  // product
  Polynomial P = A * Q;
  c.check(P.N() == n + m - 1 && Polynomial::getConvolutionLength(n, m) == n + m - 1, "product-size", PBT_S("product has " << P.N() << " coefficients"));
  VectorXd pk = P.getCoefficients(0);
  for (int i = 0; i < n + m - 1; ++i) {
    ld e = 0, as = 0;
    for (int j = 0; j < n; ++j) if (i - j >= 0 && i - j < m) { e += (ld)a[j] * q[i - j]; as += fabsl((ld)a[j] * q[i - j]); }
    c.close(pk[i], (double)e, (double)(32 * kEps * as) + 1e-300, "product", PBT_S("product coefficient " << i));
  }
  c.check(Polynomial::convolve(a, q) == pk, "convolve", "convolve and product differ");
  {
    VectorXd r = Polynomial::convolve(q, a);
    for (int i = 0; i < r.size(); ++i) {
      ld as = 0;
      for (int j = 0; j < n; ++j) if (i - j >= 0 && i - j < m) as += fabsl((ld)a[j] * q[i - j]);
      c.close(r[i], pk[i], (double)(64 * kEps * as) + 1e-300, "convolve-commutes", "convolution is commutative");
    }
  }
  // offset
  Polynomial O(A);
  O.offsetPolynomial(s);
  for (int dd = 0; dd < 3; ++dd) {
    ld as, e = val(a, dd, &as) + (dd == 0 ? (ld)s : 0.0L);
    c.close(O.evaluate(t, dd), (double)e, (double)(64 * kEps * (as + (dd ? 0 : fabsl(s)))) + 1e-300, "offset", PBT_S("offset polynomial, derivative " << dd));
  }
  // time scaling: p_out(t) = p(b t)
  double bfac = c.s.chance(1, 6) ? 1.0 : c.s.logreal(0.05, 20);
  Polynomial S(A);
  S.scalePolynomialInTime(bfac);
  double tt = t / std::max(1.0, bfac);
  for (int dd = 0; dd < 4; ++dd) {
    ld as, e = peval(a, (ld)tt * bfac, dd, &as) * powl(bfac, dd);
    c.close(S.evaluate(tt, dd), (double)e, (double)(256 * kEps * as * powl(bfac, dd)) + 1e-300, "timescale", PBT_S("time scaling by " << bfac << ", derivative " << dd << " at " << tt));
  }
  // append zeros
  int nn = c.s.irange(1, 16);
  Polynomial G(3);
  bool ok = A.getPolynomialWithAppendedCoefficients(nn, &G);
  c.check(ok == (nn >= n), "append-result", PBT_S("appending to " << nn << " coefficients from " << n << " returned " << ok));
  if (ok) c.check(G.N() == nn, "append-N", "appended polynomial has the wrong number of coefficients");
  c.check(A.getCoefficients(0) == a && A.N() == n, "append-pure", "source changed by appending");
  for (int dd = 0; dd < 3; ++dd) is_value(c, G.evaluate(t, dd), a, t, dd, "append-value");
  Polynomial E(A);
  ok = E.getPolynomialWithAppendedCoefficients(nn, &E);
  for (int dd = 0; dd < 3; ++dd) is_value(c, E.evaluate(t, dd), a, t, dd, "append-self");
  // assignment, setCoefficients, equality
  Polynomial Z(n);
  c.check(Z.getCoefficients(0).isZero(0) && Z.N() == n, "zero", "a new polynomial is not zero");
  Z.setCoefficients(b);
  c.check(Z == B && (Z == A) == (a == b) && (Z != A) == !(a == b), "setcoeffs", "equality after setCoefficients");
  int i = (int)c.s.below(n);
  VectorXd b2 = b;
  b2[i] = std::nextafter(b2[i], 1e300);
  c.check(Polynomial(b2) != B && !(Polynomial(b2) == B), "neq", "polynomials that differ in one coefficient compare equal");
  // Different numbers of coefficients: not equal, whatever the common part.
  if (n < 12) {
    VectorXd longer(n + 1);
    longer.head(n) = a;
    longer[n] = 1 + c.s.below(2);
    c.check(Polynomial(longer) != A && !(A == Polynomial(longer)), "neq-size", "polynomials of different degree compare equal");
  }
}

template <int D, int K>
static void conv_one(pbt::Ctx& c) {
  Eigen::Matrix<double, D, 1> d = coefs(c, D);
  Eigen::Matrix<double, K, 1> k = coefs(c, K);
  auto r = mtg::convolve<D, K>(d, k);
  VectorXd dd = d, kk = k;
  c.desc << "convolve<" << D << "," << K << "> " << vs(dd) << " * " << vs(kk);
  c.check((int)r.size() == D + K - 1, "fixed-size", "wrong size of fixed-size convolution");
  for (int i = 0; i < D + K - 1; ++i) {
    ld e = 0, as = 0;
    for (int j = 0; j < D; ++j) if (i - j >= 0 && i - j < K) { e += (ld)d[j] * k[i - j]; as += fabsl((ld)d[j] * k[i - j]); }
    c.close(r[i], (double)e, (double)(32 * kEps * as) + 1e-300, "fixed-conv", PBT_S("fixed-size convolution entry " << i));
  }
}
static void tables(pbt::Ctx& c) {
  c.nontrivial();
  int n = c.s.irange(1, 22);
  c.desc << "computeBaseCoefficients(" << n << ") ";
  Eigen::MatrixXd m = mtg::computeBaseCoefficients(n);
  c.check(m.rows() == n && m.cols() == n, "table-size", "wrong size");
  for (int d = 0; d < n; ++d)
    for (int j = 0; j < n; ++j)
      c.close(m(d, j), j >= d ? (double)ff(j, d) : 0.0, j >= d ? (double)ff(j, d) * 4 * kEps : 0.0, "table", PBT_S("entry " << d << "," << j));
  switch (c.s.below(6)) {
    case 0: conv_one<1, 1>(c); break;
    case 1: conv_one<3, 5>(c); break;
    case 2: conv_one<6, 2>(c); break;
    case 3: conv_one<10, 9>(c); break;
    case 4: conv_one<12, 11>(c); break;
    default: conv_one<4, 4>(c); break;
  }
  double x = coef(c);
  c.check(mtg::sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn", "sign function");
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"evaluation", 5, evaluation}, {"algebra", 6, algebra}, {"tables", 1, tables}});
}
