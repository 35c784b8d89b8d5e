// C11: roots and extrema of polynomials.
#include <complex>

#include "gen.hpp"
using namespace gen;
using mtg::Polynomial;
typedef std::complex<ld> cld;

// Number of roots the polynomial really has (highest non-zero coefficient).
static int true_degree(const VectorXd& k) {
  for (int i = (int)k.size() - 1; i >= 0; --i) if (fabs(k[i]) >= std::numeric_limits<double>::min()) return i;
  return 0;
}

struct Gen { VectorXd k; std::string how; };
static Gen polynomial(pbt::Ctx& c, int max_degree) {
  Gen g;
  int trailing = c.s.chance(1, 4) ? c.s.irange(1, 2) : 0;
  int deg = c.s.irange(1, max_degree - trailing);
  int kind = (int)c.s.below(4);
  if (kind == 0) {
    g.how = "coefficients";
    g.k = coefs(c, deg + 1);
  } else if (kind == 1) {
    g.how = "trajectory-like";  // coefficient of t^j falls like T^-j
    double T = c.s.logreal(0.1, 20), q = 1;
    g.k = VectorXd(deg + 1);
    for (int j = 0; j <= deg; ++j) { g.k[j] = (-1 + 2 * c.s.unit()) * q; q /= T; }
  } else {
    g.how = kind == 2 ? "roots" : "multiple roots";
    std::vector<ld> p{1};
    auto mul = [&](const std::vector<ld>& f) {
      std::vector<ld> r(p.size() + f.size() - 1, 0);
      for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < f.size(); ++j) r[i + j] += p[i] * f[j];
      p = r;
    };
    double scale = c.s.chance(1, 3) ? c.s.logreal(0.01, 100) : 1;
    std::vector<double> reals;
    std::vector<std::complex<double>> all;
    auto apart = [&](std::complex<double> z) {
      for (auto& o : all) if (std::abs(o - z) < 0.15 * scale) return false;
      return true;
    };
    while ((int)p.size() - 1 < deg) {
      int left = deg - ((int)p.size() - 1);
      if (left >= 2 && c.s.chance(1, 3)) {
        double re = (-2 + 4 * c.s.unit()) * scale, im = c.s.logreal(1e-2, 3) * scale;
        if (kind == 2 && (im < 0.1 * scale || !apart({re, im}))) g.how = "multiple roots";
        all.push_back({re, im});
        mul({(ld)re * re + (ld)im * im, -2 * (ld)re, 1});
      } else {
        double r;
        if (kind == 3 && !reals.empty() && c.s.chance(2, 3)) {
          r = c.s.pick(reals);
          if (c.s.chance(1, 3)) r += scale * c.s.logreal(1e-8, 1e-2);
        } else r = c.s.chance(1, 6) ? 0 : c.s.real(-5, 5) * scale;
        for (int tries = 0; kind == 2 && tries < 6 && !apart(r); ++tries) r = c.s.real(-5, 5) * scale;
        if (kind == 2 && !apart(r)) g.how = "multiple roots";
        reals.push_back(r);
        all.push_back(r);
        mul({-(ld)r, 1});
      }
    }
    double lead = c.s.chance(1, 2) ? 1 : c.s.logreal(1e-4, 1e4) * (c.s.chance(1, 2) ? -1 : 1);
    g.k = VectorXd(deg + 1);
    for (int j = 0; j <= deg; ++j) g.k[j] = (double)(p[j] * lead);
  }
  if (trailing) {
    VectorXd q = VectorXd::Zero(g.k.size() + trailing);
    q.head(g.k.size()) = g.k;
    g.k = q;
  }
  return g;
}

static void roots(pbt::Ctx& c) {
  Gen g = polynomial(c, c.s.chance(1, 4) ? 20 : 11);
  const VectorXd& k = g.k;
  int d = (int)c.s.below(std::min<int>(4, k.size()));
  c.desc << g.how << " coeffs=" << vs(k) << " derivative=" << d;
  c.label(g.how);
  Polynomial p(k);
  VectorXd kd(std::max<int>(0, (int)k.size() - d));
  for (int j = 0; j < kd.size(); ++j) kd[j] = (double)(ff(j + d, d) * (ld)k[j + d]);
  int deg = true_degree(kd);
  c.label(PBT_S("degree " << deg));
  c.nontrivial(deg >= 2);
  Eigen::VectorXcd r;
  bool ok = p.getRoots(d, &r);
  c.check(p.getCoefficients(0) == k, "roots-pure", "root finding changed the polynomial");
  c.check(ok, "roots-found", PBT_S("getRoots reports failure for a polynomial of degree " << deg));
  c.check((int)r.size() == deg, "roots-count", PBT_S(r.size() << " roots reported for degree " << deg));
  if (deg == 0) return;
  ld norm = 0;
  for (int j = 0; j <= deg; ++j) norm = std::max(norm, fabsl((ld)kd[j]));
  // Clustered roots are ill-conditioned, so there the product is not compared and the equation with less precision.
  bool judged = g.how != "multiple roots";
  if (judged) c.label("well conditioned");
  ld rmax = 0;
  for (int i = 0; i < r.size(); ++i) rmax = std::max(rmax, (ld)std::abs(r[i]));
  // Each root satisfies the equation.
  for (int i = 0; i < r.size(); ++i) {
    cld z(r[i].real(), r[i].imag());
    c.check(std::isfinite(r[i].real()) && std::isfinite(r[i].imag()), "roots-finite", "root is not finite");
    cld v = 0;
    ld a = 0, m = std::max(std::abs(z), 1e-9L * rmax);
    for (int j = deg; j >= 0; --j) { v = v * z + (ld)kd[j]; a = a * m + fabsl((ld)kd[j]); }
    c.close((double)(std::abs(v) / (a + 1e-300L)), 0, judged ? 1e-5 : 1e-3, judged ? "root-residual" : "clustered-residual", PBT_S("relative residual at root " << r[i].real() << "+" << r[i].imag() << "i"));
  }
  // All of them, with multiplicity: the product of the linear factors is the polynomial.
  std::vector<cld> q{(ld)kd[deg]};
  std::vector<ld> qa{fabsl((ld)kd[deg])};
  for (int i = 0; i < r.size(); ++i) {
    cld z(r[i].real(), r[i].imag());
    std::vector<cld> n(q.size() + 1, 0);
    std::vector<ld> na(q.size() + 1, 0);
    for (size_t j = 0; j < q.size(); ++j) { n[j + 1] += q[j]; n[j] -= q[j] * z; na[j + 1] += qa[j]; na[j] += qa[j] * std::abs(z); }
    q = n;
    qa = na;
  }
  for (int j = 0; j <= deg; ++j)
    if (judged) c.close((double)(std::abs(q[j] - (ld)kd[j]) / (qa[j] + 1e-12L * norm + 1e-300L)), 0, 1e-4, "roots-product", PBT_S("coefficient " << j << " of the product of the reported roots (got " << (double)q[j].real() << " expected " << kd[j] << ")"));
}

// Largest and smallest value of the d-th derivative over [a,b] by dense sampling and ternary refinement.
static void brute(const VectorXd& k, int d, double a, double b, ld* mn, ld* mx, ld* tn, ld* tx) {
  const int n = 160;
  *mn = INFINITY; *mx = -INFINITY;
  std::vector<ld> v(n + 1);
  for (int i = 0; i <= n; ++i) {
    ld t = (ld)a + ((ld)b - a) * i / n;
    v[i] = peval(k, t, d);
    if (v[i] < *mn) { *mn = v[i]; *tn = t; }
    if (v[i] > *mx) { *mx = v[i]; *tx = t; }
  }
  for (int sgn = -1; sgn <= 1; sgn += 2) {
    ld t0 = sgn < 0 ? *tn : *tx;
    ld lo = std::max((ld)a, t0 - ((ld)b - a) / n), hi = std::min((ld)b, t0 + ((ld)b - a) / n);
    for (int it = 0; it < 60; ++it) {
      ld m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
      if (sgn * peval(k, m1, d) < sgn * peval(k, m2, d)) lo = m1; else hi = m2;
    }
    ld tv = (lo + hi) / 2, x = peval(k, tv, d);
    if (sgn < 0 && x < *mn) { *mn = x; *tn = tv; }
    if (sgn > 0 && x > *mx) { *mx = x; *tx = tv; }
  }
}

static void extrema(pbt::Ctx& c) {
  Gen g = polynomial(c, 11);
  const VectorXd& k = g.k;
  int d = (int)c.s.below(std::min<int>(4, (int)k.size()));
  double a = c.s.real(-3, 3), len;
  if (g.how == "trajectory-like" || c.s.chance(1, 3)) a = c.s.chance(1, 2) ? 0 : a;
  len = c.s.chance(1, 12) ? 0 : c.s.logreal(0.01, 10);
  double b = a + len;
  c.desc << g.how << " coeffs=" << vs(k) << " derivative=" << d << " interval=[" << a << "," << b << "]";
  c.label(g.how);
  Polynomial p(k);
  std::vector<double> cand{1, 2, 3};
  c.check(p.computeMinMaxCandidates(a, b, d, &cand), "candidates-ok", "candidate search reports failure");
  for (double t : cand) c.check(t >= a && t <= b, "candidates-inside", PBT_S("candidate " << t << " outside the interval"));
  std::pair<double, double> mn{-7, -7}, mx{-7, -7}, mn2, mx2, mn3, mx3;
  c.check(p.computeMinMax(a, b, d, &mn, &mx), "minmax-ok", "computeMinMax reports failure");
  c.check(mn.first >= a && mn.first <= b && mx.first >= a && mx.first <= b, "minmax-inside", PBT_S("extremum at " << mn.first << " / " << mx.first << " outside the interval"));
  ld as, v;
  // scale for rounding: the largest absolute term sum on the interval
  ld big = 0;
  VectorXd ka = k.cwiseAbs();
  big = peval(ka, std::max(fabs(a), fabs(b)), d);
  double tol = (double)((g.how == "multiple roots" ? 1e-3 : 1e-7) * big) + 1e-300;
  v = peval(k, mn.first, d, &as);
  c.close(mn.second, (double)v, (double)(64 * kEps * as) + 1e-300, "min-attained", PBT_S("reported minimum at t=" << mn.first));
  v = peval(k, mx.first, d, &as);
  c.close(mx.second, (double)v, (double)(64 * kEps * as) + 1e-300, "max-attained", PBT_S("reported maximum at t=" << mx.first));
  ld bn, bx, tn = a, tx = a;
  brute(k, d, a, b, &bn, &bx, &tn, &tx);
  c.metric("margin:min", (double)((mn.second - bn) / tol));
  c.metric("margin:max", (double)((bx - mx.second) / tol));
  c.check(bn >= mn.second - tol, "min", PBT_S("value " << (double)bn << " at t=" << (double)tn << " is below the reported minimum " << mn.second << " at " << mn.first));
  c.check(bx <= mx.second + tol, "max", PBT_S("value " << (double)bx << " at t=" << (double)tx << " is above the reported maximum " << mx.second << " at " << mx.first));
  bool interior = (mn.first != a && mn.first != b) || (mx.first != a && mx.first != b);
  c.nontrivial(interior);
  if (interior) c.label("interior extremum");
  // The other two entry points give the same answer.
  c.check(p.selectMinMaxFromCandidates(cand, d, &mn2, &mx2) && mn2 == mn && mx2 == mx, "from-candidates", "selectMinMaxFromCandidates disagrees");
  Eigen::VectorXcd r;
  p.getRoots(d + 1, &r);
  c.check(p.selectMinMaxFromRoots(a, b, d, r, &mn3, &mx3) && mn3 == mn && mx3 == mx, "from-roots", "selectMinMaxFromRoots disagrees");
  // Refusals.
  if (len > 0) {
    c.check(!p.computeMinMax(b, a, d, &mn2, &mx2), "reversed", "reversed interval accepted");
    c.check(!Polynomial::selectMinMaxCandidatesFromRoots(b, a, r, &cand), "reversed-roots", "reversed interval accepted");
  }
  c.check(!p.selectMinMaxFromCandidates({}, d, &mn2, &mx2), "no-candidates", "empty candidate list accepted");
  c.check(!p.computeMinMax(a, b, (int)k.size(), &mn2, &mx2), "order", "derivative order beyond the polynomial accepted");
}

// Selection of real roots inside the interval, on prescribed root lists.
static void selection(pbt::Ctx& c) {
  int n = (int)c.s.below(8);
  double a = c.s.real(-3, 3), b = a + (c.s.chance(1, 8) ? 0 : c.s.logreal(0.1, 5));
  Eigen::VectorXcd r(n);
  std::vector<double> expect;
  c.desc << "interval [" << a << "," << b << "] roots";
  for (int i = 0; i < n; ++i) {
    double re = c.s.chance(1, 5) ? a : c.s.chance(1, 5) ? b : c.s.real(-6, 6), im = c.s.chance(1, 2) ? 0 : (c.s.chance(1, 2) ? -1 : 1) * c.s.logreal(1e-3, 3);
    r[i] = std::complex<double>(re, im);
    c.desc << " " << re << "+" << im << "i";
    if (im == 0 && re >= a && re <= b) expect.push_back(re);
  }
  c.nontrivial(!expect.empty() && (int)expect.size() < n);
  std::vector<double> cand{5, 5};
  c.check(Polynomial::selectMinMaxCandidatesFromRoots(a, b, r, &cand), "select-ok", "selection failed");
  std::set<double> got(cand.begin(), cand.end()), want(expect.begin(), expect.end());
  want.insert(a);
  want.insert(b);
  c.check(got == want, "select", PBT_S("selected " << got.size() << " candidate times, expected " << want.size()));
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"roots", 5, roots}, {"extrema", 5, extrema}, {"selection", 1, selection}});
}
