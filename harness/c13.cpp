// C13: magnitude extrema and scaling to limits.
#include <mav_trajectory_generation/polynomial_optimization_linear.h>

#include "gen.hpp"
using namespace gen;
using mtg::Extremum;
using mtg::Segment;
using mtg::Trajectory;

static std::vector<int> some_dims(pbt::Ctx& c, int D, int at_least) {
  std::vector<int> all, out;
  for (int i = 0; i < D; ++i) all.push_back(i);
  int n = c.s.irange(std::min(at_least, D), D);
  for (int i = 0; i < n; ++i) { int k = (int)c.s.below(all.size()); out.push_back(all[k]); all.erase(all.begin() + k); }
  return out;
}
static ld mag2(const Segment& s, const std::vector<int>& dims, ld t, int d, ld* as2 = nullptr) {
  ld m = 0, a2 = 0;
  for (int i : dims) { ld a, v = peval(cf(s[i]), t, d, &a); m += v * v; a2 += a * a; }
  if (as2) *as2 = a2;
  return m;
}
static std::string sd(const std::vector<int>& v) { std::string o = "{"; for (int i : v) o += std::to_string(i) + ","; return o + "}"; }

struct Brute { ld mn = INFINITY, mx = -INFINITY, tn = 0, tx = 0; };
static Brute brute(const Segment& s, const std::vector<int>& dims, int d, double a, double b) {
  Brute r;
  const int n = 100;
  for (int i = 0; i <= n; ++i) {
    ld t = (ld)a + ((ld)b - a) * i / n, v = mag2(s, dims, t, d);
    if (v < r.mn) { r.mn = v; r.tn = t; }
    if (v > r.mx) { r.mx = v; r.tx = t; }
  }
  for (int sg = -1; sg <= 1; sg += 2) {
    ld t0 = sg < 0 ? r.tn : r.tx, lo = std::max((ld)a, t0 - ((ld)b - a) / n), hi = std::min((ld)b, t0 + ((ld)b - a) / n);
    for (int it = 0; it < 45; ++it) {
      ld m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
      if (sg * mag2(s, dims, m1, d) < sg * mag2(s, dims, m2, d)) lo = m1; else hi = m2;
    }
    ld t = (lo + hi) / 2, v = mag2(s, dims, t, d);
    if (sg < 0 && v < r.mn) { r.mn = v; r.tn = t; }
    if (sg > 0 && v > r.mx) { r.mx = v; r.tx = t; }
  }
  return r;
}
static ld scale2(const Segment& s, const std::vector<int>& dims, double b, int d) {
  ld m = 0;
  for (int i : dims) { VectorXd q = cf(s[i]).cwiseAbs(); ld v = peval(q, b, d); m += v * v; }
  return m;
}
// How close a squared extreme has to be: by the size of the values, and by the rounding of the sum of terms.
static ld close2(const Segment& s, const std::vector<int>& dims, double b, int d, ld mx) {
  return 1e-6L * mx + 1e-12L * scale2(s, dims, b, d) + 1e-300L;
}
static void attained(pbt::Ctx& c, const Segment& s, const std::vector<int>& dims, int d, const Extremum& e, const char* tag) {
  ld a2, m = mag2(s, dims, e.time, d, &a2);
  c.close(e.value, (double)sqrtl(m), (double)(64 * kEps * sqrtl(a2)) + 1e-300, tag, PBT_S("reported extreme magnitude at t=" << e.time));
}

static void segment_part(pbt::Ctx& c) {
  int n = c.s.irange(2, 12), D = c.s.irange(1, 4);
  double T = seg_time(c, false);
  Segment s = segment(c, n, D, T, (int)c.s.below(4));
  auto dims = some_dims(c, D, 1);
  int d = (int)c.s.below(c.s.chance(1, 8) ? n + 3 : std::min(4, n));
  double a = 0, b = T;
  if (c.s.chance(1, 2)) { a = T * c.s.unit(); b = a + (T - a) * c.s.unit(); }
  c.desc << show(s) << " dims " << sd(dims) << " d=" << d << " [" << a << "," << b << "]";
  std::vector<double> times{-1};
  std::vector<Extremum> cand;
  c.check(s.computeMinMaxMagnitudeCandidateTimes(d, a, b, dims, &times), "times-ok", "candidate times failed");
  for (double t : times) c.check(t >= a && t <= b, "times-inside", PBT_S("candidate time " << t << " outside"));
  c.check(s.computeMinMaxMagnitudeCandidates(d, a, b, dims, &cand) && cand.size() == times.size(), "candidates-ok", "candidates failed");
  for (size_t i = 0; i < cand.size(); ++i) { c.check(cand[i].time == times[i], "candidates-times", "candidate times differ"); attained(c, s, dims, d, cand[i], "candidate-value"); }
  Extremum mn(-1, -1, 7), mx(-1, -1, 7);
  c.check(s.selectMinMaxMagnitudeFromCandidates(d, a, b, dims, cand, &mn, &mx), "select-ok", "selection failed");
  c.check(mn.time >= a && mn.time <= b && mx.time >= a && mx.time <= b, "inside", "extremum outside the interval");
  attained(c, s, dims, d, mn, "min-attained");
  attained(c, s, dims, d, mx, "max-attained");
  Brute r = brute(s, dims, d, a, b);
  ld tol = close2(s, dims, b, d, r.mx);
  c.metric("margin:max", (double)((r.mx - (ld)mx.value * mx.value) / tol));
  c.check(r.mx <= (ld)mx.value * mx.value + tol, "max", PBT_S("magnitude " << (double)sqrtl(r.mx) << " at t=" << (double)r.tx << " exceeds the reported maximum " << mx.value << " at " << mx.time));
  if (dims.size() >= 2) {
    c.metric("margin:min", (double)(((ld)mn.value * mn.value - r.mn) / tol));
    c.check(r.mn >= (ld)mn.value * mn.value - tol, "min", PBT_S("magnitude " << (double)sqrtl(r.mn) << " at t=" << (double)r.tn << " is below the reported minimum " << mn.value << " at " << mn.time));
  }
  bool interior = mx.time > a && mx.time < b;
  c.nontrivial(interior || (mn.time > a && mn.time < b));
  if (interior) c.label("interior maximum");
  c.label(PBT_S(dims.size() << " dimensions"));
  // A narrower selection from the same candidates only looks inside.
  double a2 = a + (b - a) * c.s.unit(), b2 = a2 + (b - a2) * c.s.unit();
  Extremum n2, x2;
  c.check(s.selectMinMaxMagnitudeFromCandidates(d, a2, b2, dims, cand, &n2, &x2), "narrow-ok", "narrow selection failed");
  bool any = false;
  double em = INFINITY, ex = -INFINITY;
  for (auto& e : cand) if (e.time >= a2 && e.time <= b2) { any = true; em = std::min(em, e.value); ex = std::max(ex, e.value); }
  if (any) c.check(n2.value == em && x2.value == ex, "narrow", "selection among candidates inside a narrower interval");
  if (b > a) c.check(!s.selectMinMaxMagnitudeFromCandidates(d, b, a, dims, cand, &n2, &x2), "reversed", "reversed interval accepted");
  c.check(!s.computeMinMaxMagnitudeCandidateTimes(d, a, b, {}, &times), "no-dims", "empty dimension list accepted");
  std::vector<int> none = dims;
  none[c.s.below(none.size())] = c.s.chance(1, 2) ? D + (int)c.s.below(2) : -1;
  c.check(!s.computeMinMaxMagnitudeCandidateTimes(d, a, b, none, &times), "bad-dims", PBT_S("dimensions " << sd(none) << " accepted"));
  // What has no candidate times has no candidates.
  c.check(!s.computeMinMaxMagnitudeCandidates(d, a, b, {}, &cand), "no-dims-candidates", "empty dimension list has candidates");
  c.check(!s.computeMinMaxMagnitudeCandidates(d, a, b, none, &cand), "bad-dims-candidates", PBT_S("dimensions " << sd(none) << " have candidates"));
  if (b > a) c.check(!s.computeMinMaxMagnitudeCandidates(d, b, a, dims, &cand), "reversed-candidates", "reversed interval has candidates");
}

static void whole(pbt::Ctx& c) {
  TrajOpt o;
  o.kmax = 5;
  Trajectory t = trajectory(c, o);
  auto dims = some_dims(c, t.D(), 1);
  int d = (int)c.s.below(c.s.chance(1, 8) ? t.N() + 3 : std::min(4, t.N()));
  c.desc << show(t) << " dims " << sd(dims) << " d=" << d;
  Extremum mn(-1, -1, -1), mx(-1, -1, -1);
  c.check(t.computeMinMaxMagnitude(d, dims, &mn, &mx), "whole-ok", "computeMinMaxMagnitude failed");
  if (d >= t.N()) c.label("derivative vanishes");
  for (const Extremum* e : {&mn, &mx}) {
    c.check(e->segment_idx >= 0 && e->segment_idx < t.K(), "whole-index", PBT_S("segment index " << e->segment_idx));
    const Segment& s = t.segments()[e->segment_idx];
    c.check(e->time >= 0 && e->time <= s.getTime(), "whole-inside", "extremum time outside its segment");
    attained(c, s, dims, d, *e, e == &mn ? "whole-min-attained" : "whole-max-attained");
  }
  for (int k = 0; k < t.K(); ++k) {
    const Segment& s = t.segments()[k];
    Brute r = brute(s, dims, d, 0, s.getTime());
    ld tol = close2(s, dims, s.getTime(), d, r.mx);
    c.metric("margin:whole-max", (double)((r.mx - (ld)mx.value * mx.value) / tol));
    c.check(r.mx <= (ld)mx.value * mx.value + tol, "whole-max", PBT_S("magnitude " << (double)sqrtl(r.mx) << " in segment " << k << " at " << (double)r.tx << " exceeds the reported maximum " << mx.value));
    if (dims.size() >= 2) c.check(r.mn >= (ld)mn.value * mn.value - tol, "whole-min", PBT_S("magnitude " << (double)sqrtl(r.mn) << " in segment " << k << " at " << (double)r.tn << " is below the reported minimum " << mn.value));
  }
  c.nontrivial(t.K() >= 2 && mx.segment_idx > 0);
  double v, a;
  c.check(t.computeMaxVelocityAndAcceleration(&v, &a), "va-ok", "computeMaxVelocityAndAcceleration failed");
  std::vector<int> all;
  for (int i = 0; i < t.D(); ++i) all.push_back(i);
  Extremum e1, e2;
  t.computeMinMaxMagnitude(1, all, &e1, &e2);
  c.close(v, e2.value, 1e-12 * e2.value, "va-velocity", "maximum velocity");
  t.computeMinMaxMagnitude(2, all, &e1, &e2);
  c.close(a, e2.value, 1e-12 * e2.value, "va-acceleration", "maximum acceleration");
}

static void limits(pbt::Ctx& c) {
  TrajOpt o;
  o.kmax = 5;
  o.nmin = 2;
  Trajectory t = trajectory(c, o), t0 = t;
  double v0, a0;
  t.computeMaxVelocityAndAcceleration(&v0, &a0);
  // True maxima, by sampling, to choose limits around them.
  std::vector<int> all;
  for (int i = 0; i < t.D(); ++i) all.push_back(i);
  auto truth = [&](const Trajectory& x, int d) { ld m = 0; for (auto& s : x.segments()) m = std::max(m, brute(s, all, d, 0, s.getTime()).mx); return (double)sqrtl(m); };
  double vt = truth(t, 1), at = truth(t, 2);
  if (!(vt > 1e-9 && vt < 1e9 && at < 1e9)) throw pbt::Discard{};
  double vmax = vt * (c.s.chance(1, 4) ? 1.5 : c.s.logreal(0.05, 5)), amax = std::max(at, 1e-6) * (c.s.chance(1, 4) ? 1.5 : c.s.logreal(0.02, 5));
  c.desc << show(t) << " v_max=" << vmax << " a_max=" << amax << " (path: v=" << vt << " a=" << at << ")";
  bool ok = t.scaleSegmentTimesToMeetConstraints(vmax, amax);
  double v1 = truth(t, 1), a1 = truth(t, 2);
  c.check(ok, "limits-ok", "scaling reports failure");
  c.check(t.K() == t0.K() && t.D() == t0.D() && t.N() == t0.N(), "limits-shape", "shape changed");
  c.atmost(v1, vmax * 1.0015, "limits-velocity", "speed after scaling");
  c.atmost(a1, amax * 1.0015, "limits-acceleration", "acceleration after scaling");
  double f = t.getMaxTime() / t0.getMaxTime();
  c.check(f >= 1 - 1e-12, "limits-faster", PBT_S("trajectory made faster by " << f));
  if (vt <= vmax * 0.9999 && at <= amax * 0.9999) {
    c.label("within limits");
    c.check(t == t0 && t.getMaxTime() == t0.getMaxTime(), "limits-unchanged", "trajectory within the limits was changed");
  } else if (vt > vmax * 1.002 || at > amax * 1.002) {
    c.label("scaled");
    c.nontrivial();
    // As fast as the limits allow.
    c.check(v1 >= vmax * 0.998 || a1 >= amax * 0.996, "limits-slow", PBT_S("after scaling neither limit is reached: speed " << v1 << "/" << vmax << ", acceleration " << a1 << "/" << amax));
  }
  ld sum = 0;
  for (int k = 0; k < t.K(); ++k) {
    const Segment &p = t0.segments()[k], &q = t.segments()[k];
    sum += q.getTime();
    c.close(q.getTime(), p.getTime() * f, 1e-11 * p.getTime() * f, "limits-common", PBT_S("segment " << k << " is not stretched by the common factor " << f));
    for (int r = 0; r < 3; ++r) {
      double u = frac_time(c, 1.0);
      VectorXd got = q.evaluate(u * q.getTime(), 0);
      for (int i = 0; i < t.D(); ++i) {
        ld as, e = peval(cf(p[i]), (ld)u * p.getTime(), 0, &as);
        c.close(got[i], (double)e, (double)(1e-10L * as) + 1e-300, "limits-path", PBT_S("path changed at fraction " << u << " of segment " << k));
      }
    }
  }
  c.close(t.getMaxTime(), (double)sum, 1e-13 * (double)sum, "limits-total", "duration is not the sum of the segment times");
}

// Candidates by sampling: ordered times of the interval with both ends, among them the largest sampled magnitude.
template <int d> static void by_sampling(pbt::Ctx& c, const Segment& s, double a, double b, double dt) {
  std::vector<double> t;
  mtg::PolynomialOptimization<10>::computeSegmentMaximumMagnitudeCandidatesBySampling<d>(s, a, b, dt, &t);
  c.check(!t.empty() && t.front() == a && t.back() == b, "sampled-ends", "an end of the interval is no candidate");
  for (size_t i = 1; i < t.size(); ++i) c.check(t[i] > t[i - 1], "sampled-order", PBT_S("candidate " << t[i] << " after " << t[i - 1]));
  std::vector<int> dims;
  for (int i = 0; i < s.D(); ++i) dims.push_back(i);
  Brute r = brute(s, dims, d, a, b), slope = brute(s, dims, d + 1, a, b);
  ld best = 0;
  for (double x : t) best = std::max(best, sqrtl(mag2(s, dims, x, d)));
  ld tol = 1.55L * dt * sqrtl(slope.mx) * 1.001L + 1e-9L * sqrtl(scale2(s, dims, b, d)) + 1e-300L;
  c.metric("margin:sampled", (double)((sqrtl(r.mx) - best) / tol));
  c.check(sqrtl(r.mx) <= best + tol, "sampled-maximum", PBT_S("the largest magnitude " << (double)sqrtl(r.mx) << " at " << (double)r.tx << " is missed by the candidates, whose largest is " << (double)best));
  // Every candidate between the ends is near a turn of the magnitude: it exceeds, or undercuts, a neighbouring sample on both sides.
  for (size_t i = 1; i + 1 < t.size(); ++i) {
    double lo = std::max(a, t[i] - dt), hi = std::min(b, t[i] + dt);
    ld m = mag2(s, dims, t[i], d), l = mag2(s, dims, lo, d), h = mag2(s, dims, hi, d), e = 1e-9L * scale2(s, dims, b, d);
    c.check((m >= l - e && m >= h - e) || (m <= l + e && m <= h + e), "sampled-turn", PBT_S("candidate " << t[i] << " is no turn of the magnitude"));
  }
  c.nontrivial(r.tx > a && r.tx < b && t.size() > 2);
}
static void sampling(pbt::Ctx& c) {
  int n = c.s.irange(6, 12), D = c.s.irange(1, 4);
  double T = seg_time(c, false);
  Segment s = segment(c, n, D, T, (int)c.s.below(4));
  double a = 0, b = T;
  if (c.s.chance(1, 3)) { a = T * c.s.unit() * 0.5; b = a + (T - a) * (0.2 + 0.8 * c.s.unit()); }
  double dt = (b - a) / c.s.logreal(1.5, 300);
  int d = (int)c.s.below(4);
  c.desc << show(s) << " d=" << d << " [" << a << "," << b << "] every " << dt;
  switch (d) {
    case 0: by_sampling<0>(c, s, a, b, dt); break;
    case 1: by_sampling<1>(c, s, a, b, dt); break;
    case 2: by_sampling<2>(c, s, a, b, dt); break;
    default: by_sampling<3>(c, s, a, b, dt);
  }
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"segment", 4, segment_part}, {"whole", 3, whole}, {"limits", 3, limits}, {"sampling", 1, sampling}});
}
