// C20: segment time estimates.
#include "gen.hpp"
using namespace gen;
using mtg::Vertex;

static VectorXd point(pbt::Ctx& c, int D) {
  VectorXd p(D);
  double range = c.s.pick(std::vector<double>{1, 10, 100, 0.01});
  for (int i = 0; i < D; ++i) p[i] = c.s.real(-range, range);
  return p;
}
struct Problem { Vertex::Vector v; std::vector<VectorXd> p; std::vector<int> rest; double vm, am; int D; };
static Problem problem(pbt::Ctx& c) {
  Problem q;
  q.D = c.s.irange(1, 4);
  int n = c.s.sized(2, 8, 60);
  q.vm = c.s.chance(1, 4) ? 1 : c.s.logreal(0.05, 30);
  q.am = c.s.chance(1, 4) ? 9.81 : c.s.logreal(0.1, 50);
  for (int i = 0; i < n; ++i) {
    VectorXd p = point(c, q.D);
    if (i && c.s.chance(1, 6)) p = q.p.back();                                        // zero-length leg
    else if (i && c.s.chance(1, 6)) { p = q.p.back(); p[0] += c.s.logreal(1e-9, 1); }  // short leg
    Vertex v(q.D);
    v.addConstraint(0, p);
    // 0: no velocity constraint, 1: rest, 2: moving
    int rest = (int)c.s.below(3);
    if (rest == 1) { if (c.s.chance(1, 2)) v.makeStartOrEnd(p, c.s.irange(1, 4)); else v.addConstraint(1, VectorXd::Zero(q.D)); }
    if (rest == 2) { VectorXd w = VectorXd::Zero(q.D); w[c.s.below(q.D)] = c.s.logreal(1e-3, 10) * (c.s.chance(1, 2) ? -1 : 1); v.addConstraint(1, w); }
    if (c.s.chance(1, 5)) v.addConstraint(2, VectorXd::Zero(q.D));
    q.v.push_back(v);
    q.p.push_back(p);
    q.rest.push_back(rest);
  }
  c.desc << "v_max=" << q.vm << " a_max=" << q.am;
  for (int i = 0; i < n; ++i) c.desc << " " << vs(q.p[i]) << "r" << q.rest[i];
  c.nontrivial(n >= 3);
  return q;
}
static double ramp(double d, double v, double a) {  // rest to rest, limited speed and acceleration
  double cruise = d - v * v / a;
  return cruise < 0 ? 2 * std::sqrt(d / a) : 2 * v / a + cruise / v;
}

static void formula(pbt::Ctx& c) {
  Problem q = problem(c);
  auto f = mtg::estimateSegmentTimesNfabian(q.v, q.vm, q.am), e = mtg::estimateSegmentTimes(q.v, q.vm, q.am),
       r = mtg::estimateSegmentTimesVelocityRamp(q.v, q.vm, q.am);
  size_t n = q.v.size() - 1;
  c.check(f.size() == n && r.size() == n && e.size() == n, "count", "number of times is not the number of legs");
  for (size_t i = 0; i < n; ++i) {
    double d = (q.p[i + 1] - q.p[i]).norm();
    bool rest = q.rest[i] == 1 || q.rest[i + 1] == 1;
    double want = d / q.vm + (rest ? q.vm / q.am : 0);
    for (double t : {f[i], e[i], r[i]}) c.check(t > 0 && std::isfinite(t), "positive", PBT_S("time " << t << " for leg " << i << " of length " << d));
    for (double t : {f[i], e[i]}) {
      c.label(want < 0.1 ? "minimum time" : rest ? "rest" : "moving");
      if (want >= 0.1) c.close(t, want, 1e-9 * want, "straight", PBT_S("time of leg " << i << " (length " << d << ", rest " << rest << ")"));
      else c.check(t >= want * (1 - 1e-9) && t <= 0.1 * (1 + 1e-9), "straight-short", PBT_S("time of short leg " << i << ": " << t));
    }
    double w = std::max(0.1, ramp(d, q.vm, q.am));
    c.label(d < q.vm * q.vm / q.am ? "ramp triangle" : "ramp trapezoid");
    c.close(r[i], w, 1e-9 * w, "ramp", PBT_S("velocity-ramp time of leg " << i << " (length " << d << ")"));
    double cr = mtg::computeTimeVelocityRamp(q.p[i], q.p[i + 1], q.vm, q.am);
    c.close(cr, ramp(d, q.vm, q.am), 1e-9 * w, "computeramp", "computeTimeVelocityRamp");
    // Magic constant is not used by the straight-line estimate; the time factor stretches the ramp.
    double k = 1 + 4 * c.s.unit();
    auto rk = mtg::estimateSegmentTimesVelocityRamp(q.v, q.vm, q.am, k);
    double a1 = std::max(0.1, k * ramp(d, q.vm, q.am)), a2 = k * w;
    c.check(std::fabs(rk[i] - a1) <= 1e-9 * a1 || std::fabs(rk[i] - a2) <= 1e-9 * a2, "factor", PBT_S("time factor " << k << " gives " << rk[i] << " instead of " << a1));
  }
}

static void relations(pbt::Ctx& c) {
  Problem q = problem(c);
  auto f = mtg::estimateSegmentTimesNfabian(q.v, q.vm, q.am), r = mtg::estimateSegmentTimesVelocityRamp(q.v, q.vm, q.am);
  size_t n = q.v.size() - 1;
  auto near = [&](double a, double b, const char* tag, const char* what) { c.close(a, b, 1e-6 * std::max(a, b), tag, what); };
  // A leg on its own gets the same time.
  size_t i = c.s.below(n);
  Vertex::Vector two{q.v[i], q.v[i + 1]};
  near(mtg::estimateSegmentTimesNfabian(two, q.vm, q.am)[0], f[i], "local", "leg on its own");
  near(mtg::estimateSegmentTimesVelocityRamp(two, q.vm, q.am)[0], r[i], "local", "leg on its own");
  // Reversing the list reverses the times.
  Vertex::Vector rev(q.v.rbegin(), q.v.rend());
  auto fr = mtg::estimateSegmentTimesNfabian(rev, q.vm, q.am), rr = mtg::estimateSegmentTimesVelocityRamp(rev, q.vm, q.am);
  for (size_t k = 0; k < n; ++k) { near(fr[n - 1 - k], f[k], "reverse", "reversed list"); near(rr[n - 1 - k], r[k], "reverse", "reversed list"); }
  // Rotating (in one plane), reflecting and moving the list changes nothing.
  double ang = c.s.unit() * 6.28;
  VectorXd sh = point(c, q.D);
  Vertex::Vector mv;
  for (size_t k = 0; k <= n; ++k) {
    auto rot = [&](VectorXd x) { if (q.D >= 2) { double a = std::cos(ang) * x[0] - std::sin(ang) * x[1], b = std::sin(ang) * x[0] + std::cos(ang) * x[1]; x[0] = a; x[1] = b; } else x[0] = -x[0]; return x; };
    Vertex v(q.D);
    for (auto it = q.v[k].cBegin(); it != q.v[k].cEnd(); ++it) v.addConstraint(it->first, it->first == 0 ? VectorXd(rot(it->second) + sh) : rot(it->second));
    mv.push_back(v);
  }
  auto fm = mtg::estimateSegmentTimesNfabian(mv, q.vm, q.am), rm = mtg::estimateSegmentTimesVelocityRamp(mv, q.vm, q.am);
  for (size_t k = 0; k < n; ++k) {
    double d = (q.p[k + 1] - q.p[k]).norm();
    if (d < 1e-6) continue;  // cancellation against the shift
    c.close(fm[k], f[k], 1e-6 * f[k] + 1e-12 * 400 / q.vm, "motion", "moved list");
    c.close(rm[k], r[k], 1e-5 * r[k], "motion", "moved list");
  }
  // Longer legs never take less time, higher limits never more (velocity ramp).
  double g = 1 + 3 * c.s.unit();
  Vertex::Vector big;
  for (size_t k = 0; k <= n; ++k) {
    Vertex v = q.v[k];
    v.addConstraint(0, VectorXd(q.p[k] * g));
    big.push_back(v);
  }
  auto fb = mtg::estimateSegmentTimesNfabian(big, q.vm, q.am), rb = mtg::estimateSegmentTimesVelocityRamp(big, q.vm, q.am);
  auto rv = mtg::estimateSegmentTimesVelocityRamp(q.v, q.vm * g, q.am), ra = mtg::estimateSegmentTimesVelocityRamp(q.v, q.vm, q.am * g), fa = mtg::estimateSegmentTimesNfabian(q.v, q.vm, q.am * g);
  for (size_t k = 0; k < n; ++k) {
    double s = 1 + 1e-9;
    c.check(fb[k] * s >= f[k] && rb[k] * s >= r[k], "mono-distance", PBT_S("a " << g << " times longer leg takes less time: " << fb[k] << "<" << f[k] << " or " << rb[k] << "<" << r[k]));
    c.check(rv[k] <= r[k] * s, "mono-speed", PBT_S("more speed takes longer: " << rv[k] << " > " << r[k]));
    c.check(ra[k] <= r[k] * s && fa[k] <= f[k] * s, "mono-acc", PBT_S("more acceleration takes longer: " << ra[k] << " > " << r[k]));
  }
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"formula", 1, formula}, {"relations", 1, relations}}); }
