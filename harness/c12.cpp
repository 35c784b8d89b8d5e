// C12: trajectories are the concatenation of their segments under every operation.
#include "gen.hpp"
#include <dynamic_trajectory_generator/thread_safe_trajectory.hpp>
using namespace gen;
using mtg::Segment;
using mtg::Trajectory;
using mtg::Vertex;

static std::vector<ld> starts(const Trajectory& t) {
  std::vector<ld> s{0};
  for (auto& g : t.segments()) s.push_back(s.back() + (ld)g.getTime());
  return s;
}
// Accepts the value of any segment whose (rounding-widened) time range contains t.
static void at(pbt::Ctx& c, const Trajectory& t, double time, int d, const VectorXd& got, const char* tag, const std::string& what,
               bool right_only = false, int only_dim = -1, double slack = 0) {
  auto st = starts(t);
  ld eps = 32 * kEps * (st.back() + fabs(time)) + slack;
  c.check((int)got.size() == (only_dim >= 0 ? 1 : t.D()), tag, what + ": wrong dimension");
  for (int i = 0; i < (int)got.size(); ++i) {
    int dim = only_dim >= 0 ? only_dim : i;
    bool ok = false;
    std::string exp;
    double best = INFINITY;
    int n = t.K();
    for (int k = 0; k < n; ++k) {
      bool in = right_only ? ((ld)time >= st[k] && ((ld)time < st[k + 1] || k == n - 1)) : (time >= st[k] - eps && time <= st[k + 1] + eps);
      if (!in) continue;
      ld tol, v = seg_value(t.segments()[k], dim, (ld)time - st[k], d, eps, &tol);
      double err = (double)(fabsl(v - (ld)got[i]) / tol);
      best = std::min(best, err);
      if (err <= 1) ok = true;
      exp += PBT_S(" " << (double)v << "(segment " << k << ")");
    }
    c.metric(std::string("margin:") + tag, best);
    c.check(ok, tag, PBT_S(what << " at t=" << time << " derivative " << d << " dimension " << dim << ": got " << got[i] << ", expected" << exp));
  }
}
static double some_time(pbt::Ctx& c, const Trajectory& t) {
  auto st = starts(t);
  switch (c.s.below(4)) {
    case 0: { double x = (double)st[c.s.below(st.size())]; return std::min(x, t.getMaxTime()); }
    default: return std::min(t.getMaxTime(), t.getMaxTime() * c.s.unit());
  }
}
static void same_everywhere(pbt::Ctx& c, const Trajectory& t, const Trajectory& u, const char* tag) {
  for (int i = 0; i < 4; ++i) {
    double x = some_time(c, t);
    int d = (int)c.s.below(5);
    at(c, t, x, d, u.evaluate(x, d), tag, tag);
  }
}
static void duration(pbt::Ctx& c, const Trajectory& t, const char* tag) {
  auto st = starts(t);
  c.close(t.getMaxTime(), (double)st.back(), (double)(16 * kEps * st.back()), tag, "duration");
  c.check(t.getMinTime() == 0, tag, "start time is not 0");
  auto v = t.getSegmentTimes();
  c.check((int)v.size() == t.K(), tag, "number of segment times");
  for (int k = 0; k < t.K(); ++k) c.check(v[k] == t.segments()[k].getTime(), tag, "segment times differ");
}

static void evaluation(pbt::Ctx& c) {
  bool dy;
  Trajectory t = trajectory(c, TrajOpt(), &dy);
  double x = some_time(c, t);
  int d = (int)c.s.below(6);
  c.desc << show(t) << " t=" << x << " d=" << d;
  c.nontrivial(t.K() >= 2 && x > 0);
  c.label(PBT_S("K=" << t.K()));
  duration(c, t, "duration");
  VectorXd g = t.evaluate(x, d);
  at(c, t, x, d, g, "evaluate", "evaluate", dy);
  if (dy) c.label("exact vertex rule");
  // Outside.
  double out = t.getMaxTime() * (1 + c.s.logreal(1e-9, 10)) + 1e-12;
  VectorXd z = t.evaluate(out, d);
  c.check(z.size() == t.D() && z.isZero(0), "outside", PBT_S("value " << vs(z) << " after the end at " << out));
  std::vector<VectorXd> zr(2, g);
  std::vector<double> zt(3, 1.0);
  t.evaluateRange(out, out + c.s.unit(), 0.1, d, &zr, &zt);
  c.check(zr.empty() && zt.empty(), "outside-range", "values for a range after the end");
  // Single segments.
  int k = (int)c.s.below(t.K());
  const Segment& s = t.segments()[k];
  double y = frac_time(c, s.getTime());
  VectorXd sv = s.evaluate(y, d);
  c.check((int)sv.size() == s.D(), "segment-dim", "segment value has the wrong dimension");
  for (int i = 0; i < s.D(); ++i) {
    ld tol, v = seg_value(s, i, y, d, 0, &tol);
    c.close(sv[i], (double)v, (double)tol, "segment", PBT_S("segment " << k << " dimension " << i << " derivative " << d << " at " << y));
  }
  Segment one(1, 1);
  int dim = (int)c.s.below(t.D());
  c.check(s.getSegmentWithSingleDimension(dim, &one) && one.D() == 1 && one.N() == s.N() && one.getTime() == s.getTime() && one[0] == s[dim], "segment-single", "single dimension of a segment");
  Segment keep = one;
  c.check(!s.getSegmentWithSingleDimension(s.D(), &one) && !s.getSegmentWithSingleDimension(-1, &one) && one == keep, "segment-single-refuse", "dimension that does not exist accepted");
  c.check(s != one || (s.N() == one.N() && s.D() == 1), "segment-differs", "segments of different dimension compare equal");
  c.check(!(s != s), "segment-equal", "a segment differs from itself");
  int os = c.s.irange(0, 6);
  VectorXd off = coefs(c, os);
  Segment moved = s;
  bool ok = moved.offsetSegment(off);
  c.check(ok == (os >= std::min(s.D(), 3)), "segment-offset-result", PBT_S("offset by " << os << " components returned " << ok));
  if (!ok) c.check(moved == s, "segment-offset-refused", "refused offset changed the segment");
  else for (int i = 0; i < s.D(); ++i) {
    ld tol, v = seg_value(s, i, y, 0, 0, &tol);
    c.close(moved.evaluate(y, 0)[i], (double)(v + (i < 3 ? (ld)off[i] : 0)), (double)tol + 64 * kEps * (i < 3 ? std::fabs(off[i]) : 0), "segment-offset", "offset segment");
  }
  Segment whole(0, 0);
  c.check(s.getSegmentWithAppendedDimension(Segment(0, 0), &whole) && whole == s, "segment-append-nothing", "appending an empty segment changes the segment");
  c.check(Segment(0, 0).getSegmentWithAppendedDimension(s, &whole) && whole == s, "segment-append-to-nothing", "appending to an empty segment changes the segment");
  c.check(s.getPolynomialsRef().size() == (size_t)s.D() && s.getPolynomialsRef()[dim] == s[dim], "polynomials", "polynomials differ");
}

static void range(pbt::Ctx& c) {
  TrajOpt o;
  o.dmax = 3;
  Trajectory t = trajectory(c, o);
  double T = t.getMaxTime();
  double a = c.s.chance(1, 4) ? 0 : c.s.chance(1, 12) ? T : some_time(c, t), b = c.s.chance(1, 3) ? T : a + (T - a) * c.s.unit();
  if (c.s.chance(1, 12)) b = a;
  b = std::min(std::max(a, b), T);
  double dt = T / c.s.irange(1, 60) * (c.s.chance(1, 2) ? 1 : 0.37 + c.s.unit());
  int d = (int)c.s.below(5);
  c.desc << show(t) << " range [" << a << "," << b << "] dt=" << dt << " d=" << d;
  std::vector<VectorXd> r(3, VectorXd::Zero(1)), r2;
  std::vector<double> ts(2, -1.0);
  t.evaluateRange(a, b, dt, d, &r, &ts);
  t.evaluateRange(a, b, dt, d, &r2);
  c.check(r2.size() == r.size(), "range-forms", "with and without sampling times differ");
  for (size_t i = 0; i < r.size(); ++i) c.check(r[i] == r2[i], "range-forms", "with and without sampling times differ");
  c.check(ts.size() == r.size(), "range-times-size", PBT_S(ts.size() << " times for " << r.size() << " values"));
  double eps = 1e-12 * T * (1 + (b - a) / dt);
  // Samples are at a, a+dt, ... up to b (a sample that falls on b itself is optional).
  size_t must = 0;
  while (a + must * dt < b - eps) ++must;
  c.check(r.size() >= must, "range-missing", PBT_S(r.size() << " samples, at least " << must << " expected"));
  for (size_t i = 0; i < r.size(); ++i) {
    double x = a + i * dt;
    c.check(x <= b + eps, "range-beyond", PBT_S("sample " << i << " of " << r.size() << " lies beyond the end of the range"));
    c.close(ts[i], x, eps, "range-time", PBT_S("time of sample " << i));
    at(c, t, std::min(x, T), d, r[i], "range-value", PBT_S("sample " << i), false, -1, eps);
  }
  c.nontrivial(t.K() >= 2 && a > t.segments()[0].getTime() && r.size() >= 2);
  if (a > t.segments()[0].getTime()) c.label("starts after the first segment");
  if (a == T) c.label("starts at the end");
}

static void dimensions(pbt::Ctx& c) {
  bool dy;
  Trajectory t = trajectory(c, TrajOpt(), &dy);
  c.desc << show(t);
  int dim = (int)c.s.below(t.D());
  Trajectory one = t.getTrajectoryWithSingleDimension(dim);
  c.check(one.D() == 1 && one.N() == t.N() && one.K() == t.K(), "single-shape", "shape of a single-dimension trajectory");
  duration(c, one, "single-duration");
  c.close(one.getMaxTime(), t.getMaxTime(), 1e-15 * t.getMaxTime(), "single-time", "duration of a single-dimension trajectory");
  for (int i = 0; i < 3; ++i) {
    double x = some_time(c, t);
    int d = (int)c.s.below(4);
    at(c, t, x, d, one.evaluate(x, d), "single-value", "single dimension", false, dim);
  }
  // Append another trajectory with the same number of segments; it may have another order and other times.
  int mode = (int)c.s.below(4);
  TrajOpt o;
  int N2 = mode == 0 || mode == 1 ? t.N() : c.s.irange(1, 12);
  Trajectory u = trajectory(c, o, nullptr, N2, c.s.irange(1, 3), t.K());
  if (mode == 0 || mode == 2) {  // same times
    Segment::Vector s = u.segments();
    for (int k = 0; k < t.K(); ++k) s[k].setTime(t.segments()[k].getTime());
    u.setSegments(s);
  }
  c.desc << " appended " << show(u);
  c.label(PBT_S("append " << (t.N() == u.N() ? "same order" : "other order") << (mode % 2 ? ", other times" : ", same times")));
  c.nontrivial(t.K() >= 2 && mode != 0);
  Trajectory t0 = t, u0 = u, w;
  c.check(t.getTrajectoryWithAppendedDimension(u, &w), "append-ok", "appending dimensions failed");
  c.check(t == t0 && u == u0, "append-pure", "operands changed");
  c.check(w.D() == t.D() + u.D() && w.K() == t.K() && w.N() == std::max(t.N(), u.N()), "append-shape", "shape of the appended trajectory");
  duration(c, w, "append-duration");
  for (int k = 0; k < t.K(); ++k) {
    const Segment &a = t.segments()[k], &b = u.segments()[k], &r = w.segments()[k];
    double T = std::max(a.getTime(), b.getTime());
    c.close(r.getTime(), T, 1e-15 * T, "append-time", PBT_S("duration of segment " << k));
    for (int q = 0; q < 2; ++q) {
      double y = frac_time(c, T);
      int d = (int)c.s.below(3);
      VectorXd v = r.evaluate(y, d);
      for (int i = 0; i < w.D(); ++i) {
        const Segment& src = i < t.D() ? a : b;
        ld f = (ld)src.getTime() / T;  // stretched: same path, slower
        ld as, e = peval(cf(src[i < t.D() ? i : i - t.D()]), (ld)y * f, d, &as) * powl(f, d);
        c.close(v[i], (double)e, (double)(512 * kEps * as * powl(f, d)) + 1e-300, "append-value", PBT_S("appended dimension " << i << " segment " << k << " derivative " << d << " at " << y));
      }
    }
  }
  Trajectory empty, x;
  c.check(empty.getTrajectoryWithAppendedDimension(t, &x) && x == t, "append-empty", "appending to an empty trajectory");
  c.check(t.getTrajectoryWithAppendedDimension(empty, &x) && x == t, "append-empty", "appending an empty trajectory");
}

static void joining(pbt::Ctx& c) {
  TrajOpt o;
  o.kmax = 3;
  Trajectory t = trajectory(c, o);
  int n = c.s.sized(0, 3, 12);
  std::vector<Trajectory> add;
  bool bad = c.s.chance(1, 4) && n > 0;
  int badi = bad ? (int)c.s.below(n) : -1;
  for (int i = 0; i < n; ++i) {
    bool other_n = i == badi && c.s.chance(1, 2);
    add.push_back(trajectory(c, o, nullptr, other_n ? t.N() % 12 + 1 : t.N(), i == badi && !other_n ? t.D() % 4 + 1 : t.D()));
  }
  c.desc << show(t);
  for (auto& a : add) c.desc << " + " << show(a);
  c.nontrivial(n >= 1);
  Trajectory t0 = t, m = trajectory(c, o);
  bool ok = t.addTrajectories(add, &m);
  c.check(ok == (badi < 0), "join-result", PBT_S("joining returned " << ok));
  c.check(t == t0, "join-pure", "source changed by joining");
  if (ok) {
    Segment::Vector exp = t.segments();
    for (auto& a : add) exp.insert(exp.end(), a.segments().begin(), a.segments().end());
    c.check(m.K() == (int)exp.size() && m.D() == t.D() && m.N() == t.N(), "join-shape", "shape of the joined trajectory");
    for (size_t i = 0; i < exp.size(); ++i) c.check(m.segments()[i] == exp[i], "join-segments", PBT_S("segment " << i << " of the joined trajectory differs"));
    duration(c, m, "join-duration");
    Trajectory ref;
    ref.setSegments(exp);
    c.check(ref == m && !(ref != m), "join-equal", "joined trajectory differs from the concatenation");
    same_everywhere(c, ref, m, "join-value");
  }
  // addSegments keeps the running total.
  Trajectory q = t;
  q.addSegments(t.segments());
  c.check(q.K() == 2 * t.K(), "addsegments", "number of segments");
  duration(c, q, "addsegments-duration");
  Segment::Vector got;
  q.getSegments(&got);
  c.check(got == q.segments(), "getsegments", "getSegments differs");
  q.setSegments(t.segments());
  c.check(q == t, "setsegments", "setSegments keeps old segments");
  duration(c, q, "setsegments-duration");
  q.clear();
  c.check(q.empty() && q.K() == 0 && q.D() == 0 && q.N() == 0 && q.getMaxTime() == 0, "clear", "clear");
}

static void transforms(pbt::Ctx& c) {
  Trajectory t = trajectory(c, TrajOpt());
  c.desc << show(t);
  c.nontrivial(t.K() >= 2);
  // Offset (first three dimensions).
  int size = c.s.irange(0, 6);
  VectorXd off = coefs(c, size);
  Trajectory o = t;
  bool ok = o.offsetTrajectory(off);
  c.desc << " offset " << vs(off);
  c.check(ok == (size >= std::min(t.D(), 3)), "offset-result", PBT_S("offset by " << size << " components returned " << ok));
  if (!ok) c.check(o == t, "offset-refused", "refused offset changed the trajectory");
  else {
    c.check(o.K() == t.K() && o.D() == t.D() && o.getMaxTime() == t.getMaxTime(), "offset-shape", "shape changed by an offset");
    for (int k = 0; k < t.K(); ++k)
      for (int i = 0; i < t.D(); ++i) {
        double y = frac_time(c, t.segments()[k].getTime());
        for (int d = 0; d < 3; ++d) {
          ld as, e = peval(cf(t.segments()[k][i]), y, d, &as) + (d == 0 && i < 3 ? (ld)off[i] : 0.0L);
          c.close(o.segments()[k].evaluate(y, d)[i], (double)e, (double)(64 * kEps * (as + (i < 3 ? fabsl(off[i]) : 0))) + 1e-300, "offset-value", PBT_S("offset segment " << k << " dimension " << i << " derivative " << d));
        }
      }
  }
  // Time scaling.
  double s = c.s.chance(1, 8) ? c.s.logreal(1e-12, 9e-7) : c.s.chance(1, 6) ? 1 : c.s.logreal(0.05, 20);
  Trajectory u = t;
  ok = u.scaleSegmentTimes(s);
  c.desc << " scale " << s;
  c.check(ok == (s >= 1e-6), "scale-result", PBT_S("scaling by " << s << " returned " << ok));
  if (!ok) c.check(u == t && u.getMaxTime() == t.getMaxTime(), "scale-refused", "refused scaling changed the trajectory");
  else {
    duration(c, u, "scale-duration");
    for (int k = 0; k < t.K(); ++k) {
      c.close(u.segments()[k].getTime(), t.segments()[k].getTime() * s, 4 * kEps * t.segments()[k].getTime() * s, "scale-time", "scaled segment time");
      double f = frac_time(c, 1.0);
      int d = (int)c.s.below(4);
      VectorXd v = u.segments()[k].evaluate(f * u.segments()[k].getTime(), d);
      for (int i = 0; i < t.D(); ++i) {
        ld as, e = peval(cf(t.segments()[k][i]), f * (ld)t.segments()[k].getTime(), d, &as) / powl(s, d);
        c.close(v[i], (double)e, (double)(512 * kEps * as / powl(s, d)) + 1e-300, "scale-value", PBT_S("scaled segment " << k << " dimension " << i << " derivative " << d));
      }
    }
  }
}

static void vertices(pbt::Ctx& c) {
  TrajOpt o;
  o.nmin = 2;
  bool four = c.s.chance(1, 3);
  Trajectory t = trajectory(c, o, nullptr, 0, four ? 4 : 0);
  int m = (int)c.s.below(5);
  c.desc << show(t) << " order " << m;
  c.nontrivial(t.K() >= 2 && m >= 1);
  auto check_vertex = [&](const Vertex& v, double time, int order, const char* tag) {
    c.check(v.D() == t.D() && (int)v.getNumberOfConstraints() == order + 1, tag, PBT_S("vertex has " << v.getNumberOfConstraints() << " constraints, expected " << order + 1));
    for (int d = 0; d <= order; ++d) {
      VectorXd q;
      c.check(v.getConstraint(d, &q), tag, PBT_S("derivative " << d << " missing"));
      at(c, t, time, d, q, tag, "vertex");
    }
  };
  double x = some_time(c, t);
  check_vertex(t.getVertexAtTime(x, m), x, m, "vertex-at");
  check_vertex(t.getStartVertex(m), 0, m, "vertex-start");
  check_vertex(t.getGoalVertex(m), t.getMaxTime(), m, "vertex-goal");
  Vertex::Vector vs_;
  c.check(t.getVertices(m, &vs_) && (int)vs_.size() == t.K() + 1, "vertices-count", PBT_S(vs_.size() << " vertices for " << t.K() << " segments"));
  auto st = starts(t);
  for (int k = 0; k <= t.K(); ++k) check_vertex(vs_[k], (double)st[k], m, "vertices");
  if (four) {
    int my = (int)c.s.below(4);
    Vertex::Vector p, y;
    c.check(t.getVertices(m, my, &p, &y) && (int)p.size() == t.K() + 1 && (int)y.size() == t.K() + 1, "vertices2-count", "number of position and heading vertices");
    for (int k = 0; k <= t.K(); ++k) {
      c.check(p[k].D() == 3 && y[k].D() == 1 && (int)p[k].getNumberOfConstraints() == m + 1 && (int)y[k].getNumberOfConstraints() == my + 1, "vertices2-shape", "shape of position or heading vertex");
      for (int d = 0; d <= m; ++d) {
        VectorXd q;
        c.check(p[k].getConstraint(d, &q) && q.size() == 3, "vertices2", "position constraint missing");
        for (int i = 0; i < 3; ++i) { VectorXd one(1); one[0] = q[i]; at(c, t, (double)st[k], d, one, "vertices2-pos", "position vertex", false, i); }
      }
      for (int d = 0; d <= my; ++d) {
        VectorXd q;
        c.check(y[k].getConstraint(d, &q) && q.size() == 1, "vertices2", "heading constraint missing");
        at(c, t, (double)st[k], d, q, "vertices2-yaw", "heading vertex", false, 3);
      }
    }
  }
}

static void equality(pbt::Ctx& c) {
  Trajectory t = trajectory(c, TrajOpt());
  c.desc << show(t);
  c.nontrivial();
  Trajectory u;
  u.setSegments(t.segments());
  c.check(u == t && !(u != t), "equal", "equal segment sequences compare different");
  Segment::Vector s = t.segments();
  int k = (int)c.s.below(s.size());
  int how = (int)c.s.below(4);
  if (how == 0) s[k].setTime(std::nextafter(s[k].getTime(), 1e9));
  else if (how == 1) { int i = (int)c.s.below(t.D()); VectorXd q = cf(s[k][i]); int j = (int)c.s.below(q.size()); q[j] = std::nextafter(q[j], 1e300); s[k][i] = mtg::Polynomial(q); }
  else if (how == 2) s.push_back(s[k]);
  else if (s.size() > 1) s.pop_back();
  else s.push_back(s[0]);
  u.setSegments(s);
  c.desc << " change " << how << " at " << k;
  c.check(u != t && !(u == t), "differ", "different segment sequences compare equal");
  // Another dimension or order.
  Trajectory v = trajectory(c, TrajOpt(), nullptr, t.N() % 12 + 1, t.D(), t.K()), w = trajectory(c, TrajOpt(), nullptr, t.N(), t.D() % 4 + 1, t.K());
  c.check(!(v == t) && !(w == t), "differ-shape", "trajectories of different shape compare equal");
  // Nanosecond accessors of a segment.
  Segment g(1, 1);
  uint64_t ns = c.s.below(4000000000000ull);
  g.setTimeNSec(ns);
  c.close(g.getTime(), ns * 1e-9, 1e-15 * (1 + ns * 1e-9), "nsec-set", "setTimeNSec");
  c.check(g.getTimeNSec() == ns, "nsec-get", PBT_S("setTimeNSec(" << ns << ") gives " << g.getTimeNSec()));
}

// A trajectory without segments, and one that has been cleared.
static void none(pbt::Ctx& c) {
  Trajectory n, t = trajectory(c, TrajOpt());
  c.desc << show(t);
  c.nontrivial();
  auto is_empty = [&](const Trajectory& x, const char* what) {
    c.check(x.D() == 0 && x.N() == 0 && x.K() == 0 && x.empty() && x.segments().empty() && x.getMinTime() == 0 && x.getMaxTime() == 0 && x.getSegmentTimes().empty(), "empty", what);
  };
  is_empty(n, "a new trajectory is not empty");
  c.check(!t.empty() && n != t && !(n == t), "empty-differ", "a trajectory with segments equals one without");
  Trajectory u = t;
  u.clear();
  is_empty(u, "a cleared trajectory is not empty");
  c.check(u == n, "empty-equal", "trajectories without segments differ");
  u.setSegments(t.segments());
  c.check(u == t && u.getMaxTime() == t.getMaxTime(), "refill", "a cleared and refilled trajectory differs from the original");
}

// The holder shared between threads answers as the trajectory last put into it.
static void holder(pbt::Ctx& c) {
  std::vector<std::shared_ptr<Trajectory>> ts;
  int nt = c.s.irange(1, 3);
  for (int i = 0; i < nt; ++i) ts.push_back(std::make_shared<Trajectory>(trajectory(c, TrajOpt())));
  auto hold = [&](int i) { auto p = ts[i]; return ThreadSafeTrajectory(std::move(p)); };
  ThreadSafeTrajectory h[3];
  int held[3] = {-1, -1, -1};
  int n = c.s.sized(1, 8, 40), changes = 0;
  for (int i = 0; i < n; ++i) {
    int a = (int)c.s.below(3), b = (int)c.s.below(3), k = (int)c.s.below(nt);
    switch (c.s.below(4)) {
      case 0: case 1: h[a] = hold(k); held[a] = k; c.desc << " #" << a << "=" << k; break;
      case 2: h[a] = h[b]; held[a] = held[b]; c.desc << " #" << a << "=#" << b; break;
      default: { ThreadSafeTrajectory x(h[b]), y(std::move(x)); h[a] = y; held[a] = held[b]; c.desc << " #" << a << "=copy of #" << b; }
    }
    ++changes;
    for (int j = 0; j < 3; ++j) {
      c.check((h[j] == nullptr) == (held[j] < 0) && (h[j] != nullptr) == (held[j] >= 0), "holder-empty", "holder empty or not");
      for (int q = 0; q < 3; ++q) c.check((h[j] == h[q]) == (held[j] == held[q]) && (h[j] != h[q]) == (held[j] != held[q]), "holder-equal", "holders compared");
      if (held[j] < 0) continue;
      const Trajectory& t = *ts[held[j]];
      double x = some_time(c, t);
      int d = (int)c.s.below(4);
      c.check(h[j].getMinTime() == 0 && h[j].getMaxTime() == t.getMaxTime(), "holder-times", "beginning or end");
      c.check(h[j].evaluate(x, d) == t.evaluate(x, d), "holder-value", "value");
      c.check(h[j].evaluate(x) == t.evaluate(x, 0), "holder-position", "value without derivative");
      c.check(h[j].getSegments() == t.segments(), "holder-segments", "segments");
      Vertex::Vector v, w = h[j].getWaypoints();
      t.getVertices(0, &v);
      bool same = v.size() == w.size();
      for (size_t q = 0; same && q < v.size(); ++q) same = v[q].isEqualTol(w[q], 0);
      c.check(same, "holder-waypoints", "waypoints");
    }
  }
  c.nontrivial(changes >= 2 && nt >= 2);
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"evaluation", 4, evaluation}, {"range", 4, range}, {"dimensions", 4, dimensions},
                                    {"joining", 2, joining}, {"transforms", 3, transforms}, {"vertices", 2, vertices}, {"equality", 1, equality}, {"holder", 1, holder}, {"none", 1, none}});
}
