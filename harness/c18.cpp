// C18: sampled states.
#include <mav_trajectory_generation/trajectory_sampling.h>

#include "gen.hpp"
#include "rot.hpp"
using namespace gen;
typedef mav_msgs::EigenTrajectoryPoint Point;
using Eigen::Vector3d;

static double scale_of(const mtg::Trajectory& t, int d) {  // bound of the d-th derivative over the trajectory
  double m = 0;
  for (auto& s : t.segments())
    for (int i = 0; i < s.D(); ++i) m = std::max(m, (double)peval(cf(s[i]).cwiseAbs(), s.getTime(), d));
  return m;
}
// Compares a state with the trajectory's own values (val(d) = d-th derivative at that time).
template <class F>
static void state_is(pbt::Ctx& c, const Point& s, F val, int D, const std::vector<double>& sc, double slack, const std::string& at) {
  auto vec = [&](const Vector3d& got, int d, const char* tag) {
    VectorXd w = val(d);
    for (int i = 0; i < 3; ++i) c.close(got[i], w[i], 256 * kEps * sc[d] + slack * sc[d + 1] + 1e-300, tag, PBT_S(tag << " component " << i << " " << at));
  };
  vec(s.position_W, 0, "position");
  vec(s.velocity_W, 1, "velocity");
  vec(s.acceleration_W, 2, "acceleration");
  vec(s.jerk_W, 3, "jerk");
  vec(s.snap_W, 4, "snap");
  VectorXd p = val(0), v = val(1), a = val(2);
  double e0 = 256 * kEps * sc[0] + slack * sc[1], e1 = 256 * kEps * sc[1] + slack * sc[2], e2 = 256 * kEps * sc[2] + slack * sc[3];
  if (D == 4) {
    double y = p[3];
    Eigen::Quaterniond q(std::cos(y / 2), 0, 0, std::sin(y / 2));
    double dot = std::fabs(q.dot(s.orientation_W_B));
    c.close(dot, 1, 1e-12 + e0, "heading", "heading attitude " + at);
    double dy = std::remainder(s.getYaw() - y, 2 * M_PI);
    c.close(dy, 0, 1e-9 + 2 * e0 + 8 * kEps * std::fabs(y), "heading-angle", "heading " + at);
    c.close(s.angular_velocity_W[2], v[3], e1 + 1e-300, "heading-rate", "heading rate " + at);
    c.close(s.angular_acceleration_W[2], a[3], e2 + 1e-300, "heading-acceleration", "heading acceleration " + at);
    c.check(s.angular_velocity_W[0] == 0 && s.angular_velocity_W[1] == 0 && s.angular_acceleration_W[0] == 0 && s.angular_acceleration_W[1] == 0, "heading-only", "roll or pitch rate " + at);
    c.check(s.getYawRate() == s.angular_velocity_W[2] && s.getYawAcc() == s.angular_acceleration_W[2], "accessors", "accessors " + at);
    c.check(s.degrees_of_freedom == mav_msgs::DOF4, "dof", "degrees of freedom " + at);
  } else if (D == 6) {
    rot::V3 r = rot::lv(p.tail(3)), rv = rot::lv(v.tail(3)), ra = rot::lv(a.tail(3));
    c.check(s.degrees_of_freedom == mav_msgs::DOF6, "dof", "degrees of freedom " + at);
    double nr = (double)r.norm(), nv = (double)rv.norm(), na = (double)ra.norm();
    if (nr > 20) return;
    Eigen::Matrix3d R = rot::d3(rot::exp3(r));
    c.close((R - s.orientation_W_B.toRotationMatrix()).norm(), 0, 1e-9 + 4 * e0, "attitude", "attitude " + at);
    c.close(s.orientation_W_B.norm(), 1, 1e-9, "attitude-unit", "norm of the attitude " + at);
    bool small = nr < 1.1e-3;  // documented small-angle shortcut
    double eo = (small ? 1e-3 : 1e-8) * nv + 8 * (e1 + e0 * nv) + 1e-300;
    c.close((s.angular_velocity_W - rot::dv(rot::omega(r, rv))).norm(), 0, eo, "angular-velocity", "angular velocity " + at);
    double ea = (small ? 1e-3 : 1e-6) * (na + nv * nv) + 8 * (e2 + e1 * nv + e0 * (na + nv * nv)) + 1e-300;
    c.close((s.angular_acceleration_W - rot::dv(rot::omega_dot(r, rv, ra))).norm(), 0, ea, "angular-acceleration", "angular acceleration " + at);
  }
}
static mtg::Trajectory make(pbt::Ctx& c, bool* dyadic) {
  TrajOpt o;
  o.kmax = 5; o.dmin = c.s.chance(1, 8) ? 1 : 3; o.dmax = 6; o.nmax = 12;
  int pref = (int)c.s.below(4);
  int D = pref == 0 ? 4 : pref == 1 ? 6 : c.s.irange(o.dmin, 6);
  if (c.s.chance(1, 2)) {  // moderate angles and rates
    int K = c.s.sized(1, 5, 40), N = c.s.irange(1, 10);
    *dyadic = c.s.chance(1, 2);
    mtg::Segment::Vector v;
    for (int k = 0; k < K; ++k) {
      double T = seg_time(c, *dyadic);
      mtg::Segment s(N, D);
      s.setTime(T);
      for (int d = 0; d < D; ++d) { VectorXd q(N); double w = 1; for (int j = 0; j < N; ++j) { q[j] = (2 * c.s.unit() - 1) * w; w /= T; } s[d] = mtg::Polynomial(N, q); }
      if (k && c.s.chance(1, 2)) make_continuous(v.back(), s, 4);
      v.push_back(s);
    }
    mtg::Trajectory t;
    t.setSegments(v);
    return t;
  }
  return trajectory(c, o, dyadic, 0, D);
}
static std::vector<double> scales(const mtg::Trajectory& t) {
  std::vector<double> s;
  for (int d = 0; d <= 6; ++d) s.push_back(scale_of(t, d));
  return s;
}
static void single(pbt::Ctx& c) {
  bool dy;
  mtg::Trajectory t = make(c, &dy);
  double T = t.getMaxTime();
  double x = frac_time(c, T);
  int kind = (int)c.s.below(8);
  if (kind == 0) x = -c.s.logreal(1e-300, 10);
  if (kind == 1) x = c.s.chance(1, 2) ? std::nextafter(T, 1e300) : T + c.s.logreal(1e-9, 10);
  if (kind == 2) { x = 0; size_t k = c.s.below(t.K()); for (size_t i = 0; i <= k; ++i) x += t.segments()[i].getTime(); x = std::min(x, T); }
  c.desc << "t=" << x << " " << show(t);
  Point p;
  if (c.s.chance(1, 2)) { p.position_W.setConstant(9); p.angular_velocity_W.setConstant(8); p.angular_acceleration_W.setConstant(8); p.setFromYaw(1); }
  bool ok = mtg::sampleTrajectoryAtTime(t, x, &p);
  bool in = x >= 0 && x <= T && t.D() >= 3;
  c.check(ok == in, "refuse", PBT_S("sampling at " << x << " of [0," << T << "] with D=" << t.D() << " returned " << ok));
  c.label(in ? PBT_S("D=" << t.D()) : std::string("refused"));
  c.nontrivial(in && t.N() >= 3);
  if (!ok) return;
  auto sc = scales(t);
  c.close((double)p.time_from_start_ns, x * 1e9, 1.0 + 1e-15 * x * 1e9, "time", "time of the sample");
  state_is(c, p, [&](int d) { return t.evaluate(x, d); }, t.D(), sc, 0, PBT_S("at " << x));
}
static void segment_at(pbt::Ctx& c) {
  bool dy;
  mtg::Trajectory t = make(c, &dy);
  mtg::Segment s = t.segments()[0];
  double T = s.getTime(), x = frac_time(c, T);
  int kind = (int)c.s.below(8);
  if (kind == 0) x = -c.s.logreal(1e-300, 10);
  if (kind == 1) x = std::nextafter(T, 1e300);
  c.desc << "t=" << x << " " << show(s);
  Point p;
  bool ok = mtg::sampleSegmentAtTime(s, x, &p), in = x >= 0 && x <= T && s.D() >= 3;
  c.check(ok == in, "refuse", PBT_S("sampling at " << x << " of a segment of " << T << " s with D=" << s.D() << " returned " << ok));
  c.label(in ? PBT_S("D=" << s.D()) : std::string("refused"));
  c.nontrivial(in && s.N() >= 3);
  if (!ok) return;
  mtg::Trajectory one;
  one.setSegments({s});
  c.close((double)p.time_from_start_ns, x * 1e9, 1.0 + 1e-15 * x * 1e9, "time", "time of the sample");
  state_is(c, p, [&](int d) { return s.evaluate(x, d); }, s.D(), scales(one), 0, PBT_S("at " << x));
}
static void range(pbt::Ctx& c) {
  bool dy;
  mtg::Trajectory t = make(c, &dy);
  double T = t.getMaxTime(), a, b, dt;
  if (dy && c.s.chance(1, 2)) {
    dt = (1 + c.s.below(16)) / 64.0;
    a = std::floor(frac_time(c, T) * 64) / 64; b = std::floor(frac_time(c, T) * 64) / 64;
  } else {
    dt = T * c.s.logreal(0.004, 1.5);
    a = frac_time(c, T); b = frac_time(c, T);
  }
  if (a > b) std::swap(a, b);
  if ((b - a) / dt > 400) dt = (b - a) / 400;
  if (!(dt > 0)) throw pbt::Discard{};
  int form = (int)c.s.below(3), bad = (int)c.s.below(10);
  if (form == 2) { a = 0; b = T; }
  if (form != 2 && bad == 0) a = -c.s.logreal(1e-12, 3);
  if (form != 2 && bad == 1) b = form == 0 && c.s.chance(1, 2) ? std::nextafter(T, 1e300) : T + c.s.logreal(1e-6, 3);
  std::vector<Point, Eigen::aligned_allocator<Point>> v(c.s.below(4));
  for (auto& p : v) { p.setFromYaw(2); p.position_W.setConstant(5); }
  c.desc << "form " << form << " [" << a << "," << b << "] dt=" << dt << " " << show(t);
  bool ok;
  double end = b;
  if (form == 0) ok = mtg::sampleTrajectoryInRange(t, a, b, dt, &v);
  else if (form == 1) { double dur = b - a; end = a + dur; ok = mtg::sampleTrajectoryStartDuration(t, a, dur, dt, &v); }
  else ok = mtg::sampleWholeTrajectory(t, dt, &v);
  bool in = a >= 0 && end <= T && t.D() >= 3;
  c.check(ok == in, "refuse-range", PBT_S("sampling [" << a << "," << end << "] of [0," << T << "] with D=" << t.D() << " returned " << ok));
  c.label(in ? PBT_S("form " << form << " D=" << t.D()) : std::string("refused"));
  if (!ok) return;
  double q = (end - a) / dt;
  long lo = (long)std::ceil(q - 1e-9 * (1 + q)), hi = (long)std::floor(q + 1e-9 * (1 + q)) + 1;
  c.check((long)v.size() >= lo && (long)v.size() <= hi, "count", PBT_S(v.size() << " samples, expected " << lo << ".." << hi));
  c.nontrivial(v.size() >= 3 && t.K() >= 2);
  auto sc = scales(t);
  std::vector<double> vert = {0};
  for (auto& s : t.segments()) vert.push_back(vert.back() + s.getTime());
  for (size_t i = 0; i < v.size(); ++i) {
    double x = a + i * dt, near = INFINITY;
    size_t at = 0;
    for (size_t k = 1; k + 1 < vert.size(); ++k) if (std::fabs(vert[k] - x) < near) { near = std::fabs(vert[k] - x); at = k; }
    double eps_t = 1e-12 * (1 + T) * 4;
    c.close((double)v[i].time_from_start_ns, x * 1e9, 1.0 + 1e-12 * x * 1e9, "time", PBT_S("time of sample " << i));
    if (near < 4 * eps_t) {  // at a vertex the sample may belong to either side
      try {
        state_is(c, v[i], [&](int d) { return t.evaluate(std::min(x, T), d); }, t.D(), sc, 2 * eps_t, PBT_S("sample " << i << " at " << x));
      } catch (pbt::Fail&) {
        auto& L = t.segments()[at - 1];
        auto& R = t.segments()[at];
        try { state_is(c, v[i], [&](int d) { return L.evaluate(L.getTime(), d); }, t.D(), sc, 8 * eps_t, PBT_S("sample " << i << " before the vertex at " << x)); }
        catch (pbt::Fail&) { state_is(c, v[i], [&](int d) { return R.evaluate(0, d); }, t.D(), sc, 8 * eps_t, PBT_S("sample " << i << " at the vertex " << x)); }
      }
      continue;
    }
    state_is(c, v[i], [&](int d) { return t.evaluate(std::min(x, T), d); }, t.D(), sc, 2 * eps_t, PBT_S("sample " << i << " at " << x));
  }
}
int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"single", 3, single}, {"segment", 2, segment_at}, {"range", 4, range}});
}
