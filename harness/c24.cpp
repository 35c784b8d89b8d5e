// C24: plain containers hold what they are given, and printed text shows what objects hold.
#include <mav_msgs/eigen_mav_msgs.hpp>
#include <mav_trajectory_generation/extremum.h>
#include <mav_trajectory_generation/motion_defines.h>
#include <mav_trajectory_generation/polynomial_optimization_linear.h>
#include <mav_trajectory_generation/polynomial_optimization_nonlinear.h>

#include <cstring>
#include <new>
#include <regex>

#include "gen.hpp"
using namespace gen;
using Eigen::Quaterniond;
using Eigen::Vector3d;

// ---- Printed text: every number in it, in order, and every name in it, in order.
static std::vector<double> numbers(const std::string& s) {
  static const std::regex re("(^|[^A-Za-z_0-9.])([-+]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][-+]?[0-9]+)?)(?![A-Za-z_])");
  std::vector<double> out;
  for (std::sregex_iterator it(s.begin(), s.end(), re), e; it != e; ++it) out.push_back(strtod((*it)[2].str().c_str(), nullptr));
  return out;
}
static void shows(pbt::Ctx& c, const std::string& text, const std::vector<double>& want, int digits, const char* tag) {
  std::vector<double> got = numbers(text);
  c.check(got.size() == want.size(), tag, PBT_S(got.size() << " numbers printed, the object holds " << want.size() << ": " << text.substr(0, 600)));
  for (size_t i = 0; i < want.size(); ++i)
    c.check(std::fabs(got[i] - want[i]) <= 0.51 * std::pow(10.0, 1 - digits) * std::fabs(want[i]), tag, PBT_S("number " << i << " is printed as " << got[i] << ", the object holds " << want[i] << ": " << text.substr(0, 600)));
}
static void names_in_order(pbt::Ctx& c, const std::string& text, const std::vector<std::string>& want, const char* tag) {
  size_t at = 0;
  for (auto& w : want) {
    size_t p = text.find(w, at);
    c.check(p != std::string::npos, tag, PBT_S("'" << w << "' is missing or misplaced: " << text.substr(0, 600)));
    at = p + w.size();
  }
}
template <class T> static std::string text(const T& x) { std::ostringstream o; o << x; return o.str(); }
static void push(std::vector<double>& v, const VectorXd& x) { for (int i = 0; i < x.size(); ++i) v.push_back(x[i]); }

static void vertex_numbers(const mtg::Vertex& v, std::vector<double>& w, std::vector<std::string>& n) {
  for (auto it = v.cBegin(); it != v.cEnd(); ++it) { push(w, it->second); n.push_back(mtg::positionDerivativeToString(it->first)); }
}
static void printing(pbt::Ctx& c) {
  // Waypoints.
  int D = c.s.irange(1, 4), nv = c.s.sized(1, 4, 30);
  mtg::Vertex::Vector vs_;
  std::vector<double> all;
  std::vector<std::string> alln;
  for (int i = 0; i < nv; ++i) {
    mtg::Vertex v(D);
    int k = c.s.irange(0, 3);
    for (int j = 0; j < k; ++j) v.addConstraint((int)c.s.below(5), coefs(c, D));
    std::vector<double> w;
    std::vector<std::string> n;
    vertex_numbers(v, w, n);
    shows(c, text(v), w, 4, "print-vertex");
    names_in_order(c, text(v), n, "print-vertex-names");
    vertex_numbers(v, all, alln);
    vs_.push_back(v);
  }
  shows(c, text(vs_), all, 4, "print-vertices");
  names_in_order(c, text(vs_), alln, "print-vertices-names");
  // Segments.
  mtg::Trajectory t = trajectory(c, TrajOpt());
  std::vector<double> list;
  c.desc << show(t);
  for (auto& s : t.segments()) {
    for (int d = 0; d < std::min(5, s.N()); ++d) {
      std::vector<double> w{s.getTime()};
      for (int i = 0; i < s.D(); ++i) {
        w.push_back(i);
        VectorXd q = cf(s[i]);
        for (int j = 0; j < s.N(); ++j) w.push_back(j + d < s.N() ? (double)(ff(j + d, d) * (ld)q[j + d]) : 0.0);
      }
      std::ostringstream o;
      mtg::printSegment(o, s, d);
      shows(c, o.str(), w, 6, "print-segment");
      names_in_order(c, o.str(), {mtg::positionDerivativeToString(d)}, "print-segment-name");
      if (d == 0) { shows(c, text(s), w, 6, "print-segment-default"); list.insert(list.end(), w.begin(), w.end()); }
    }
  }
  shows(c, text(t.segments()), list, 6, "print-segments");
  // Extrema and the optimiser's report.
  mtg::Extremum e(coef(c), coef(c), (int)c.s.below(50));
  c.check(mtg::Extremum().time == 0 && mtg::Extremum().value == 0 && mtg::Extremum().segment_idx == 0, "extremum-new", "a new extremum is not zero");
  shows(c, text(e), {e.time, e.value, (double)e.segment_idx}, 6, "print-extremum");
  mtg::Extremum f(coef(c), coef(c), (int)c.s.below(50));
  c.check((e < f) == (e.value < f.value) && (e > f) == (e.value > f.value), "extremum-order", "extrema are not ordered by value");
  mtg::OptimizationInfo info;
  info.n_iterations = (int)c.s.below(1000);
  static const std::vector<int> codes{nlopt::SUCCESS, nlopt::FTOL_REACHED, nlopt::XTOL_REACHED, nlopt::MAXEVAL_REACHED, nlopt::MAXTIME_REACHED, nlopt::STOPVAL_REACHED, nlopt::FAILURE, nlopt::INVALID_ARGS, nlopt::ROUNDOFF_LIMITED};
  info.stopping_reason = c.s.pick(codes);
  info.cost_trajectory = coef(c); info.cost_time = coef(c); info.cost_soft_constraints = coef(c); info.optimization_time = coef(c);
  std::vector<double> w{info.optimization_time, (double)info.n_iterations, info.cost_trajectory, info.cost_time, info.cost_soft_constraints};
  std::vector<std::string> n{nlopt::returnValueToString(info.stopping_reason)};
  for (int k = 0; k < 5; ++k) {
    if (c.s.chance(1, 2)) continue;
    mtg::Extremum m(coef(c), coef(c), (int)c.s.below(20));
    info.maxima[k] = m;
    n.push_back(mtg::positionDerivativeToString(k));
    w.push_back(m.value); w.push_back(m.segment_idx); w.push_back(m.time);
  }
  // (Reasons are words; a number inside one would be a different format.)
  shows(c, text(info), w, 6, "print-info");
  names_in_order(c, text(info), n, "print-info-names");
  c.nontrivial(all.size() >= 2 && t.K() >= 2);
}

template <class Opt, int N>
static void mapping_of(pbt::Ctx& c) {
  int nv = c.s.sized(2, 5, 24), D = c.s.irange(1, 2);
  mtg::Vertex::Vector v;
  std::vector<double> times;
  for (int i = 0; i < nv; ++i) {
    mtg::Vertex x(D);
    if (i == 0 || i == nv - 1) x.makeStartOrEnd(coefs(c, D), N / 2 - 1);
    else { x.addConstraint(0, coefs(c, D)); if (c.s.chance(1, 3)) x.addConstraint(1, coefs(c, D)); }
    v.push_back(x);
    if (i) times.push_back(c.s.logreal(0.2, 5));
  }
  mtg::PolynomialOptimization<N> opt(D);
  c.check(opt.setupFromVertices(v, times, N / 2 - 1), "setup", "refused");
  std::ostringstream o;
  opt.printReorderingMatrix(o);
  Eigen::MatrixXd m;
  opt.getM(&m);
  std::vector<double> want;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) want.push_back(m(i, j));
  // A sparse matrix prints its stored entries first and then all rows; only the rows matter.
  std::vector<double> got = numbers(o.str());
  c.check(got.size() >= want.size(), "print-mapping", "the printed matrix is too small");
  got.erase(got.begin(), got.end() - want.size());
  c.check(got == want, "print-mapping", PBT_S("the printed matrix is not the mapping: " << o.str().substr(0, 800)));
  c.desc << "N=" << N << " waypoints " << nv;
  c.nontrivial(nv > 2);
}
static void mapping(pbt::Ctx& c) {
  switch (c.s.below(3)) {
    case 0: mapping_of<void, 6>(c); break;
    case 1: mapping_of<void, 10>(c); break;
    default: mapping_of<void, 12>(c);
  }
}

// ---- Containers: built in memory that holds arbitrary bytes.
template <class T> struct Cell {
  T* p;
  void* mem;
  template <class... A> Cell(int fill, A&&... a) {
    mem = aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
    memset(mem, fill, sizeof(T));
    p = ::new (mem) T(std::forward<A>(a)...);
  }
  ~Cell() { p->~T(); free(mem); }
  T* operator->() { return p; }
  T& operator*() { return *p; }
};
static Vector3d v3(pbt::Ctx& c) { return coefs(c, 3); }
static Quaterniond quat(pbt::Ctx& c) {
  Eigen::Vector4d q;
  do { for (int i = 0; i < 4; ++i) q[i] = c.s.unit() * 2 - 1; } while (q.norm() < 0.1);
  q.normalize();
  return Quaterniond(q[0], q[1], q[2], q[3]);
}
static bool same(const Quaterniond& a, const Quaterniond& b) { return a.coeffs() == b.coeffs(); }
static const Vector3d kZ = Vector3d::Zero();
static const Quaterniond kI = Quaterniond::Identity();

static void containers(pbt::Ctx& c) {
  int fill = (int)c.s.below(256);
  c.desc << "memory filled with " << fill;
  c.nontrivial(fill != 0 && fill != 255);
  using namespace mav_msgs;
  Vector3d a = v3(c), b = v3(c), d = v3(c), e = v3(c), f = v3(c), g = v3(c), h = v3(c);
  Quaterniond q = quat(c);
  {
    Cell<EigenAttitudeThrust> x(fill), y(fill, q, a);
    c.check(same(x->attitude, kI) && x->thrust == kZ, "attitude-new", "new attitude and thrust");
    c.check(same(y->attitude, q) && y->thrust == a, "attitude", "attitude and thrust as given");
  }
  {
    Cell<EigenRateThrust> x(fill), y(fill, a, b);
    c.check(x->angular_rates == kZ && x->thrust == kZ, "rate-new", "new rates and thrust");
    c.check(y->angular_rates == a && y->thrust == b, "rate", "rates and thrust as given");
    Cell<EigenTorqueThrust> z(fill), w(fill, a, b);
    c.check(z->torque == kZ && z->thrust == kZ, "torque-new", "new torque and thrust");
    c.check(w->torque == a && w->thrust == b, "torque", "torque and thrust as given");
  }
  {
    Cell<EigenRollPitchYawrateThrust> x(fill), y(fill, a[0], a[1], a[2], b);
    c.check(x->roll == 0 && x->pitch == 0 && x->yaw_rate == 0 && x->thrust == kZ, "rpyt-new", "new roll, pitch, yaw rate and thrust");
    c.check(y->roll == a[0] && y->pitch == a[1] && y->yaw_rate == a[2] && y->thrust == b, "rpyt", "roll, pitch, yaw rate and thrust as given");
    VectorXd m = coefs(c, c.s.irange(0, 8));
    Cell<EigenActuators> z(fill, m);
    c.check(z->angular_velocities.size() == m.size() && z->angular_velocities == m && z->angles.size() == 0 && z->normalized.size() == 0, "actuators", "actuators as given");
  }
  {
    Cell<EigenMavState> x(fill), y(fill, a, b, d, q, e, f);
    c.check(x->position_W == kZ && x->velocity_W == kZ && x->acceleration_B == kZ && same(x->orientation_W_B, kI) && x->angular_velocity_B == kZ && x->angular_acceleration_B == kZ, "state-new", "new state");
    c.check(y->position_W == a && y->velocity_W == b && y->acceleration_B == d && same(y->orientation_W_B, q) && y->angular_velocity_B == e && y->angular_acceleration_B == f, "state", "state as given");
    std::vector<double> w;
    for (const Vector3d& k : {a, b, d}) push(w, k);
    for (double k : {q.w(), q.x(), q.y(), q.z()}) w.push_back(k);
    push(w, e); push(w, f);
    shows(c, y->toString(), w, 6, "print-state");
  }
  {
    int64_t t = (int64_t)c.s.below(2000000000000ull);
    Cell<EigenTrajectoryPoint> x(fill), y(fill, t, a, b, d, e, f, q, g, h), z(fill, t, a, b, d, e, f, q, g), u(fill, t, a, b, d, e, f, q, g, h, DOF6), s(fill, t, a, b, d, e, f, q, g, DOF6);
    c.check(x->time_from_start_ns == 0 && x->position_W == kZ && x->velocity_W == kZ && x->acceleration_W == kZ && x->jerk_W == kZ && x->snap_W == kZ && same(x->orientation_W_B, kI) &&
            x->angular_velocity_W == kZ && x->angular_acceleration_W == kZ && x->degrees_of_freedom == DOF4, "point-new", "new point");
    for (auto* p : {&y, &z, &u, &s}) {
      auto& k = **p;
      c.check(k.time_from_start_ns == t && k.position_W == a && k.velocity_W == b && k.acceleration_W == d && k.jerk_W == e && k.snap_W == f && same(k.orientation_W_B, q) && k.angular_velocity_W == g, "point", "point as given");
      c.check(k.angular_acceleration_W == (p == &y || p == &u ? h : kZ) && k.degrees_of_freedom == (p == &u || p == &s ? DOF6 : DOF4), "point", "point as given");
    }
    for (auto* p : {&x, &y, &z, &u, &s}) c.check((*p)->timestamp_ns == -1, "point-stamp", PBT_S("a new point carries the timestamp " << (*p)->timestamp_ns << " instead of an invalid one"));
    std::vector<double> w;
    for (const Vector3d& k : {a, b, d, e, f}) push(w, k);
    w.push_back(y->getYaw()); w.push_back(g[2]); w.push_back(h[2]);
    shows(c, y->toString(), w, 6, "print-point");
  }
  {
    Cell<EigenOdometry> x(fill), y(fill, a, q, b, d);
    c.check(x->position_W == kZ && same(x->orientation_W_B, kI) && x->velocity_B == kZ && x->angular_velocity_B == kZ, "odometry-new", "new odometry");
    c.check(y->position_W == a && same(y->orientation_W_B, q) && y->velocity_B == b && y->angular_velocity_B == d, "odometry", "odometry as given");
    for (auto* p : {&x, &y}) c.check((*p)->timestamp_ns == -1, "odometry-stamp", PBT_S("new odometry carries the timestamp " << (*p)->timestamp_ns << " instead of an invalid one"));
    for (auto* p : {&x, &y}) c.check((*p)->pose_covariance_.isZero(0) && (*p)->twist_covariance_.isZero(0), "odometry-covariance", "new odometry carries a covariance that nobody gave");
  }
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"printing", 3, printing}, {"mapping", 1, mapping}, {"containers", 3, containers}});
}
