// C19: attitude and state conversions.
#include <mav_trajectory_generation/trajectory_sampling.h>

#include "gen.hpp"
#include "rot.hpp"
using namespace gen;
using Eigen::Matrix3d;
using Eigen::Quaterniond;
using Eigen::Vector3d;

static Vector3d vec(pbt::Ctx& c, double s = 1) { return Vector3d(s * (2 * c.s.unit() - 1), s * (2 * c.s.unit() - 1), s * (2 * c.s.unit() - 1)); }
static Vector3d axis(pbt::Ctx& c) {
  switch (c.s.below(4)) {
    case 0: { Vector3d a = Vector3d::Zero(); a[c.s.below(3)] = c.s.chance(1, 2) ? -1 : 1; return a; }
    case 1: { Vector3d a = Vector3d::Ones(); for (int i = 0; i < 3; ++i) a[i] = (double)((int)c.s.below(3) - 1); if (a.norm() == 0) a[0] = 1; return a.normalized(); }
    default: { Vector3d a = vec(c); if (a.norm() < 1e-3) a = Vector3d(0, 0, 1); return a.normalized(); }
  }
}
static double angle(pbt::Ctx& c) {
  switch (c.s.below(7)) {
    case 0: return 0;
    case 1: return M_PI;
    case 2: return M_PI - c.s.logreal(1e-15, 1e-1);
    case 3: return c.s.logreal(1e-12, 1e-1);
    case 4: return M_PI / 2 * (1 + c.s.below(2));
    default: return M_PI * c.s.unit();
  }
}
static Quaterniond quat(pbt::Ctx& c) {
  Quaterniond q(Eigen::AngleAxisd(angle(c), axis(c)));
  if (c.s.chance(1, 3)) q.coeffs() *= -1;
  return q;
}
static std::string q2s(const Quaterniond& q) { return PBT_S("(" << q.w() << "," << q.x() << "," << q.y() << "," << q.z() << ")"); }

static void rotation_vector(pbt::Ctx& c) {
  double th = angle(c);
  if (c.s.chance(1, 5)) th += 2 * M_PI * c.s.unit();
  Vector3d r = axis(c) * th;
  c.desc << "r=" << vs(r) << " angle " << th;
  c.label(th == 0 ? "zero" : std::fabs(th - M_PI) < 1e-6 ? "half turn" : th > M_PI ? "more than half a turn" : th < 1e-5 ? "tiny" : "general");
  c.nontrivial(th > 1e-6);
  Matrix3d R, E = rot::d3(rot::exp3(rot::lv(r)));
  mav_msgs::matrixFromRotationVector(r, &R);
  c.close((R - E).norm(), 0, 1e-13 * (1 + th), "exp", "matrix of a rotation vector");
  c.check(mav_msgs::isRotationMatrix(R), "is-rotation", "a rotation matrix is not recognised");
  Vector3d back = Vector3d::Constant(77);
  c.check(mav_msgs::vectorFromRotationMatrix(R, &back), "log-result", "a rotation matrix is refused");
  c.check(back.allFinite() && back.norm() <= M_PI + 1e-9, "log-range", PBT_S("rotation vector " << vs(back)));
  Matrix3d R2 = rot::d3(rot::exp3(rot::lv(back)));
  c.close((R2 - R).norm(), 0, 3e-6, "log", "matrix of the recovered rotation vector");
  if (th > 1e-4 && th < M_PI - 1e-4) {
    c.close((R2 - R).norm(), 0, 1e-9, "log-accurate", "matrix of the recovered rotation vector");
    c.close((back - r).norm(), 0, 1e-8, "log-inverse", "recovered rotation vector");
  } else if (th >= M_PI - 1e-4 && th <= M_PI) {
    c.close(std::min((back - r).norm(), (back + r).norm()), 0, 2.1e-4, "log-half-turn", "recovered rotation vector");
    c.close((R2 - R).norm(), 0, 1e-7, "log-half-turn-matrix", "matrix of the recovered rotation vector");
  }
}
static void not_rotations(pbt::Ctx& c) {
  Matrix3d R = quat(c).toRotationMatrix(), m = R;
  int k = (int)c.s.below(6);
  bool rotation = false;
  switch (k) {
    case 0: m = -R; c.label("point reflection"); break;
    case 1: { Vector3d a = axis(c); m = R * (Matrix3d::Identity() - 2 * a * a.transpose()); c.label("mirror"); break; }
    case 2: m = R * (c.s.chance(1, 2) ? 1 + c.s.logreal(1e-5, 10) : 1 - c.s.logreal(1e-5, 0.9)); c.label("scaled"); break;
    case 3: { int i = (int)c.s.below(3), j = (int)c.s.below(3); m(i, j) += (c.s.chance(1, 2) ? 1 : -1) * c.s.logreal(1e-5, 1); c.label("one entry changed");
      if ((m.transpose() * m - Matrix3d::Identity()).norm() < 5e-6) throw pbt::Discard{};
      break; }
    case 4: m.setZero(); c.label("zero"); break;
    default: m(c.s.below(3), c.s.below(3)) += 1e-9 * (2 * c.s.unit() - 1); rotation = true; c.label("rounded rotation"); break;
  }
  c.desc << "matrix " << m;
  c.nontrivial(!rotation);
  c.check(mav_msgs::isRotationMatrix(m) == rotation, "is-rotation", rotation ? "a rotation up to rounding is refused" : "a matrix that is not a rotation is accepted");
  Vector3d v;
  c.check(mav_msgs::vectorFromRotationMatrix(m, &v) == rotation, "log-refuse", rotation ? "a rotation up to rounding is refused" : "a matrix that is not a rotation is accepted");
}
static void skew(pbt::Ctx& c) {
  Vector3d v(coef(c), coef(c), coef(c)), w(coef(c), coef(c), coef(c)), b;
  Matrix3d m;
  mav_msgs::skewMatrixFromVector(v, &m);
  c.desc << "v=" << vs(v) << " w=" << vs(w);
  c.nontrivial(v.norm() > 0);
  c.close((m * w - v.cross(w)).norm(), 0, 8 * kEps * v.norm() * w.norm(), "cross", "skew matrix times vector");
  c.check(mav_msgs::vectorFromSkewMatrix(m, &b) && b == v, "skew-inverse", "vector of its skew matrix");
  Matrix3d bad = m;
  bad(c.s.below(3), c.s.below(3)) += (c.s.chance(1, 2) ? 1 : -1) * c.s.logreal(1e-5, 1e3);
  if ((bad + bad.transpose()).norm() > 5e-6) c.check(!mav_msgs::vectorFromSkewMatrix(bad, &b), "skew-refuse", "a matrix that is not skew-symmetric is accepted");
}
static void rates(pbt::Ctx& c) {
  double th = c.s.chance(1, 4) ? c.s.logreal(1e-6, 1e-2) : c.s.chance(1, 6) ? 0 : 6 * c.s.unit();
  Vector3d r = axis(c) * th, v = vec(c, c.s.logreal(0.01, 10)), a = vec(c, c.s.logreal(0.01, 10));
  if (c.s.chance(1, 8)) v.setZero();
  if (c.s.chance(1, 8)) a.setZero();
  c.desc << "r=" << vs(r) << " r'=" << vs(v) << " r''=" << vs(a);
  bool small = th < 1.1e-3;
  c.label(small ? "small angle" : "general");
  c.nontrivial(!small && v.norm() > 0);
  Vector3d om = mav_msgs::omegaFromRotationVector(r, v), al = mav_msgs::omegaDotFromRotationVector(r, v, a);
  rot::V3 lr = rot::lv(r), lv = rot::lv(v), la = rot::lv(a);
  c.close((om - rot::dv(rot::omega(lr, lv))).norm(), 0, (small ? 1e-3 : 1e-9) * v.norm() + 1e-300, "omega", "angular velocity");
  c.close((al - rot::dv(rot::omega_dot(lr, lv, la))).norm(), 0, (small ? 1e-3 : 1e-7) * (a.norm() + v.squaredNorm()) + 1e-300, "omega-dot", "angular acceleration");
  // The same from the rotation itself: R(t+h) R(t-h)^T.
  rot::ld h = 1e-4L / (1 + v.norm());
  rot::M3 d = rot::exp3(lr + lv * h) * rot::exp3(lr - lv * h).transpose();
  Vector3d w = rot::dv(rot::V3(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)) / (4 * h));
  c.close((om - w).norm(), 0, (small ? 1e-3 : 1e-6) * v.norm() + 1e-300, "omega-rotation", "angular velocity of the rotation");
}
static void heading(pbt::Ctx& c) {
  double y = c.s.real(-20, 20);
  if (c.s.chance(1, 4)) y = M_PI * (1 - 2.0 * c.s.below(2)) + (2 * c.s.unit() - 1) * 1e-6;
  Quaterniond q = mav_msgs::quaternionFromYaw(y);
  c.desc << "yaw=" << y;
  c.nontrivial(y != 0);
  c.close(q.norm(), 1, 1e-14, "unit", "norm");
  Vector3d f = q * Vector3d::UnitX();
  c.close((f - Vector3d(std::cos(y), std::sin(y), 0)).norm(), 0, 1e-14 * (1 + std::fabs(y)), "heading", "forward direction");
  c.close(std::remainder(mav_msgs::yawFromQuaternion(q) - y, 2 * M_PI), 0, 1e-13 * (1 + std::fabs(y)), "heading-inverse", "heading of its quaternion");
  mav_msgs::EigenTrajectoryPoint p;
  mav_msgs::EigenOdometry o;
  double rate = coef(c), acc = coef(c);
  p.angular_velocity_W = vec(c, 5); p.angular_acceleration_W = vec(c, 5); p.orientation_W_B = quat(c);
  o.orientation_W_B = quat(c); o.angular_velocity_B = vec(c, 5);
  p.setFromYaw(y); p.setFromYawRate(rate); p.setFromYawAcc(acc);
  o.setFromYaw(y); o.setFromYawRate(rate);
  c.close(std::remainder(p.getYaw() - y, 2 * M_PI), 0, 1e-13 * (1 + std::fabs(y)), "point-heading", "heading of a point");
  c.close(std::remainder(o.getYaw() - y, 2 * M_PI), 0, 1e-13 * (1 + std::fabs(y)), "odometry-heading", "heading of odometry");
  c.check(p.angular_velocity_W == Vector3d(0, 0, rate) && p.getYawRate() == rate && p.angular_acceleration_W == Vector3d(0, 0, acc) && p.getYawAcc() == acc, "point-rates", "rates of a point");
  c.check(o.angular_velocity_B == Vector3d(0, 0, rate) && o.getYawRate() == rate, "odometry-rate", "rate of odometry");
}
static void euler(pbt::Ctx& c) {
  double roll = M_PI * (2 * c.s.unit() - 1), pitch = M_PI / 2 * (2 * c.s.unit() - 1), yaw = M_PI * (2 * c.s.unit() - 1);
  int k = (int)c.s.below(4);
  if (k == 0) pitch = (c.s.chance(1, 2) ? 1 : -1) * (M_PI / 2 - (c.s.chance(1, 2) ? 0 : c.s.logreal(1e-12, 1e-3)));
  if (k == 1) { roll = M_PI / 2 * ((int)c.s.below(5) - 2); yaw = M_PI / 2 * ((int)c.s.below(5) - 2); }
  Quaterniond q = Eigen::AngleAxisd(yaw, Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Vector3d::UnitX());
  if (c.s.chance(1, 2)) q.coeffs() *= -1;
  c.desc << "roll=" << roll << " pitch=" << pitch << " yaw=" << yaw;
  Vector3d e;
  mav_msgs::getEulerAnglesFromQuaternion(q, &e);
  double m = M_PI / 2 - std::fabs(pitch);
  c.label(m < 1e-6 ? "gimbal lock" : "regular");
  c.nontrivial();
  c.check(e.allFinite(), "euler-finite", PBT_S("angles " << vs(e)));
  c.close(e[1], pitch, 1e-7, "pitch", "pitch");
  mav_msgs::EigenOdometry o;
  o.orientation_W_B = q;
  Vector3d e2;
  o.getEulerAngles(&e2);
  c.check(e2 == e, "odometry-euler", "odometry angles");
  if (m < 1e-6) return;
  double tol = 1e-13 / m + 1e-13;
  c.close(std::remainder(e[0] - roll, 2 * M_PI), 0, tol * 10, "roll", "roll");
  c.close(std::remainder(e[2] - yaw, 2 * M_PI), 0, tol * 10, "yaw", "yaw");
  c.close(std::remainder(mav_msgs::yawFromQuaternion(q) - yaw, 2 * M_PI), 0, tol * 10, "yaw-of-quaternion", "yaw");
}
static void rigid(pbt::Ctx& c) {
  auto motion = [&] { Eigen::Affine3d A = Eigen::Affine3d::Identity(); A.linear() = quat(c).toRotationMatrix(); A.translation() = vec(c, 50); return A; };
  Eigen::Affine3d A = motion(), B = motion();
  mav_msgs::EigenTrajectoryPoint p;
  p.time_from_start_ns = (int64_t)c.s.below(1ull << 50);
  p.timestamp_ns = (int64_t)c.s.below(1ull << 50);
  p.position_W = vec(c, 20); p.velocity_W = vec(c, 5); p.acceleration_W = vec(c, 5); p.jerk_W = vec(c, 5); p.snap_W = vec(c, 5);
  p.orientation_W_B = quat(c); p.angular_velocity_W = vec(c, 5); p.angular_acceleration_W = vec(c, 5);
  p.degrees_of_freedom = c.s.chance(1, 2) ? mav_msgs::DOF6 : mav_msgs::DOF4;
  c.desc << "A=" << A.matrix() << " p=" << vs(p.position_W) << " q=" << q2s(p.orientation_W_B) << " v=" << vs(p.velocity_W);
  c.nontrivial();
  auto same = [&](const mav_msgs::EigenTrajectoryPoint& a, const mav_msgs::EigenTrajectoryPoint& b, const char* tag, double tol) {
    auto v = [&](const Vector3d& x, const Vector3d& y, const char* what) { c.close((x - y).norm(), 0, tol, tag, what); };
    v(a.position_W, b.position_W, "position"); v(a.velocity_W, b.velocity_W, "velocity"); v(a.acceleration_W, b.acceleration_W, "acceleration");
    v(a.jerk_W, b.jerk_W, "jerk"); v(a.snap_W, b.snap_W, "snap"); v(a.angular_velocity_W, b.angular_velocity_W, "angular velocity");
    v(a.angular_acceleration_W, b.angular_acceleration_W, "angular acceleration");
    c.close((a.orientation_W_B.toRotationMatrix() - b.orientation_W_B.toRotationMatrix()).norm(), 0, tol, tag, "attitude");
    c.check(a.time_from_start_ns == b.time_from_start_ns && a.timestamp_ns == b.timestamp_ns && a.degrees_of_freedom == b.degrees_of_freedom, tag, "times or degrees of freedom");
  };
  mav_msgs::EigenTrajectoryPoint e = p;
  Matrix3d R = A.linear();
  e.position_W = R * p.position_W + A.translation();
  e.velocity_W = R * p.velocity_W; e.acceleration_W = R * p.acceleration_W; e.jerk_W = R * p.jerk_W; e.snap_W = R * p.snap_W;
  e.angular_velocity_W = R * p.angular_velocity_W; e.angular_acceleration_W = R * p.angular_acceleration_W;
  e.orientation_W_B = Quaterniond(Matrix3d(R * p.orientation_W_B.toRotationMatrix()));
  same(A * p, e, "rigid", 1e-10);
  same((A * B) * p, A * (B * p), "compose", 1e-9);
  same(A.inverse() * (A * p), p, "inverse", 1e-9);
  mav_msgs::EigenOdometry o;
  o.orientation_W_B = quat(c);
  Vector3d w = vec(c, 10), b = vec(c, 10);
  o.velocity_B = b;
  c.close((o.getVelocityWorld() - o.orientation_W_B.toRotationMatrix() * b).norm(), 0, 1e-12, "world-velocity", "world velocity");
  o.setVelocityWorld(w);
  c.close((o.velocity_B - o.orientation_W_B.toRotationMatrix().transpose() * w).norm(), 0, 1e-12, "body-velocity", "body velocity");
  c.close((o.getVelocityWorld() - w).norm(), 0, 1e-12, "velocity-inverse", "world velocity after setting it");
}
static void times(pbt::Ctx& c) {
  int64_t n = c.s.chance(1, 2) ? (int64_t)c.s.below(10000000000ull) : (int64_t)c.s.below(1ull << (20 + c.s.below(33)));
  if (c.s.chance(1, 4)) n = -n;
  c.desc << "ns=" << n;
  double s = mav_msgs::nanosecondsToSeconds(n);
  c.close(s, (double)((long double)n / 1e9L), 2 * kEps * std::fabs((double)n) * 1e-9, "seconds", "seconds");
  int64_t m = mav_msgs::secondsToNanoseconds(s);
  c.nontrivial(n != 0);
  if (std::llabs(n) < (1ll << 51)) c.check(m == n, "ns-roundtrip", PBT_S(n << " ns became " << m << " ns"));
  double x = c.s.real(-1e5, 1e5);
  c.close((double)mav_msgs::secondsToNanoseconds(x), x * 1e9, 1.0 + 2 * kEps * std::fabs(x) * 1e9, "nanoseconds", "nanoseconds");
}
static void rotors(pbt::Ctx& c) {
  int n = c.s.irange(3, 8);
  Eigen::MatrixXd A(n, 4);
  for (int i = 0; i < n; ++i) for (int j = 0; j < 4; ++j) A(i, j) = coef(c);
  Vector3d I(c.s.logreal(1e-3, 1), c.s.logreal(1e-3, 1), c.s.logreal(1e-3, 1)), w = vec(c, 5), al = vec(c, 5), acc = vec(c, 15);
  double mass = c.s.logreal(0.1, 10);
  c.desc << "I=" << vs(I) << " w=" << vs(w) << " al=" << vs(al) << " acc=" << vs(acc) << " m=" << mass << " A=" << A;
  VectorXd out;
  mav_msgs::getSquaredRotorSpeedsFromAllocationAndState(A, I, mass, w, al, acc, &out);
  Vector3d tq(I[0] * al[0] + (I[2] - I[1]) * w[1] * w[2], I[1] * al[1] + (I[0] - I[2]) * w[2] * w[0], I[2] * al[2] + (I[1] - I[0]) * w[0] * w[1]);
  double th = mass * std::sqrt(acc[0] * acc[0] + acc[1] * acc[1] + acc[2] * acc[2]);
  c.check(out.size() == n, "rotor-count", "number of rotors");
  c.nontrivial();
  for (int i = 0; i < n; ++i) {
    double e = A(i, 0) * tq[0] + A(i, 1) * tq[1] + A(i, 2) * tq[2] + A(i, 3) * th;
    double sc = A.row(i).cwiseAbs().sum() * (100 + th);
    c.close(out[i], e, 1e-13 * sc + 1e-300, "rotors", PBT_S("squared speed of rotor " << i));
  }
}
// Against the closed-form gravity of the reference ellipsoid (GRS80) and the free-air gradient.
static void gravity(pbt::Ctx& c) {
  double lat = c.s.chance(1, 6) ? 0 : c.s.real(-M_PI / 2, M_PI / 2), h = c.s.chance(1, 4) ? 0 : c.s.real(-500, 12000);
  c.desc << "latitude " << lat << " height " << h;
  c.nontrivial(lat != 0 && h != 0);
  ld s2 = sinl(lat) * sinl(lat);
  ld g0 = 9.7803267715L * (1 + 0.001931851353L * s2) / sqrtl(1 - 0.00669438002290L * s2);
  double g = mav_msgs::MagnitudeOfGravity(h, lat);
  c.close(g, (double)(g0 - 3.0857e-6L * h), 5e-6 + 2e-9 * std::fabs(h), "gravity", "local gravity");
  c.close(mav_msgs::MagnitudeOfGravity(h, -lat), g, 1e-14, "gravity-symmetric", "local gravity in the other hemisphere");
}
int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"rotation-vector", 4, rotation_vector}, {"not-rotations", 2, not_rotations}, {"skew", 1, skew}, {"rates", 3, rates},
                                    {"heading", 1, heading}, {"euler", 2, euler}, {"rigid", 2, rigid}, {"times", 1, times}, {"rotors", 1, rotors}, {"gravity", 1, gravity}});
}
