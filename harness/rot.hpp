// Long-double rotation reference: power series, independent of closed forms.
#pragma once
#include <Eigen/Geometry>
namespace rot {
typedef long double ld;
typedef Eigen::Matrix<ld, 3, 3> M3;
typedef Eigen::Matrix<ld, 3, 1> V3;
inline M3 skew(const V3& v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
// exp([r]) for any r: series on a halved argument, squared back.
inline M3 exp3(const V3& r) {
  V3 q = r;
  int k = 0;
  while (q.norm() > 0.5L) { q /= 2; ++k; }
  M3 s = skew(q), t = M3::Identity(), e = M3::Identity();
  for (int i = 1; i < 30; ++i) { t = t * s / (ld)i; e += t; }
  for (int i = 0; i < k; ++i) e = e * e;
  return e;
}
// Left Jacobian: omega_W = J(r) r'.
inline M3 jac(const V3& r) {
  M3 s = skew(r), t = M3::Identity(), e = M3::Identity();
  for (int i = 1; i < 80; ++i) { t = t * s / (ld)(i + 1); e += t; }
  return e;
}
inline V3 omega(const V3& r, const V3& v) { return jac(r) * v; }
inline V3 omega_dot(const V3& r, const V3& v, const V3& a) {
  ld h = 1e-4L / (1 + v.norm() + std::sqrt(a.norm()));
  V3 rp = r + v * h + a * (h * h / 2), rm = r - v * h + a * (h * h / 2);
  return (jac(rp) * (v + a * h) - jac(rm) * (v - a * h)) / (2 * h);
}
inline Eigen::Matrix3d d3(const M3& m) { return m.cast<double>(); }
inline Eigen::Vector3d dv(const V3& v) { return v.cast<double>(); }
inline V3 lv(const Eigen::Vector3d& v) { return v.cast<ld>(); }
}  // namespace rot
