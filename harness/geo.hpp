// Geometry generators and independent reference formulas (nothing here calls OpenGV
// code; only its container typedefs are used).
#pragma once
#include "eigen_pch.h"
#include "pbt.hpp"
#include <opengv/types.hpp>
#include <numeric>

typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 3, 4> M34;
using pbt::Ctx; using pbt::Src;

inline M3 skew(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
inline M3 axisAngle(const V3& a, double ang) { // Rodrigues
  M3 k = skew(a); return M3::Identity() + std::sin(ang) * k + (1.0 - std::cos(ang)) * (k * k);
}
inline double rotErr(const M3& A, const M3& B) { // angle between two rotations (rad), accurate when small
  double f = (A - B).norm() / std::sqrt(8.0); if (!(f < 1)) return f == f ? M_PI : NAN; return 2.0 * std::asin(f);
}
inline bool finite(const Eigen::Ref<const Eigen::MatrixXd>& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) if (!std::isfinite(m(i, j))) return false; return true; }
inline double det3(const M3& m) { return m.col(0).dot(m.col(1).cross(m.col(2))); }
inline double orthoErr(const M3& R) { M3 d = R * R.transpose() - M3::Identity(); return d.norm() + std::fabs(det3(R) - 1.0); }
inline bool isRot(const M3& R, double tol) { return finite(R) && orthoErr(R) < tol; }
inline M3 quatToRot(double w, double x, double y, double z) { // active rotation of a quaternion of any norm
  double n = std::sqrt(w * w + x * x + y * y + z * z); w /= n; x /= n; y /= n; z /= n; V3 v(x, y, z); M3 K; K << 0, -z, y, z, 0, -x, -y, x, 0;
  return M3::Identity() + 2 * w * K + 2 * K * K; }
inline V3 unitVec(Src& s) {
  V3 v(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
  for (int k = 0; k < 20 && (v.norm() > 1 || v.norm() < 0.05); k++) v = V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
  if (v.norm() < 1e-3) v = V3(0, 0, 1);
  return v.normalized();
}
inline V3 vecIn(Src& s, double r) { return V3(s.real(-r, r), s.real(-r, r), s.real(-r, r)); }
// rotation with angle up to maxAngle
inline M3 rotUpTo(Src& s, double maxAngle) { V3 a = unitVec(s); return axisAngle(a, s.from(0, maxAngle)); }
// structured rotations: identity, quarter and half turns about axes, tiny angles
inline M3 rotSpecial(Src& s, std::string* lab = nullptr) {
  int k = s.range(0, 5); M3 R = M3::Identity();
  auto ax = [&] { V3 a = V3::Zero(); a[s.range(0, 2)] = s.chance(0.5) ? -1 : 1; return a; };
  const char* n = "identity";
  if (k == 1) { R = axisAngle(ax(), M_PI / 2).array().round().matrix(); n = "quarter turn"; }
  else if (k == 2) { R = axisAngle(ax(), M_PI).array().round().matrix(); n = "half turn"; }
  else if (k == 3) { R = axisAngle(ax(), s.real(-3, 3)); n = "about an axis"; }
  else if (k == 4) { R = axisAngle(unitVec(s), std::pow(10.0, -s.from(2, 12))); n = "tiny"; }
  else if (k == 5) { R = (axisAngle(ax(), M_PI / 2).array().round().matrix() * axisAngle(ax(), M_PI / 2).array().round().matrix()).eval(); n = "two quarter turns"; }
  if (lab) *lab = n;
  return R;
}
inline M3 anyRot(Src& s) { return s.chance(0.15) ? rotSpecial(s) : rotUpTo(s, M_PI); }
inline double bearErr(const V3& a, const V3& b) { return 1.0 - a.dot(b) / (a.norm() * b.norm()); }
inline double angleOf(const V3& a, const V3& b) { return std::atan2(a.cross(b).norm(), a.dot(b)); }
inline V3 perturb(Src& s, const V3& f, double ang) { // rotate a unit vector by about ang (gaussian)
  V3 t = f.cross(std::fabs(f[0]) < 0.9 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), u = f.cross(t);
  return (f + ang * (s.gauss() * t + s.gauss() * u)).normalized();
}
inline std::string str(const Eigen::Ref<const Eigen::MatrixXd>& m) {
  std::ostringstream o; o.precision(9); o << "["; for (int i = 0; i < m.rows(); i++) { for (int j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j); if (i + 1 < m.rows()) o << "; "; } o << "]"; return o.str();
}
// singular values / eigen decomposition of small symmetric matrices by Jacobi rotations (reference)
template <int N> void jacobiEig(Eigen::Matrix<double, N, N> A, Eigen::Matrix<double, N, 1>& ev, Eigen::Matrix<double, N, N>& V) {
  V.setIdentity();
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0; for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) off += A(i, j) * A(i, j);
    if (off < 1e-300) break;
    for (int p = 0; p < N; p++) for (int q = p + 1; q < N; q++) {
      if (A(p, q) == 0) continue;
      double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < N; k++) { double a = A(k, p), b = A(k, q); A(k, p) = c * a - s * b; A(k, q) = s * a + c * b; }
      for (int k = 0; k < N; k++) { double a = A(p, k), b = A(q, k); A(p, k) = c * a - s * b; A(q, k) = s * a + c * b; }
      for (int k = 0; k < N; k++) { double a = V(k, p), b = V(k, q); V(k, p) = c * a - s * b; V(k, q) = s * a + c * b; }
    }
  }
  for (int i = 0; i < N; i++) ev[i] = A(i, i);
  for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if (ev[j] < ev[i]) { std::swap(ev[i], ev[j]); V.col(i).swap(V.col(j)); }
}
