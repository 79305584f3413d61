// Generators and long-double reference formulas shared by the kinematics checks.
// The references are written from the mathematics (exponential map and its power series), not from /repo.
#ifndef VERIF_KIN_HPP
#define VERIF_KIN_HPP
#include "pbt.hpp"
#include <Eigen/Core>
#include <Eigen/Dense>

namespace kin {
typedef long double L;
typedef Eigen::Matrix<L, 3, 1> V3L;
typedef Eigen::Matrix<L, 4, 1> V4L;
typedef Eigen::Matrix<L, 3, 3> M3L;
typedef Eigen::Matrix<L, 4, 4> M4L;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
const L PI = 3.14159265358979323846264338327950288L;
const double EPS = 2.220446049250313e-16;

// ---------------------------------------------------------------- forward-mode differentiation (long double)
template <int N>
struct Dual {
  L v;
  L d[N];
  Dual(L x = 0) : v(x) { for (int i = 0; i < N; ++i) d[i] = 0; }
  static Dual var(L x, int i) { Dual r(x); r.d[i] = 1; return r; }
};
template <int N> Dual<N> operator+(const Dual<N>& a, const Dual<N>& b) { Dual<N> r(a.v + b.v); for (int i = 0; i < N; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
template <int N> Dual<N> operator-(const Dual<N>& a, const Dual<N>& b) { Dual<N> r(a.v - b.v); for (int i = 0; i < N; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
template <int N> Dual<N> operator-(const Dual<N>& a) { return Dual<N>(0) - a; }
template <int N> Dual<N> operator*(const Dual<N>& a, const Dual<N>& b) { Dual<N> r(a.v * b.v); for (int i = 0; i < N; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
template <int N> Dual<N> operator/(const Dual<N>& a, const Dual<N>& b) { Dual<N> r(a.v / b.v); for (int i = 0; i < N; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }
template <int N> Dual<N> chain(const Dual<N>& a, L f, L df) { Dual<N> r(f); for (int i = 0; i < N; ++i) r.d[i] = df * a.d[i]; return r; }
template <int N> Dual<N> sqrt(const Dual<N>& a) { L f = std::sqrt(a.v); return chain(a, f, 0.5L / f); }
template <int N> Dual<N> sin(const Dual<N>& a) { return chain(a, std::sin(a.v), std::cos(a.v)); }
template <int N> Dual<N> cos(const Dual<N>& a) { return chain(a, std::cos(a.v), -std::sin(a.v)); }
template <int N> Dual<N> atan2(const Dual<N>& y, const Dual<N>& x) {
  Dual<N> r(std::atan2(y.v, x.v));
  L n = x.v * x.v + y.v * y.v;
  for (int i = 0; i < N; ++i) r.d[i] = (x.v * y.d[i] - y.v * x.d[i]) / n;
  return r;
}
inline L value(L x) { return x; }
template <int N> L value(const Dual<N>& x) { return x.v; }

// ---------------------------------------------------------------- exponential map, any scalar T (L or Dual)
/// sum_{k} (-1)^k s^k / (2k+off)!  for s = theta^2;  off = 0: cos, 1: sin(t)/t, 2: (1-cos t)/t^2, 3: (t-sin t)/t^3
template <class T>
T series(const T& s, int off) {
  T r(L(0)), pw(L(1));
  L f = 1;
  for (int i = 2; i <= off; ++i) f *= i;
  T term = pw;
  L den = f;
  L sign = 1;
  for (int k = 0; k < 60; ++k) {
    r = r + pw * T(sign / den);
    pw = pw * s;
    den *= L(2 * k + off + 1) * L(2 * k + off + 2);
    sign = -sign;
    if (den > 1e1000L) break;
  }
  (void)term;
  return r;
}
template <class T> T cosS(const T& s) { using std::cos; using std::sqrt; if (value(s) < 4) return series(s, 0); return cos(sqrt(s)); }
template <class T> T sincS(const T& s) { using std::sin; using std::sqrt; if (value(s) < 4) return series(s, 1); T t = sqrt(s); return sin(t) / t; }
template <class T> T coscS(const T& s) { using std::cos; using std::sqrt; if (value(s) < 4) return series(s, 2); T t = sqrt(s); return (T(L(1)) - cos(t)) / s; }

template <class T> struct Vec3 { T x[3]; T& operator[](int i) { return x[i]; } const T& operator[](int i) const { return x[i]; } };
template <class T> struct Quat { T x[4]; T& operator[](int i) { return x[i]; } const T& operator[](int i) const { return x[i]; } };
template <class T> struct Mat3 { T x[3][3]; T* operator[](int i) { return x[i]; } const T* operator[](int i) const { return x[i]; } };
template <class T> Mat3<T> cross(const Vec3<T>& v) {
  T z(L(0));
  return Mat3<T>{{{z, T(L(0)) - v[2], v[1]}, {v[2], z, T(L(0)) - v[0]}, {T(L(0)) - v[1], v[0], z}}};
}
template <class T> Mat3<T> mul(const Mat3<T>& a, const Mat3<T>& b) {
  Mat3<T> r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { T s(L(0)); for (int k = 0; k < 3; ++k) s = s + a[i][k] * b[k][j]; r[i][j] = s; }
  return r;
}
template <class T> Vec3<T> mul(const Mat3<T>& a, const Vec3<T>& b) {
  Vec3<T> r;
  for (int i = 0; i < 3; ++i) { T s(L(0)); for (int k = 0; k < 3; ++k) s = s + a[i][k] * b[k]; r[i] = s; }
  return r;
}
/// the (passive) rotation matrix of a rotation vector in this library's convention: exp(-[v]x)
template <class T> Mat3<T> rotT(const Vec3<T>& v) {
  T s = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
  T a = sincS(s), b = coscS(s);
  Mat3<T> X = cross(v), X2 = mul(X, X), R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = T(L(i == j)) - a * X[i][j] + b * X2[i][j];
  return R;
}
template <class T> Quat<T> quatT(const Vec3<T>& v) {
  T s = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) * T(0.25L);
  T a = sincS(s) * T(0.5L);
  return Quat<T>{{v[0] * a, v[1] * a, v[2] * a, cosS(s)}};
}
inline M3L rotL(const V3L& v) { Mat3<L> m = rotT(Vec3<L>{{v[0], v[1], v[2]}}); M3L R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = m[i][j]; return R; }
inline M3L rotL(const V3& v) { return rotL(V3L(v.cast<L>())); }
inline V4L quatL(const V3& v) { Quat<L> q = quatT(Vec3<L>{{L(v[0]), L(v[1]), L(v[2])}}); return V4L(q[0], q[1], q[2], q[3]); }
inline M3L crossL(const V3L& v) { M3L X; X << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return X; }
/// passive rotation matrix of a (unit) quaternion, scalar last
inline M3L quatRotL(V4L q) {
  q /= q.norm();
  M3L X = crossL(q.head<3>());
  return M3L::Identity() - 2 * q[3] * X + 2 * X * X;
}
inline M3L quatRotL(const V4& q) { return quatRotL(V4L(q.cast<L>())); }
template <class A, class B>
double maxDiff(const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_) {
  const Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> a = a_.template cast<L>(), b = b_.template cast<L>();
  double m = 0;
  if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      double d = double(std::fabs(a(i, j) - b(i, j)));
      if (std::isnan(d)) return NAN;
      if (d > m) m = d;
    }
  return m;
}
template <class A> std::string str(const Eigen::MatrixBase<A>& m_) {
  const Eigen::Matrix<typename A::Scalar, Eigen::Dynamic, Eigen::Dynamic> m = m_;
  std::ostringstream o;
  o.precision(17);
  for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) o << (j ? " " : i ? "; " : "[") << m(i, j); }
  o << "]";
  return o.str();
}
#define KIN_NEAR(A, B, TOL, MSG)                                                                                          \
  do {                                                                                                                    \
    const double kin_d_ = kin::maxDiff((A), (B));                                                                         \
    const double kin_t_ = 4 * (TOL);                                                                                          \
    if (!(kin_d_ <= kin_t_)) PBT_FAIL(#A " ~ " #B ": difference " << kin_d_ << " tolerance " << kin_t_ << "\n" << (A) << "\nexpected\n" << (B) << "\n" << MSG); \
  } while (0)

// ---------------------------------------------------------------- generators
inline V3 axis(pbt::Source& s) {
  V3 a = V3::Zero();
  switch (s.below(4)) {
    case 0: a[int(s.below(3))] = s.flip() ? -1 : 1; return a;
    case 1: {  // almost along an axis
      a[int(s.below(3))] = s.flip() ? -1 : 1;
      a[int(s.below(3))] += s.signedLog(1e-18, 1e-3);
      break;
    }
    case 2: { int i = int(s.below(3)); for (int k = 0; k < 3; ++k) a[k] = k == i ? 0 : (s.flip() ? -1 : 1); break; }
    default: for (int k = 0; k < 3; ++k) a[k] = s.normal(); break;
  }
  double n = a.norm();
  if (!(n > 1e-6)) return V3::UnitX();
  return a / n;
}
/// rotation angle in [0, max]: zero, tiny (down to underflow), around the series switch-overs, generic, near max
inline double angle(pbt::Source& s, double max) {
  switch (s.below(10)) {
    case 0: return 0;
    case 1: return s.logUniform(1e-320, 1e-12);
    case 2: return s.logUniform(1e-16, 1e-11);
    case 3: return s.logUniform(1e-11, 1e-2);
    case 4: return s.logUniform(1e-5, 1e-3);
    case 5: return max - s.logUniform(1e-16, 1e-3) * max;
    case 6: return max;
    case 7: return double(PI) / s.pick({2.0, 3.0, 4.0, 6.0}) * (1 + s.below(3) * EPS);
    default: return s.uniform(0, max);
  }
}
inline V3 rotVec(pbt::Source& s, double max = double(PI)) { return axis(s) * angle(s, max); }
/// unit quaternion to working precision, either sign
inline V4 quat(pbt::Source& s, double max = double(PI)) {
  V4L q = quatL(rotVec(s, max));
  if (s.flip()) q = -q;
  return q.cast<double>();
}
inline M3 rot(pbt::Source& s, double max = double(PI)) { return rotL(rotVec(s, max)).cast<double>(); }
/// vector of moderate magnitude
inline V3 vec(pbt::Source& s, double mag = 100) { return V3(s.real(mag), s.real(mag), s.real(mag)); }
/// random symmetric positive semi-definite matrix, possibly singular or zero
inline Eigen::MatrixXd psd(pbt::Source& s, int n, double mag = 1) {
  int rank = int(s.below(n + 2));
  if (rank > n) rank = n;
  Eigen::MatrixXd A(n, rank ? rank : 1);
  A.setZero();
  for (int i = 0; i < n; ++i) for (int j = 0; j < rank; ++j) A(i, j) = s.real(mag);
  if (s.chance(1, 4)) A *= s.logUniform(1e-12, 1e-1);  // small, but not nothing
  Eigen::MatrixXd U = A * A.transpose();
  return 0.5 * (U + U.transpose());
}
inline bool properRotation(const Eigen::MatrixXd& R, double tol) {
  return R.rows() == 3 && (R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff() <= tol && std::fabs(R.determinant() - 1) <= tol;
}
}  // namespace kin
#endif
