// P03: every rotation parametrisation agrees with its own kinematics.
#include "kin.hpp"
#include <memory>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/rotations.hpp>
PBT_PROPERTY("P03",
             "Each of the five parametrisations with parameter vectors that are zero, tiny (down to underflow), generic, near and beyond half turns and near "
             "each parametrisation's singularity; rates of any direction and magnitude; rotation matrices rounded from references or products of rotations. "
             "References come from the defining matrix products and power series with forward-mode differentiation in extended precision, the reference "
             "rate matrix being itself checked against the differentiated reference rotation. A case is non-trivial when the parameter vector "
             "is tiny or near a singularity, or the matrix carries rounding noise.")
using namespace kin;
using namespace sm::kinematics;

enum Kind { RV, ER, ZYX, ZXY, YPR };
static const char* const kNames[] = {"RotationVector", "EulerRodriguez", "EulerAnglesZYX", "EulerAnglesZXY", "EulerAnglesYawPitchRoll"};
static std::unique_ptr<RotationalKinematics> make(Kind k) {
  switch (k) {
    case RV: return std::unique_ptr<RotationalKinematics>(new RotationVector);
    case ER: return std::unique_ptr<RotationalKinematics>(new EulerRodriguez);
    case ZYX: return std::unique_ptr<RotationalKinematics>(new EulerAnglesZYX);
    case ZXY: return std::unique_ptr<RotationalKinematics>(new EulerAnglesZXY);
    default: return std::unique_ptr<RotationalKinematics>(new EulerAnglesYawPitchRoll);
  }
}

// ---- references -----------------------------------------------------------------------------
template <class T> static Mat3<T> axisRot(int ax, const T& a) {  // active rotation about a principal axis
  using std::sin; using std::cos;
  T c = cos(a), s = sin(a), o(L(1)), z(L(0));
  T m = z - s;
  if (ax == 0) return Mat3<T>{{{o, z, z}, {z, c, m}, {z, s, c}}};
  if (ax == 1) return Mat3<T>{{{c, z, s}, {z, o, z}, {m, z, c}}};
  return Mat3<T>{{{c, m, z}, {s, c, z}, {z, z, o}}};
}
template <class T> static Mat3<T> identity() { Mat3<T> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = T(L(i == j)); return r; }
template <class T> static Mat3<T> lin(const Mat3<T>& a, const T& f, const Mat3<T>& b, const T& g, const Mat3<T>& c) {  // a + f b + g c
  Mat3<T> r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[i][j] + f * b[i][j] + g * c[i][j];
  return r;
}
template <class T> static T cubicS(const T& s) {
  using std::sin; using std::sqrt;
  if (value(s) < 4) return series(s, 3);
  T t = sqrt(s);
  return (t - sin(t)) / (s * t);
}
template <class T> static Mat3<T> refC(Kind k, const Vec3<T>& p) {
  T z(L(0)), o(L(1));
  switch (k) {
    case RV: return rotT(p);
    case ER: {
      Mat3<T> X = cross(p);
      T f = T(L(2)) / (o + p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
      return lin(identity<T>(), z - f, X, f, mul(X, X));
    }
    case ZYX: return mul(mul(axisRot(2, T(z - p[0])), axisRot(1, T(z - p[1]))), axisRot(0, T(z - p[2])));
    case ZXY: return mul(mul(axisRot(2, p[0]), axisRot(0, p[1])), axisRot(1, p[2]));
    default: return mul(mul(axisRot(2, p[0]), axisRot(1, p[1])), axisRot(0, p[2]));
  }
}
template <class T> static Mat3<T> refS(Kind k, const Vec3<T>& p) {
  T z(L(0)), o(L(1));
  Mat3<T> X = cross(p);
  if (k == RV) {
    T s = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
    return lin(identity<T>(), z - coscS(s), X, cubicS(s), mul(X, X));
  }
  if (k == ER) {
    T f = T(L(2)) / (o + p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
    return lin(Mat3<T>{{{f, z, z}, {z, f, z}, {z, z, f}}}, z - f, X, z, X);
  }
  // Euler sequences: columns are the (negated, for positive angles) instantaneous axes
  int a1 = k == ZXY ? 0 : 1, a2 = k == ZXY ? 1 : 0;
  T sgn = k == ZYX ? T(L(-1)) : T(L(1));
  Mat3<T> A = axisRot(2, sgn * p[0]), B = mul(A, axisRot(a1, sgn * p[1]));
  Mat3<T> S;
  for (int i = 0; i < 3; ++i) {
    S[i][0] = z - sgn * T(L(i == 2));
    S[i][1] = z - sgn * A[i][a1];
    S[i][2] = z - sgn * B[i][a2];
  }
  return S;
}
template <class T> static M3L toM(const Mat3<T>& m) { M3L r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = value(m[i][j]); return r; }
static M3L refCL(Kind k, const V3& p) { return toM(refC<L>(k, Vec3<L>{{p[0], p[1], p[2]}})); }
static M3L refSL(Kind k, const V3& p) { return toM(refS<L>(k, Vec3<L>{{p[0], p[1], p[2]}})); }

// ---- generators -----------------------------------------------------------------------------
static V3 params(pbt::Source& s, Kind k) {
  V3 p;
  if (k == RV) p = rotVec(s, s.chance(1, 3) ? 2 * double(PI) : double(PI));
  else if (k == ER) p = axis(s) * (s.chance(1, 3) ? s.logUniform(1e-12, 1e4) : std::tan(std::min(angle(s, double(PI)), 3.14) / 2));
  else
    for (int i = 0; i < 3; ++i) {
      p[i] = (s.flip() ? -1 : 1) * angle(s, double(PI));
      if (i == 1 && !s.chance(1, 4)) p[i] *= 0.5;  // beyond a quarter turn: the same formulas hold, the angles are not those recovered
    }
  if (s.chance(1, 12)) p.setZero();
  if (p.norm() < 1e-3) s.nontrivial(), s.label("near zero");
  if (k == RV && p.norm() > double(PI) - 1e-3) s.nontrivial(), s.label("half turn");
  if (k >= ZYX && std::fabs(std::cos(p[1])) < 1e-3) s.nontrivial(), s.label("near singular");
  return p;
}
static Kind kind(pbt::Source& s) { Kind k = Kind(s.below(5)); s.label(kNames[k]); return k; }

PBT(parameters_to_matrix_and_rates, 80000, 1200000) {
  Kind k = kind(s);
  auto K = make(k);
  V3 p = params(s, k);
  PBT_NOTE(s, kNames[k] << " " << str(p));
  M3 S;
  S.setConstant(-7);
  M3 C = K->parametersToRotationMatrix(p, &S);
  M3L Cr = refCL(k, p), Sr = refSL(k, p);
  KIN_NEAR(C, Cr, 4e-15, "rotation matrix for " << str(p));
  PBT_CHECK(properRotation(C, 2e-14), "proper rotation");
  KIN_NEAR(K->parametersToRotationMatrix(p), C, 0, "without rate matrix");
  KIN_NEAR(S, Sr, 4e-15, "rate matrix as by-product");
  KIN_NEAR(K->parametersToSMatrix(p), Sr, 4e-15, "rate matrix");
  // the reference itself: C' = -[S e_k]x C
  Vec3<Dual<3>> pd{{Dual<3>::var(p[0], 0), Dual<3>::var(p[1], 1), Dual<3>::var(p[2], 2)}};
  Mat3<Dual<3>> Cd = refC(k, pd);
  for (int j = 0; j < 3; ++j) {
    M3L D;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) D(a, b) = Cd[a][b].d[j];
    M3L X = -crossL(V3L(Sr.col(j))) * Cr;
    KIN_NEAR(D, X, 1e-16, "reference rate matrix, column " << j);
  }
  if (k == RV && p.norm() < 2 * double(PI) - 1e-2) {
    M3 Si = RotationVector().parametersToInverseSMatrix(p);
    double m = 1 + 10 / (2 * double(PI) - p.norm());
    KIN_NEAR(M3(Si * S), M3::Identity(), 4e-15 * m * m, "inverse rate matrix inverts");
    KIN_NEAR(M3(S * Si), M3::Identity(), 4e-15 * m * m, "inverse rate matrix inverts");
  }
}

PBT(matrix_to_parameters, 80000, 1200000) {
  Kind k = kind(s);
  auto K = make(k);
  M3L Cl = rotL(rotVec(s));
  if (k >= ZYX && s.flip()) Cl = refCL(k, params(s, k));
  M3 C = Cl.cast<double>();
  if (s.flip()) {
    M3 A = rot(s);
    C = A * (A.transpose() * C);
    s.label("noisy");
    s.nontrivial();
  }
  PBT_NOTE(s, kNames[k] << " " << str(C));
  double c = (C.trace() - 1) / 2;
  if (c > 1 - 1e-6) s.nontrivial(), s.label("near identity");
  if (c < -1 + 1e-6) s.nontrivial(), s.label("half turn");
  double tol = 8e-15;
  V3 p = K->rotationMatrixToParameters(C);
  if (k == ER) {
    double gap = 1 + c;  // = 2 cos^2(angle / 2), vanishes at half turns
    if (gap < 1e-6) {
      // up to where the numbers of the matrix no longer tell the turn from half a turn
      const double sine = V3(C(2, 1) - C(1, 2), C(0, 2) - C(2, 0), C(1, 0) - C(0, 1)).norm() / 2;
      if (sine < 1e-12) return;
      s.label("almost a half turn");
      tol = 1e-12;
    } else {
      tol /= gap;
    }
  } else if (k >= ZYX) {
    double sp = k == ZXY ? C(2, 1) : C(2, 0), cp = std::sqrt(std::max(0.0, 1 - sp * sp));
    PBT_CHECK(p.allFinite(), "finite " << str(p));
    if (cp < 1e-6) return;
    tol /= cp;
  } else {
    PBT_CHECK(p.norm() <= double(PI) * (1 + 16 * EPS), "angle at most half a turn: " << str(p));
  }
  PBT_CHECK(p.allFinite(), "finite " << str(p));
  KIN_NEAR(K->parametersToRotationMatrix(p), C, tol, "parameters " << str(p));
}

PBT(parameters_recovered, 60000, 900000) {  // inside the principal domain the parameters themselves come back
  Kind k = kind(s);
  auto K = make(k);
  V3 p = params(s, k);
  if (k == RV && p.norm() > double(PI) - 1e-3) p *= (double(PI) - 1e-3) / p.norm();
  if (k == ER && p.norm() > 1e3) p *= 1e3 / p.norm();
  if (k >= ZYX && std::fabs(p[1]) > 1.57) p[1] = 1.57;
  double tol = 4e-15;
  if (k == RV) tol *= 1 + 1 / (double(PI) - p.norm());
  if (k == ER) tol *= std::pow(1 + p.squaredNorm(), 1.5);
  if (k >= ZYX) tol /= std::cos(p[1]);
  PBT_NOTE(s, kNames[k] << " " << str(p));
  V3 q = K->rotationMatrixToParameters(K->parametersToRotationMatrix(p));
  for (int i = 0; i < 3; ++i) {
    double d = q[i] - p[i];
    if (k >= ZYX) d = std::remainder(d, 2 * double(PI));
    PBT_NEAR(d, 0, 4 * tol, "parameter " << i << " of " << str(p) << " came back as " << str(q));
  }
}

PBT(angular_velocity, 80000, 1200000) {
  Kind k = kind(s);
  auto K = make(k);
  V3 p = params(s, k);
  V3 r = axis(s) * s.logUniform(1e-3, 1e3);
  if (s.chance(1, 10)) r.setZero();
  PBT_NOTE(s, kNames[k] << " p " << str(p) << " rate " << str(r));
  Eigen::Matrix<double, 3, 6> J;
  J.setConstant(-7);
  V3 w = K->angularVelocityAndJacobian(p, r, &J);
  V3 w0 = K->angularVelocityAndJacobian(p, r, nullptr);
  PBT_CHECK(w == w0, "same without Jacobian");
  M3L Sr = refSL(k, p);
  double n = r.norm();
  KIN_NEAR(w, V3L(Sr * r.cast<L>()), 4e-15 * n, "angular velocity");
  KIN_NEAR(w, V3(K->parametersToSMatrix(p) * r), 4e-15 * n, "rate matrix times rate");
  Vec3<Dual<3>> pd{{Dual<3>::var(p[0], 0), Dual<3>::var(p[1], 1), Dual<3>::var(p[2], 2)}};
  Vec3<Dual<3>> rd{{Dual<3>(r[0]), Dual<3>(r[1]), Dual<3>(r[2])}};
  Vec3<Dual<3>> wd = mul(refS(k, pd), rd);
  Eigen::Matrix<L, 3, 6> Jr;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) Jr(i, j) = wd[i].d[j], Jr(i, j + 3) = Sr(i, j);
  KIN_NEAR(Eigen::MatrixXd(J.rightCols<3>()), Eigen::MatrixXd(Jr.rightCols<3>().cast<double>()), 4e-15, "derivative with respect to the rates at " << str(p));
  KIN_NEAR(Eigen::MatrixXd(J.leftCols<3>()), Eigen::MatrixXd(Jr.leftCols<3>().cast<double>()), 1e-10 * n, "derivative with respect to the parameters at " << str(p) << " rate " << str(r));
}

PBT(copies, 500, 2000) {  // parametrisations are stateless: copies behave alike
  EulerAnglesZXY a, b(a), c;
  c = a;
  V3 p = params(s, ZXY);
  s.nontrivial();
  PBT_CHECK(a.parametersToRotationMatrix(p) == b.parametersToRotationMatrix(p) && a.parametersToRotationMatrix(p) == c.parametersToRotationMatrix(p), "copy");
}
