// P10: transformation-matrix helpers and Euler/angle utilities are consistent.
#include "kin.hpp"
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/transformations.hpp>
PBT_PROPERTY("P10",
             "Rotations of every angle (tiny, series switch-overs, half turns), translations up to 1e3, perturbations and homogeneous points of every "
             "scale, Euler angles up to and beyond the gimbal lock, angles up to 1e9. A case is non-trivial when rotation and translation (or the angle) "
             "are not zero.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<L, 6, 1> V6L;
typedef Eigen::Matrix<double, 4, 6> M46;

static M4L tfL(const M3L& C, const V3L& t) { M4L T = M4L::Identity(); T.block(0, 0, 3, 3) = C; T.block(0, 3, 3, 1) = t; return T; }
/// the generator of a perturbation: minus the translation, plus the rotation
static M4L genL(const V6L& d) { M4L G = M4L::Zero(); G.block(0, 0, 3, 3) = crossL(d.tail<3>()); G.block(0, 3, 3, 1) = -d.head<3>(); return G; }
static V6 vec6(pbt::Source& s, double m) { V6 d; for (int i = 0; i < 6; ++i) d[i] = s.real(m); return d; }
static double mx(const Eigen::MatrixXd& m) { return m.cwiseAbs().maxCoeff(); }

PBT(build_and_take_apart, 40000, 600000) {
  M3 C = rot(s);
  V3 t = vec(s, 1000);
  if (t.norm() > 0 && mx(C - M3::Identity()) > 0) s.nontrivial();
  PBT_NOTE(s, str(C) << str(t));
  M4 T = rt2Transform(C, t);
  PBT_CHECK(T.row(3) == Eigen::RowVector4d(0, 0, 0, 1), "last row");
  PBT_CHECK(transform2C(T) == C && transform2rho(T) == t, "parts");
  PBT_CHECK(transform2rhoHomogeneous(T) == V4(t[0], t[1], t[2], 1), "homogeneous translation");
  PBT_CHECK(rt2Transform(transform2C(T), transform2rho(T)) == T, "rebuilt");
  M4 I = inverseTransform(T);
  double n = t.norm() + 1;
  KIN_NEAR(M4(I * T), M4(M4::Identity()), 2e-15 * n, "left inverse");
  KIN_NEAR(M4(T * I), M4(M4::Identity()), 4e-15 * n, "right inverse");
  PBT_CHECK(I.row(3) == Eigen::RowVector4d(0, 0, 0, 1), "last row");
  KIN_NEAR(inverseTransform(I), T, 4e-15 * n, "inverse of the inverse");
}

PBT(euler_parameters, 40000, 600000) {
  V6 p;
  for (int i = 0; i < 3; ++i) p[i] = s.real(1000);
  for (int i = 3; i < 6; ++i) p[i] = s.real(double(PI));
  bool lock = false;
  switch (s.below(4)) {
    case 0: p[4] = (s.flip() ? -1 : 1) * (double(PI) / 2 - (s.flip() ? 0 : s.logUniform(1e-16, 1e-3))); break;
    case 1: break;  // any pitch
    default: p[4] = s.uniform(-1.5, 1.5); break;
  }
  for (int i = 3; i < 6; ++i) if (s.chance(1, 10)) p[i] = (s.flip() ? -1 : 1) * s.logUniform(1e-300, 1e-8);
  lock = std::fabs(std::cos(p[4])) < 1e-3;
  if (lock) s.label("near gimbal lock");
  if (p.tail<3>().norm() > 0 && p.head<3>().norm() > 0) s.nontrivial();
  PBT_NOTE(s, str(p));
  M4 T = toTEuler(p), U = toTEuler(p[0], p[1], p[2], p[3], p[4], p[5]);
  PBT_CHECK(mx(T - U) <= 4e-15, "both calling forms agree\n" << T << "\n" << U);
  // yaw-pitch-roll composition, in this library's sense: Rz(-h) Ry(-p) Rx(-r)
  M3L E = (rotL(V3(0, 0, p[5])) * rotL(V3(0, p[4], 0)) * rotL(V3(p[3], 0, 0)));
  KIN_NEAR(M3(T.block(0, 0, 3, 3)), E, 1e-15, "rotation");
  PBT_CHECK(V3(T.block(0, 3, 3, 1)) == V3(p.head<3>()) && T.row(3) == Eigen::RowVector4d(0, 0, 0, 1), "translation, last row");
  V6 b = fromTEuler(T);
  PBT_CHECK(b.allFinite() && V3(b.head<3>()) == V3(p.head<3>()), "translation recovered");
  KIN_NEAR(toTEuler(b), T, lock ? 1e-7 : 2e-13, "same transformation");
  bool branch = std::fabs(p[4]) < double(PI) / 2 && std::fabs(p[3]) < 3.1 && std::fabs(p[5]) < 3.1;
  if (branch && !lock) {
    double c = std::cos(p[4]);
    KIN_NEAR(V3(b.tail<3>()), V3(p.tail<3>()), 2e-15 / (c * c), "parameters recovered");
    s.label("parameters recovered");
  }
  PBT_CHECK(std::fabs(b[4]) <= double(PI) / 2 + 1e-15, "pitch range");
}

PBT(euler_families, 40000, 600000) {
  V3 a;
  for (int i = 0; i < 3; ++i) a[i] = s.chance(1, 8) ? s.signedLog(1e-300, 1e-6) : s.real(s.chance(1, 3) ? 100 : double(PI));
  if (s.chance(1, 8)) a[1] = (s.flip() ? -1 : 1) * (double(PI) / 2 - (s.flip() ? 0 : s.logUniform(1e-16, 1e-3)));
  if (a.norm() > 0) s.nontrivial();
  PBT_NOTE(s, str(a));
  M3L X = rotL(V3(-a[0], 0, 0)), Y = rotL(V3(0, -a[1], 0)), Z = rotL(V3(0, 0, -a[2]));
  double tol = 1e-15;
  KIN_NEAR(Rx(a[0]), X, tol, "Rx");
  KIN_NEAR(Ry(a[1]), Y, tol, "Ry");
  KIN_NEAR(Rz(a[2]), Z, tol, "Rz");
  KIN_NEAR(Cx(a[0]), X.transpose(), tol, "Cx");
  KIN_NEAR(Cy(a[1]), Y.transpose(), tol, "Cy");
  KIN_NEAR(Cz(a[2]), Z.transpose(), tol, "Cz");
  M3L R = Z * Y * X;
  M3 r = rph2R(a), c = rph2C(a);
  KIN_NEAR(r, R, tol, "rph2R");
  KIN_NEAR(rph2R(a[0], a[1], a[2]), r, tol, "calling forms");
  M3L Cr = Z.transpose() * Y.transpose() * X.transpose();
  KIN_NEAR(c, Cr, tol, "rph2C");
  KIN_NEAR(rph2C(a[0], a[1], a[2]), c, tol, "calling forms");
  PBT_CHECK(properRotation(r, 4e-15) && properRotation(c, 4e-15), "proper rotations");
  bool lock = std::fabs(std::cos(a[1])) < 1e-3;
  V3 u = R2rph(r), v = C2rph(c);
  PBT_CHECK(u.allFinite() && v.allFinite(), "finite");
  KIN_NEAR(rph2R(u), r, lock ? 1e-7 : 2e-13, "R2rph recovers the rotation");
  KIN_NEAR(rph2C(v), c, lock ? 1e-7 : 2e-13, "C2rph recovers the rotation");
  if (lock) {  // what roundoff may make of such a matrix
    s.label("near gimbal lock");
    M3 r1 = r, c1 = c;
    for (int i = 0; i < 9; ++i) {
      if (std::fabs(r(i)) > 1 - 1e-15) r1(i) = (r(i) < 0 ? -1 : 1) * (1 + double(s.below(5)) * 2.3e-16);
      if (std::fabs(c(i)) > 1 - 1e-15) c1(i) = (c(i) < 0 ? -1 : 1) * (1 + double(s.below(5)) * 2.3e-16);
    }
    V3 u1 = R2rph(r1), v1 = C2rph(c1);
    PBT_CHECK(u1.allFinite() && v1.allFinite(), "finite after roundoff");
    KIN_NEAR(rph2R(u1), r, 1e-7, "R2rph after roundoff");
    KIN_NEAR(rph2C(v1), c, 1e-7, "C2rph after roundoff");
  }
  if (!lock && std::fabs(a[1]) < double(PI) / 2 && std::fabs(a[0]) < 3.1 && std::fabs(a[2]) < 3.1) {
    double k = std::cos(a[1]);
    KIN_NEAR(u, a, 2e-15 / (k * k), "R2rph recovers the angles");
    KIN_NEAR(v, a, 2e-15 / (k * k), "C2rph recovers the angles");
    s.label("angles recovered");
  }
}

PBT(box_operators, 40000, 600000) {
  M3 C = rot(s);
  V3 t = vec(s, 100);
  V6 d = vec6(s, 10);
  V4 p(s.real(100), s.real(100), s.real(100), s.chance(1, 3) ? 1 : s.chance(1, 3) ? 0 : s.real(10));
  if (d.norm() > 0 && p.norm() > 0) s.nontrivial();
  PBT_NOTE(s, str(C) << str(t) << str(d) << str(p));
  M4 T = rt2Transform(C, t);
  double n = t.norm() + 1, m = d.norm() * (p.norm() + 1e-300) + 1e-300;
  M4 B = boxPlus(d);
  KIN_NEAR(B, genL(d.cast<L>()), 0, "box plus");
  M46 A = boxMinus(p);
  KIN_NEAR(V4(B * p), V4(-(A * d)), 4e-15 * m, "perturbing the matrix and the point agree");
  Eigen::Matrix<L, 4, 6> E = Eigen::Matrix<L, 4, 6>::Zero();
  for (int j = 0; j < 6; ++j) { V6L e = V6L::Zero(); e[j] = 1; E.col(j) = -genL(e) * p.cast<L>(); }
  KIN_NEAR(A, E, 1e-17, "box minus");
  Eigen::Matrix<double, 6, 6> X = boxTimes(T);
  M4L TL = T.cast<L>(), IL = TL.inverse();
  KIN_NEAR(boxPlus(X * d), M4L(TL * genL(d.cast<L>()) * IL), 1e-14 * d.norm() * n * n + 1e-300, "conjugation equals the adjoint");
  Eigen::Matrix<L, 6, 6> Ad = Eigen::Matrix<L, 6, 6>::Zero();
  Ad.block(0, 0, 3, 3) = C.cast<L>();
  Ad.block(3, 3, 3, 3) = C.cast<L>();
  Ad.block(0, 3, 3, 3) = -crossL(t.cast<L>()) * C.cast<L>();
  KIN_NEAR(X, Ad, 1e-15 * n, "adjoint");
  // group structure: the adjoint of a product and of the inverse
  M3 C2 = rot(s);
  V3 t2 = vec(s, 10);
  M4 T2 = rt2Transform(C2, t2);
  double n2 = t2.norm() + 1;
  KIN_NEAR((Eigen::Matrix<double, 6, 6>(boxTimes(T2) * X)), boxTimes(T2 * T), 1e-14 * n * n2, "adjoint of a product");
  KIN_NEAR((Eigen::Matrix<double, 6, 6>(boxTimes(inverseTransform(T)) * X)), (Eigen::Matrix<double, 6, 6>(Eigen::Matrix<double, 6, 6>::Identity())), 1e-14 * n * n, "adjoint of the inverse");
}

PBT(point_jacobians, 40000, 600000) {
  M3 C = rot(s);
  V3 t = vec(s, 100);
  V4 p(s.real(100), s.real(100), s.real(100), s.chance(1, 3) ? 1 : s.chance(1, 3) ? 0 : s.real(10));
  if (t.norm() > 0 && p.norm() > 0) s.nontrivial();
  PBT_NOTE(s, str(C) << str(t) << str(p));
  M4 T = rt2Transform(C, t);
  M4L TL = T.cast<L>(), IL = M4L::Identity();
  IL.block(0, 0, 3, 3) = C.cast<L>().transpose();
  IL.block(0, 3, 3, 1) = -C.cast<L>().transpose() * t.cast<L>();
  V4L pl = p.cast<L>();
  double n = t.norm() + 1, k = p.norm() + 1e-300;
  V4 v;
  M46 J;
  v.setConstant(-7);
  J.setConstant(-7);
  transformationAndJacobian(T, p, v, J);
  KIN_NEAR(v, TL * pl, 2e-15 * n * k, "transformed point");
  KIN_NEAR(v, V4(T * p), 2e-15 * n * k, "transformed point");
  Eigen::Matrix<L, 4, 6> E, F;
  for (int j = 0; j < 6; ++j) {
    V6L e = V6L::Zero();
    e[j] = 1;
    E.col(j) = -genL(e) * (TL * pl);   // T -> (1 - G)T
    F.col(j) = IL * genL(e) * pl;      // T^-1 -> T^-1(1 + G)
  }
  KIN_NEAR(J, E, 4e-15 * n * k, "Jacobian");
  v.setConstant(-7);
  J.setConstant(-7);
  inverseTransformationAndJacobian(T, p, v, J);
  KIN_NEAR(v, IL * pl, 4e-15 * n * k, "inversely transformed point");
  KIN_NEAR(J, F, 4e-15 * n * k, "inverse Jacobian");
  // numerically
  double h = 1e-6;
  V6L e;
  for (int i = 0; i < 6; ++i) e[i] = s.uniform(-1, 1);
  V4L num = ((M4L::Identity() - L(h) * genL(e)) * TL).inverse() * pl - ((M4L::Identity() + L(h) * genL(e)) * TL).inverse() * pl;
  KIN_NEAR(V4L(J.cast<L>() * e), V4L(num / (2 * L(h))), 1e-10 * n * k, "central difference");
}

PBT(angles, 60000, 600000) {
  double x;
  L tau = 2 * PI;
  int64_t turns = s.range(-1000000, 1000000);
  switch (s.below(6)) {
    case 0: x = double(L(s.range(-1000, 1000)) * PI) + s.real(1e-6); break;
    case 1: x = double(tau * turns) + s.real(4); break;
    case 2: x = s.signedLog(1e-300, s.flip() ? 1e9 : 1e12); break;
    case 3: x = (s.flip() ? -1 : 1) * (SM_PI + double(s.range(-4, 4)) * 4.44e-16); break;
    case 4: x = s.real(10); break;
    default: x = double(s.range(-1000, 1000)); break;
  }
  if (x != 0) s.nontrivial();
  PBT_NOTE(s, x);
  double m = angleMod(x);
  double slack = 4e-16 * std::fabs(x) + 1e-15;
  PBT_CHECK(std::fabs(m) <= SM_PI + slack, "within half a turn: " << m);
  L k = std::nearbyint((L(x) - L(m)) / tau);
  PBT_NEAR(double(L(x) - L(m) - k * tau), 0, slack, "equivalent angle " << m);
  if (std::fabs(x) < 3.14159) PBT_CHECK(m == x, "already wrapped, got " << m);
  PBT_NEAR(angleMod(m) - m, 0, 1e-15 + (std::fabs(std::fabs(m) - SM_PI) <= 2 * slack ? 7 : 0), "idempotent");
  double d = deg2rad(x), r = rad2deg(x);
  PBT_NEAR(d, double(L(x) * PI / 180), 1e-13 * std::fabs(d) + 1e-300, "radians");
  PBT_NEAR(r, double(L(x) * 180 / PI), 1e-13 * std::fabs(r) + 1e-300, "degrees");
  PBT_NEAR(rad2deg(d), x, 2e-13 * std::fabs(x) + 1e-300, "there and back");
  PBT_NEAR(deg2rad(r), x, 2e-13 * std::fabs(x) + 1e-300, "there and back");
}

PBT(cross_product, 40000, 400000) {
  V3 a = vec(s, 1000), b = vec(s, 1000);
  if (a.norm() > 0 && b.norm() > 0) s.nontrivial();
  PBT_NOTE(s, str(a) << str(b));
  M3 X = crossMx(a);
  V3 c(double(L(a[1]) * b[2] - L(a[2]) * b[1]), double(L(a[2]) * b[0] - L(a[0]) * b[2]), double(L(a[0]) * b[1] - L(a[1]) * b[0]));
  double m = a.norm() * b.norm();
  KIN_NEAR(V3(X * b), c, 1e-15 * m + 1e-300, "cross product");
  PBT_CHECK(X == M3(-X.transpose()), "antisymmetric");
  PBT_CHECK(crossMx(a[0], a[1], a[2]) == X, "calling forms");
  Eigen::VectorXd ad = a;
  PBT_CHECK(crossMx(ad) == X, "dynamic vector");
  Eigen::Vector3f f = a.cast<float>(), g = b.cast<float>();
  Eigen::Matrix3f F = crossMx(f);
  Eigen::VectorXf fd = f;
  PBT_CHECK(crossMx(fd) == F && crossMx(f[0], f[1], f[2]) == F, "single precision");
  KIN_NEAR(Eigen::Vector3f(F * g), V3(V3(f.cast<double>()).cross(V3(g.cast<double>()))), 1e-6 * m + 1e-30, "single precision");
}
