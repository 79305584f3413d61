// P01: quaternion, rotation matrix and axis-angle vector describe the same rotation.
#include "kin.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
PBT_PROPERTY("P01",
             "Rotation vectors combine an axis (aligned, nearly aligned, diagonal, random) with an angle that is zero, tiny down to underflow, around "
             "the series switch-overs, generic, or at and near a half turn; quaternions take either sign; matrices are rounded references or products "
             "of rotations. A case is non-trivial when the angle is tiny, near or at a half turn, or the quaternion has negative scalar part.")
using namespace kin;
using namespace sm::kinematics;

static void classify(pbt::Source& s, double a, double eta = 1) {
  if (a < 1e-3) s.label("tiny"), s.nontrivial();
  if (a > double(PI) - 1e-3) s.label("half turn"), s.nontrivial();
  if (eta < 0) s.label("negative"), s.nontrivial();
}

PBT(axis_angle_to_quaternion, 60000, 900000) {
  V3 v = rotVec(s, s.flip() ? double(PI) : 2 * double(PI));
  PBT_NOTE(s, str(v));
  classify(s, v.norm());
  V4 q = axisAngle2quat(v);
  V4L e = quatL(v);
  for (int i = 0; i < 3; ++i) PBT_NEAR(q[i], double(e[i]), 4e-15 * std::min(v.norm(), 1.0) + 1e-322, "component " << i << " of " << str(v));
  PBT_NEAR(q[3], double(e[3]), 16 * EPS, "scalar part");
  PBT_NEAR(q.norm(), 1, 16 * EPS, "unit");
  V4 qe = qexp(v);
  PBT_CHECK(qe == q, "qexp");
  KIN_NEAR(quat2r(q), rotL(v), 3e-15, str(v));
}

PBT(quaternion_to_axis_angle, 60000, 900000) {
  V3 v = rotVec(s);
  V4L ql = quatL(v);
  bool neg = s.flip();
  if (neg) ql = -ql;
  V4 q = ql.cast<double>();
  PBT_NOTE(s, "q " << str(q));
  classify(s, v.norm(), q[3]);
  V3 r = quat2AxisAngle(q);
  PBT_CHECK(r.allFinite(), "finite for " << str(q) << " got " << str(r));
  PBT_CHECK(r.norm() <= 2 * double(PI) * (1 + 16 * EPS), "angle at most a full turn");
  KIN_NEAR(rotL(r), quatRotL(q), 8e-15, str(q));
  V3 rl = qlog(q);
  PBT_CHECK(rl == r, "qlog");
  if (!neg && q[3] > 0) {  // angle below a half turn: the vector itself, to relative accuracy
    double tol = 16 * EPS * v.norm() + 1e-323;
    for (int i = 0; i < 3; ++i) PBT_NEAR(r[i], v[i], tol * 2, "component " << i << " of " << str(v) << " from " << str(q));
    V4 q2 = axisAngle2quat(r);
    for (int i = 0; i < 4; ++i) PBT_NEAR(q2[i], q[i], 32 * EPS * (i < 3 ? q.head<3>().norm() + 1e-308 : 1), "log and exp are inverse " << str(q));
  }
  Eigen::Vector4f qf = ql.cast<float>();
  Eigen::Vector3f rf = quat2AxisAngle<float>(qf);
  PBT_CHECK(rf.allFinite(), "single precision finite for " << str(qf));
  KIN_NEAR(rotL(V3(rf.cast<double>())), quatRotL(V4(qf.cast<double>())), 4e-6, "single precision " << str(qf));
  if (!neg && qf[3] > 0 && v.norm() > 1e-15) PBT_NEAR((rf.cast<double>() - v).norm(), 0, 4e-6 * v.norm(), "single precision relative accuracy");
}

PBT(minus_identity, 200, 400) {  // the rotation by nothing with the other sign, and its immediate surroundings
  V4 q(0, 0, 0, -1);
  for (int i = 0; i < 3; ++i) if (s.flip()) q[i] = s.signedLog(1e-323, 1e-9);
  s.nontrivial();
  PBT_NOTE(s, str(q));
  V3 r = quat2AxisAngle(q);
  PBT_CHECK(r.allFinite(), "finite for " << str(q) << ", got " << str(r));
  KIN_NEAR(rotL(r), quatRotL(q), 8e-15, str(q));
}

static M3 someMatrix(pbt::Source& s, double& ang) {
  V3 v = rotVec(s);
  ang = v.norm();
  M3 R = rotL(v).cast<double>();
  if (s.flip()) {  // as the result of arithmetic: entries a few units in the last place away
    V3 w = rotVec(s);
    M3 A = rotL(w).cast<double>();
    R = A * (A.transpose() * R);
  }
  return R;
}

PBT(matrix_to_others, 60000, 900000) {
  double a;
  M3 R = someMatrix(s, a);
  PBT_NOTE(s, str(R));
  classify(s, a);
  V4 q = r2quat(R);
  PBT_CHECK(q.allFinite(), "finite");
  PBT_NEAR(q.norm(), 1, 4e-15, "unit quaternion from " << str(R));
  PBT_CHECK(q[3] >= 0, "scalar part not negative");
  KIN_NEAR(R, quatRotL(q), 6e-15, "quaternion " << str(q));
  KIN_NEAR(quat2r(q), R, 6e-15, "there and back");
  V3 v = R2AxisAngle(R);
  PBT_CHECK(v.allFinite(), "finite");
  PBT_CHECK(v.norm() <= double(PI) * (1 + 16 * EPS), "angle within half a turn");
  KIN_NEAR(R, rotL(v), 8e-15, "axis angle " << str(v));
  M3 B = axisAngle2R(v);
  KIN_NEAR(B, R, 2e-12, "there and back, axis angle " << str(v));
  V4 q2 = axisAngle2quat(v);
  if (q2.dot(q) < 0) q2 = -q2;
  KIN_NEAR(q2, q, 8e-15, "both quaternions agree up to sign");
}

PBT(axis_angle_to_matrix, 60000, 900000) {
  V3 v = rotVec(s, s.flip() ? double(PI) : 2 * double(PI));
  double a = v.norm();
  PBT_NOTE(s, str(v));
  classify(s, a);
  double tol = 4e-15 + (a < 1e-12 ? a : 0);
  M3 R = axisAngle2R(v);
  KIN_NEAR(R, rotL(v), tol, str(v));
  PBT_CHECK(properRotation(R, 1e-14), "proper rotation");
  PBT_CHECK(axisAngle2R(v[0], v[1], v[2]) == R, "component form");
  // explicit angle and axis, angles of either sign and beyond a turn
  V3 ax = axis(s);
  double b = s.flip() ? -angle(s, double(PI)) : s.uniform(-20, 20);
  PBT_NOTE(s, "angle " << b << " axis " << str(ax));
  if (b < 0) s.label("negative angle"), s.nontrivial();
  M3 Q = axisAngle2R(b, ax[0], ax[1], ax[2]);
  V3L bl = ax.cast<L>() * L(b);
  KIN_NEAR(Q, rotL(bl), 1e-14 + (std::fabs(b) < 1e-12 ? std::fabs(b) : 0), "angle " << b << " axis " << str(ax));
}

PBT(vectors_rotate_alike, 60000, 900000) {
  V4 q = quat(s);
  V3 x(s.real(1e6), s.real(1e6), s.real(1e6));
  PBT_NOTE(s, str(q) << " " << str(x));
  double n = x.norm(), tol = 8e-15 * n + 1e-300;
  V3 v = quat2AxisAngle(q);
  classify(s, v.norm(), q[3]);
  Eigen::Matrix<L, 3, 1> e = quatRotL(q) * x.cast<L>();
  V3 a = quatRotate(q, x), b = quat2r(q) * x, c = axisAngle2R(v) * x, d = quatRotate(-q, x);
  KIN_NEAR(a, e, tol, "quatRotate");
  KIN_NEAR(b, e, tol, "matrix");
  KIN_NEAR(c, e, tol + 2e-12 * n, "axis angle");
  KIN_NEAR(d, e, tol, "negated quaternion");
  PBT_CHECK(properRotation(quat2r(q), 4e-15), "proper rotation");
  PBT_NEAR(a.norm(), n, tol, "length kept");
}

static double angDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * double(PI))); }

PBT(roll_pitch_heading, 60000, 900000) {
  double mag = s.flip() ? double(PI) : 20;
  double r = s.uniform(-mag, mag), p, h = s.uniform(-mag, mag);
  switch (s.below(6)) {
    case 0: r = s.signedLog(1e-12, 1); break;
    case 1: h = double(PI) * s.pick({0.0, 0.5, -0.5, 1.0, -1.0}); break;
    case 2: r = double(PI) * s.pick({0.0, 0.5, -0.5, 1.0, -1.0}); break;
    default: break;
  }
  switch (s.below(3)) {
    case 0: p = (s.flip() ? -1 : 1) * (double(PI) / 2 - s.logUniform(1e-7, 1)); s.nontrivial(); s.label("near singular"); break;
    case 1: p = s.uniform(-mag, mag); break;
    default: p = s.uniform(-1.5, 1.5); break;
  }
  PBT_NOTE(s, r << " " << p << " " << h);
  if (r < 0 || p < 0) s.nontrivial();
  V3 ex = V3::UnitX(), ey = V3::UnitY(), ez = V3::UnitZ();
  KIN_NEAR(Rx(r), rotL(V3L(-L(r) * ex.cast<L>())), 4e-16, "Rx " << r);
  KIN_NEAR(Ry(p), rotL(V3L(-L(p) * ey.cast<L>())), 4e-16, "Ry " << p);
  KIN_NEAR(Rz(h), rotL(V3L(-L(h) * ez.cast<L>())), 4e-16, "Rz " << h);
  KIN_NEAR(Cx(r), M3(Rx(r).transpose()), 4e-16, "Cx");
  KIN_NEAR(Cy(p), M3(Ry(p).transpose()), 4e-16, "Cy");
  KIN_NEAR(Cz(h), M3(Rz(h).transpose()), 4e-16, "Cz");
  M3 R = rph2R(r, p, h), C = rph2C(r, p, h);
  KIN_NEAR(R, M3(Rz(h) * Ry(p) * Rx(r)), 1e-15, "rph2R composes Rz Ry Rx");
  KIN_NEAR(C, M3(Cz(h) * Cy(p) * Cx(r)), 1e-15, "rph2C composes Cz Cy Cx");
  PBT_CHECK(rph2R(V3(r, p, h)) == R && rph2C(V3(r, p, h)) == C, "vector forms");
  double cp = std::cos(p);
  V3 a = R2rph(R), b = C2rph(C);
  PBT_CHECK(a.allFinite() && b.allFinite(), "finite");
  double tol = 1e-14 / std::fabs(cp);
  if (std::fabs(cp) > 1e-7) {
    KIN_NEAR(rph2R(a), R, tol, "angles " << str(a));
    KIN_NEAR(rph2C(b), C, tol, "angles " << str(b));
  }
  if (cp > 1e-7) {
    if (mag > 4) tol += 4e-15;
    PBT_CHECK(std::fabs(a[1]) <= double(PI) / 2 + 1e-15, "pitch range");
    if (std::fabs(p) <= double(PI) / 2) {
      V3 in(r, p, h);
      for (int i = 0; i < 3; ++i) {
        PBT_NEAR(angDiff(a[i], in[i]), 0, tol, "angle " << i << " of R");
        PBT_NEAR(angDiff(b[i], in[i]), 0, tol, "angle " << i << " of C");
      }
    }
  }
}

PBT(rph_of_computed_matrices, 20000, 300000) {  // matrices from arithmetic may have entries a rounding error above one
  double r = s.uniform(-3, 3), h = s.uniform(-3, 3), p = (s.flip() ? 1 : -1) * double(PI) / 2;
  if (s.flip()) p *= 1 - s.logUniform(1e-17, 1e-3);
  M3 A = rot(s), R0 = rph2R(r, p, h);
  M3 R = A * (A.transpose() * R0);
  PBT_NOTE(s, str(R));
  if (std::fabs(R(2, 0)) > 1) s.label("entry above one"), s.nontrivial();
  V3 a = R2rph(R), b = C2rph(R);
  PBT_CHECK(a.allFinite(), "R2rph finite for " << str(R) << ": " << str(a));
  PBT_CHECK(b.allFinite(), "C2rph finite for " << str(R) << ": " << str(b));
  PBT_NEAR(std::sin(a[1]), -R(2, 0), 1e-14, "pitch");
  PBT_NEAR(std::sin(b[1]), R(2, 0), 1e-14, "pitch");
}
