// P02: quaternion algebra laws and interpolation of orientations.
#include "kin.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
PBT_PROPERTY("P02",
             "Quaternions are unit (all angles, either sign, tiny and half-turn cases) or arbitrary with any scale for the algebra; interpolation takes pairs that are "
             "random, nearly equal, equal, opposite-signed or about half a turn apart, and times inside, at the ends of and outside [0,1]. A case is "
             "non-trivial when scales differ from one, signs are opposite, the pair is close or far apart, or the time is outside the interval.")
using namespace kin;
using namespace sm::kinematics;

/// Hamilton-like product of this library, written from (e, eta): e = q3 p + p3 q - q x p, eta = q3 p3 - q.p
static V4L refProduct(const V4& q_, const V4& p_) {
  V4L q = q_.cast<L>(), p = p_.cast<L>(), r;
  V3L qe = q.head<3>(), pe = p.head<3>();
  V3L c(qe[1] * pe[2] - qe[2] * pe[1], qe[2] * pe[0] - qe[0] * pe[2], qe[0] * pe[1] - qe[1] * pe[0]);
  r.head<3>() = q[3] * pe + p[3] * qe - c;
  r[3] = q[3] * p[3] - (qe[0] * pe[0] + qe[1] * pe[1] + qe[2] * pe[2]);
  return r;
}
static V4 anyQuat(pbt::Source& s) {
  if (s.flip()) return quat(s);
  s.nontrivial();
  double m = s.logUniform(1e-3, 1e3);
  return V4(s.normal() * m, s.normal() * m, s.normal() * m, s.normal() * m);
}

PBT(product, 60000, 900000) {
  V4 q = anyQuat(s), p = anyQuat(s), r = anyQuat(s);
  PBT_NOTE(s, str(q) << str(p) << str(r));
  if (q[3] < 0 || p[3] < 0) s.nontrivial();
  double n = q.norm() * p.norm(), t = 2e-15 * n + 1e-300;
  V4 qp = qplus(q, p);
  KIN_NEAR(qp, refProduct(q, p), t, "product");
  KIN_NEAR(V4(quatPlus(q) * p), qp, t, "left compound operator");
  KIN_NEAR(V4(quatOPlus(p) * q), qp, t, "right compound operator");
  KIN_NEAR(qoplus(p, q), qp, t, "qoplus is the product with operands exchanged");
  PBT_NEAR(qp.norm(), n, 8e-15 * n, "norm is multiplicative");
  KIN_NEAR(qplus(qplus(q, p), r), qplus(q, qplus(p, r)), 4e-15 * n * r.norm(), "associative");
  KIN_NEAR(M4(quatPlus(q) * quatOPlus(p)), M4(quatOPlus(p) * quatPlus(q)), t * 2, "left and right operators commute");
  V4 e = quatIdentity();
  PBT_CHECK(e == V4(0, 0, 0, 1), "identity");
  PBT_CHECK(qplus(e, q) == q && qplus(q, e) == q && qoplus(e, q) == q && qoplus(q, e) == q, "identity element");
  V4 qi = quatInv(q), qi2 = q;
  invertQuat(qi2);
  PBT_CHECK(qi == qi2, "both inverses");
  PBT_CHECK(qi == V4(-q[0], -q[1], -q[2], q[3]), "conjugate");
  V4 n2 = V4(0, 0, 0, q.squaredNorm());
  KIN_NEAR(qplus(q, qi), n2, 2e-15 * q.squaredNorm(), "right inverse");
  KIN_NEAR(qplus(qi, q), n2, 2e-15 * q.squaredNorm(), "left inverse");
  KIN_NEAR(quatPlus(qi), M4(quatPlus(q).transpose()), 0, "operator of the inverse");
  KIN_NEAR(quatOPlus(qi), M4(quatOPlus(q).transpose()), 0, "operator of the inverse");
  PBT_CHECK(qeps(q) == V3(q.head<3>()) && qeta(q) == q[3], "parts");
}

PBT(product_is_rotation_product, 60000, 900000) {
  V4 q = quat(s), p = quat(s);
  PBT_NOTE(s, str(q) << str(p));
  if (q[3] < 0 || p[3] < 0 || std::fabs(q[3]) < 1e-6 || std::fabs(q[3]) > 1 - 1e-6) s.nontrivial();
  KIN_NEAR(quat2r(qplus(q, p)), M3(quat2r(q) * quat2r(p)), 4e-15, "same order");
  KIN_NEAR(quat2r(quatInv(q)), M3(quat2r(q).transpose()), 2e-15, "inverse is transpose");
  V3 x = vec(s, 10);
  KIN_NEAR(quatRotate(qplus(q, p), x), quatRotate(q, quatRotate(p, x)), 1e-14 * x.norm(), "rotating twice");
  KIN_NEAR(quatRotate(quatInv(q), quatRotate(q, x)), x, 1e-14 * x.norm(), "inverse undoes");
  V4L rp = refProduct(q, p);
  KIN_NEAR(M3(quat2r(q) * quat2r(p)), quatRotL(rp), 4e-15, "reference");
}

PBT(small_update, 60000, 900000) {
  V4 q = quat(s);
  V3 d = rotVec(s, 2 * double(PI));
  PBT_NOTE(s, str(q) << str(d));
  if (d.norm() < 1e-3) s.nontrivial();
  V4 u = updateQuat(q, d);
  V4L dq = quatL(d);
  KIN_NEAR(u, refProduct(dq.cast<double>(), q), 2e-15, "update is the product with the exponential from the left");
  KIN_NEAR(u, V4(quatPlus(axisAngle2quat(d)) * q), 2e-15, "documented form");
  KIN_NEAR(quat2r(u), M3((rotL(d) * quatRotL(q)).cast<double>()), 6e-15, "rotation");
  PBT_NEAR(u.norm(), 1, 8e-15, "stays unit");
}

PBT(random_quaternion, 2000, 10000) {
  std::srand(unsigned(s.below(1u << 31)));
  V4 q = quatRandom();
  s.nontrivial();
  PBT_NEAR(q.norm(), 1, 4e-15, "unit quaternion " << str(q));
}

struct Pair { V4 a, b; };
static Pair pairOf(pbt::Source& s) {
  Pair p;
  p.a = quat(s);
  V4 d;
  switch (s.below(6)) {
    case 0: p.b = p.a; s.label("equal"); s.nontrivial(); break;
    case 1: p.b = -p.a; s.label("opposite sign"); s.nontrivial(); break;
    case 2: p.b = qplus(p.a, quatL(axis(s) * s.logUniform(1e-16, 1e-3)).cast<double>()); p.b.normalize(); if (s.flip()) p.b = -p.b; s.label("close"); s.nontrivial(); break;
    case 3: p.b = qplus(p.a, quatL(axis(s) * (double(PI) - s.logUniform(1e-6, 1e-2))).cast<double>()); p.b.normalize(); if (s.flip()) p.b = -p.b; s.label("half turn apart"); s.nontrivial(); break;
    default: p.b = quat(s); break;
  }
  return p;
}
static double timeOf(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return s.flip() ? -s.logUniform(1e-9, 1e9) : 1 + s.logUniform(1e-9, 1e9);
    case 3: return s.flip() ? s.logUniform(1e-300, 1e-3) : 1 - s.logUniform(1e-16, 1e-3);
    default: return s.unit();
  }
}

PBT(slerp, 60000, 900000) {
  Pair p = pairOf(s);
  double t = timeOf(s);
  PBT_NOTE(s, str(p.a) << str(p.b) << " t " << t);
  V4 r = qslerp(p.a, p.b, t);
  PBT_CHECK(r.allFinite(), "finite " << str(r));
  PBT_NEAR(r.norm(), 1, 1e-14, "unit");
  if (t <= 0) { PBT_CHECK(r == p.a, "starts exactly at the first"); if (t < 0) s.nontrivial(); return; }
  if (t >= 1) { PBT_CHECK(r == p.b, "ends exactly at the second"); if (t > 1) s.nontrivial(); return; }
  // reference: R0 * exp(t * log(R0^T R1)) along the shorter arc
  V4L rel = refProduct(V4(quatInv(p.a)), p.b);
  rel /= rel.norm();
  if (rel[3] < 0) rel = -rel;
  V3L e = rel.head<3>();
  L n = std::sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
  L th = 2 * std::atan2(n, rel[3]);
  V3L v = n > 0 ? V3L(e * (th / n)) : V3L(V3L::Zero());
  double gap = double(PI - th);
  M3L R = quatRotL(p.a) * rotL(V3L(v * L(t)));
  double tol = 1e-14;
  if (gap < 1e-5) return;  // both arcs are shortest
  KIN_NEAR(quat2r(r), R, tol, "constant rate along the shorter arc, angle " << double(th));
  // the sign of either end does not matter
  KIN_NEAR(quat2r(qslerp(-p.a, p.b, t)), R, tol, "sign of the first");
  KIN_NEAR(quat2r(qslerp(p.a, -p.b, t)), R, tol, "sign of the second");
  KIN_NEAR(quat2r(qslerp(p.b, p.a, 1 - t)), R, tol + 4 * EPS, "reversed");
  // constant angular rate
  double t2 = s.unit();
  V4 r2 = qslerp(p.a, p.b, t2);
  M3L D = R.transpose() * quatRotL(r2);
  L c = (D(0, 0) + D(1, 1) + D(2, 2) - 1) / 2;
  V3L w(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
  L sn = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) / 2;
  PBT_NEAR(double(std::atan2(sn, c)), std::fabs(t2 - t) * double(th), 1e-13, "angle proportional to time");
}

PBT(slerp_continuity_at_ends, 20000, 200000) {
  Pair p = pairOf(s);
  double d = s.logUniform(1e-15, 1e-9);
  PBT_NOTE(s, str(p.a) << str(p.b) << d);
  s.nontrivial();
  KIN_NEAR(quat2r(qslerp(p.a, p.b, d)), quat2r(p.a), 1e-14 + 4 * d, "start");
  KIN_NEAR(quat2r(qslerp(p.a, p.b, 1 - d)), quat2r(p.b), 1e-14 + 4 * d, "end");
}

PBT(linear_interpolation, 40000, 400000) {
  int n = int(s.below(8));
  Eigen::VectorXd a(n), b(n);
  double m = s.logUniform(1e-6, 1e6);
  for (int i = 0; i < n; ++i) { a[i] = s.real(m); b[i] = s.real(m); }
  double t = timeOf(s);
  PBT_NOTE(s, str(a) << str(b) << t);
  if (t < 0 || t > 1 || n == 0) s.nontrivial();
  Eigen::VectorXd r = lerp(a, b, t);
  PBT_EQ(r.size(), a.size(), "size");
  if (t <= 0) PBT_CHECK(r == a, "start");
  else if (t >= 1) PBT_CHECK(r == b, "end");
  else
    for (int i = 0; i < n; ++i) PBT_NEAR(r[i], double(L(a[i]) + L(t) * (L(b[i]) - L(a[i]))), 8 * EPS * (std::fabs(a[i]) + std::fabs(b[i])), "component " << i);
  int k = int(s.below(8));
  if (k != n) {
    Eigen::VectorXd c = Eigen::VectorXd::Zero(k);
    PBT_THROWS(lerp(a, c, t), std::runtime_error, "sizes differ");
  }
}
