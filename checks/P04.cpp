// P04: analytic quaternion Jacobians are the derivatives.
#include "kin.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
PBT_PROPERTY("P04",
             "Rotation vectors with norm in [0, 2 pi): zero, tiny down to underflow, around the series switch-overs of both precisions, half turns, near a full turn; "
             "unit quaternions of either sign; derivatives are referenced by forward-mode differentiation of the power series in extended precision. A case is "
             "non-trivial when the angle is below 0.05, beyond half a turn or the scalar part is negative.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::Matrix<L, 4, 3> M43L;

static V3 gen(pbt::Source& s) {
  V3 v = rotVec(s, s.flip() ? double(PI) : 2 * double(PI));
  if (v.norm() > 6.27) v *= (6.283185 - s.logUniform(1e-4, 1e-1)) / v.norm();
  if (s.chance(1, 6)) v = axis(s) * s.uniform(0.01, 0.05);  // single precision switch-over
  if (v.norm() < 0.05) s.nontrivial(), s.label("small");
  if (v.norm() > double(PI)) s.nontrivial(), s.label("beyond half a turn");
  PBT_NOTE(s, str(v));
  return v;
}
static M43L expJac(const V3& v) {
  Vec3<Dual<3>> d{{Dual<3>::var(v[0], 0), Dual<3>::var(v[1], 1), Dual<3>::var(v[2], 2)}};
  Quat<Dual<3>> q = quatT(d);
  M43L J;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) J(i, j) = q[i].d[j];
  return J;
}
static M3L diffMat(const V3& v) {  // J with exp(v + d) = exp(J d) exp(v) to first order
  L t = v.cast<L>().squaredNorm();
  M3L X = crossL(v.cast<L>());
  L c = t < 4 ? series(t, 3) : (std::sqrt(t) - std::sin(std::sqrt(t))) / (t * std::sqrt(t));
  return M3L::Identity() - coscS(t) * X + c * X * X;
}

PBT(exponential, 60000, 900000) {
  V3 v = gen(s);
  M43L J = expJac(v);
  KIN_NEAR((quatExpJacobian<double>(v)), J, 4e-15, "exponential Jacobian at " << str(v));
  KIN_NEAR((expDiffMat<double>(v)), diffMat(v), 4e-15, "exponential differential at " << str(v));
  Eigen::Vector3f f = v.cast<float>();
  V3 fd = f.cast<double>();
  KIN_NEAR((quatExpJacobian<float>(f)), expJac(fd), 1e-6, "single precision at " << str(v));
  KIN_NEAR((expDiffMat<float>(f)), diffMat(fd), 1e-6, "single precision at " << str(v));
  KIN_NEAR(Eigen::MatrixXd(quatV<double>()), Eigen::MatrixXd(0.5 * Eigen::Matrix<double, 4, 3>::Identity()), 0, "quatV");
  KIN_NEAR(Eigen::MatrixXf(quatV<float>()), Eigen::MatrixXf(0.5f * Eigen::Matrix<float, 4, 3>::Identity()), 0, "quatV");
}

PBT(logarithm, 60000, 900000) {
  V3 v = gen(s);
  double gap = 2 * double(PI) - v.norm(), m = 1 + 1 / gap;
  V4 q = quatL(v).cast<double>();
  Eigen::Matrix<double, 3, 4> A = quatLogJacobian(q), B = quatLogJacobian2<double>(q);
  M43L E = expJac(v);
  KIN_NEAR(M3L(B.cast<L>() * E), M3L::Identity(), 1e-14 * m * m, "second variant at " << str(v));
  KIN_NEAR(M3L(A.cast<L>() * E), M3L::Identity(), 1e-14 * m * m, "first variant at " << str(v));
  Eigen::Vector4f qf = q.cast<float>();
  if (gap > 0.1) {
    // the single precision map at the single precision quaternion
    V4 qd = qf.cast<double>().normalized();
    V3L e = qd.cast<L>().head<3>();
    L n = e.norm();
    V3 w = n > 0 ? V3((e * (2 * std::atan2(n, L(qd[3])) / n)).cast<double>()) : V3(V3::Zero());
    Eigen::Matrix<float, 3, 4> F = quatLogJacobian2<float>(qf);
    KIN_NEAR(M3L(F.cast<L>() * expJac(w)), M3L::Identity(), 2e-6 * m * m, "single precision at " << str(v));
  }
}

PBT(differentials_are_inverse, 60000, 900000) {
  V3 v = gen(s);
  double m = 1 + 1 / (2 * double(PI) - v.norm());
  M3 A = expDiffMat<double>(v), B = logDiffMat<double>(v);
  KIN_NEAR(M3(A * B), M3::Identity(), 1e-14 * m * m, "exp log at " << str(v));
  KIN_NEAR(M3(B * A), M3::Identity(), 1e-14 * m * m, "log exp at " << str(v));
  Eigen::Vector3f f = v.cast<float>();
  Eigen::Matrix3f Af = expDiffMat<float>(f), Bf = logDiffMat<float>(f);
  KIN_NEAR(Eigen::Matrix3f(Af * Bf), Eigen::Matrix3f::Identity(), 1e-6 * m * m, "single precision at " << str(v));
  // the reference inverse
  M3L R = diffMat(v).inverse();
  KIN_NEAR(B, R, 1e-14 * m * m, "logarithm differential at " << str(v));
}

PBT(update_and_rates, 60000, 900000) {
  V4 q = quat(s);
  PBT_NOTE(s, str(q));
  if (q[3] < 0 || std::fabs(q[3]) > 1 - 1e-6) s.nontrivial();
  Eigen::Matrix<double, 4, 3> J = quatJacobian(q);
  // reference: d/dd (exp(d) x q) at d = 0 is half of the product of the unit vectors with q
  M43L R;
  for (int j = 0; j < 3; ++j) {
    V3L u = V3L::Zero();
    u[j] = 1;
    V3L e = q.head<3>().cast<L>();
    R.col(j).head<3>() = (L(q[3]) * u - u.cross(e)) * 0.5L;
    R(3, j) = -u.dot(e) * 0.5L;
  }
  KIN_NEAR(J, R, 1e-16, "small update Jacobian");
  KIN_NEAR(quatInvS(q), R, 1e-16, "rate matrix: angular velocity to quaternion rate");
  // numerically: the update itself
  double h = 1e-4;
  for (int j = 0; j < 3; ++j) {
    V3 d = V3::Zero();
    d[j] = h;
    V4 N = (updateQuat(q, d) - updateQuat(q, -d)) / (2 * h);
    KIN_NEAR(N, V4(J.col(j)), 1e-8, "central difference of the update");
  }
  Eigen::Matrix<double, 3, 4> S = quatS(q);
  Eigen::Matrix<double, 4, 3> I = quatInvS(q);
  KIN_NEAR(M3(S * I), M3::Identity(), 2e-15, "rate matrices are inverse");
  KIN_NEAR(M4(I * S), M4(M4::Identity() - q * q.transpose()), 2e-15, "inverse on the tangent space");
  KIN_NEAR(Eigen::Vector3d(S * q), V3::Zero(), 2e-15, "no rotation from changing length");
  // angular velocity convention: C' = -[w]x C
  V3 w = axis(s);
  V4 qd = I * w;
  V4 qp = (q + h * qd).normalized(), qm = (q - h * qd).normalized();
  M3 Cd = (quat2r(qp) - quat2r(qm)) / (2 * h);
  KIN_NEAR(Cd, M3(-crossMx(w) * quat2r(q)), 1e-7, "quaternion rate gives the angular velocity");
}

PBT(jacobian_of_update_anywhere, 30000, 300000) {  // chain rule: the update evaluated around any small rotation
  V4 q = quat(s);
  V3 d = gen(s);
  Eigen::Matrix<double, 4, 3> E = quatExpJacobian<double>(d);
  double h = 1e-5;
  for (int j = 0; j < 3; ++j) {
    V3 e = V3::Zero();
    e[j] = h;
    V4 N = (updateQuat(q, d + e) - updateQuat(q, d - e)) / (2 * h);
    KIN_NEAR(N, V4(quatOPlus(q) * E.col(j)), 1e-9, "column " << j << " at " << str(d));
  }
}
