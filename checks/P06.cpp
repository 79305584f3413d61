// P06: pose uncertainty is the exact first-order propagation.
#include "kin.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/transformations.hpp>
PBT_PROPERTY("P06",
             "Poses with rotations of every size and translations up to 1e3, covariances of every rank from zero to full (translation and rotation correlated), points "
             "with any scale including directions, every certain/uncertain operand combination. The Jacobians are obtained by perturbing the operands from the left in "
             "extended precision. A case is non-trivial when some covariance is non-zero and the translation or the rotation is not small.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::Matrix<L, 6, 6> M6L;
typedef Eigen::Matrix<L, 6, 1> V6L;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;

static M4L bp(const V6L& e) {  // the generator: (1 - bp(e)) T is T moved by e
  M4L B = M4L::Zero();
  B.topLeftCorner<3, 3>() = crossL(V3L(e.tail<3>()));
  B.topRightCorner<3, 1>() = -e.head<3>();
  return B;
}
static V6L unbp(const M4L& B) {
  V6L e;
  e << -B(0, 3), -B(1, 3), -B(2, 3), (B(2, 1) - B(1, 2)) / 2, (B(0, 2) - B(2, 0)) / 2, (B(1, 0) - B(0, 1)) / 2;
  return e;
}
static M4L inv(const M4L& T) {
  M4L I = M4L::Identity();
  I.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose();
  I.topRightCorner<3, 1>() = -(T.topLeftCorner<3, 3>().transpose() * T.topRightCorner<3, 1>());
  return I;
}
static M6L adj(const M4L& T) {
  M6L A;
  for (int j = 0; j < 6; ++j) { V6L e = V6L::Zero(); e[j] = 1; A.col(j) = unbp(M4L(T * bp(e) * inv(T))); }
  return A;
}
static M4L matL(const Transformation& T) {
  M4L M = M4L::Identity();
  M.topLeftCorner<3, 3>() = quatRotL(T.q());
  M.topRightCorner<3, 1>() = T.t().cast<L>();
  return M;
}
static M6 cov6(pbt::Source& s) {
  if (s.chance(1, 6)) return M6::Zero();
  M6 U = psd(s, 6);
  double f = s.pick({1.0, 1e-6, 1e3, 1.0, 1e-13, 1e-20});
  U *= f;
  if (U.cwiseAbs().maxCoeff() > 0) s.nontrivial();
  return U;
}
static UncertainTransformation genU(pbt::Source& s, double mag = 100) {
  V4 q = quat(s);
  V3 t = vec(s, mag);
  return UncertainTransformation(q, t, M6(cov6(s)));
}
template <class A> static double mx(const Eigen::MatrixBase<A>& m) { return m.size() ? double(m.cwiseAbs().maxCoeff()) : 0.0; }
template <class A, class B>
static void covEq(const Eigen::MatrixBase<A>& U, const Eigen::MatrixBase<B>& R, double scale, const char* what) {
  // scale: bound on the size of the terms that enter the result
  KIN_NEAR(U, R, 1e-14 * scale + 1e-290, what);
  double m = mx(U);
  Eigen::MatrixXd S = U;
  PBT_CHECK(mx(Eigen::MatrixXd(S - S.transpose())) <= 1e-13 * scale + 1e-290, what << ": symmetric");
  if (m > 0) {
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(0.5 * (S + S.transpose()));
    PBT_CHECK(es.eigenvalues().minCoeff() >= -1e-12 * scale - 1e-290, what << ": positive semi-definite, smallest eigenvalue " << es.eigenvalues().minCoeff() << " scale " << scale);
  }
}

PBT(composition, 40000, 600000) {
  UncertainTransformation A = genU(s), B = genU(s);
  PBT_NOTE(s, str(A.T()) << str(A.U()) << str(B.T()) << str(B.U()));
  M6L Ad = adj(matL(A)), UA = A.U().cast<L>(), UB = B.U().cast<L>();
  M6L UBt = Ad * UB * Ad.transpose();
  double na = mx(A.U()), nb = mx(B.U()) * mx(Ad) * mx(Ad) * 6;
  const Transformation &a = A, &b = B;
  Transformation At = A.toTransformation(), Bt = B.toTransformation();
  M4 mean = (At * Bt).T();
  {
    UncertainTransformation R = A * B;
    covEq(R.U(), M6L(UA + UBt), na + nb, "uncertain * uncertain");
    KIN_NEAR(R.T(), mean, 1e-13, "mean");
    UncertainTransformation Rv = a * B;  // through the base class
    PBT_CHECK(Rv.U() == R.U() && Rv.T() == R.T(), "virtual product");
    Eigen::Matrix<double, 12, 12> J12 = Eigen::Matrix<double, 12, 12>::Zero();
    (void)J12;
  }
  {
    UncertainTransformation R = A * Bt;
    covEq(R.U(), UA, na, "uncertain * certain");
    KIN_NEAR(R.T(), mean, 1e-13, "mean");
  }
  {
    UncertainTransformation R = At * B;
    covEq(R.U(), UBt, nb, "certain * uncertain");
    KIN_NEAR(R.T(), mean, 1e-13, "mean");
  }
  KIN_NEAR((At * Bt).T(), M4L(matL(At) * matL(Bt)), 1e-14 * (1 + At.t().norm() + Bt.t().norm()), "certain mean");
  (void)b;
}

PBT(composition_is_associative, 15000, 200000) {
  UncertainTransformation A = genU(s, 10), B = genU(s, 10), C = genU(s, 10);
  PBT_NOTE(s, str(A.U()) << str(B.U()) << str(C.U()));
  UncertainTransformation L1 = (A * B) * C, R1 = A * (B * C);
  double sc = 6 * (mx(A.U()) + 3600 * mx(B.U()) + 1e6 * mx(C.U()));
  KIN_NEAR(L1.U(), R1.U(), 1e-14 * sc + 1e-290, "associative");
  UncertainTransformation I = A.inverse().inverse();
  KIN_NEAR(I.U(), A.U(), 1e-13 * 36 * 121 * 121 * mx(A.U()) + 1e-290, "inverting twice");
  // a certain identity changes nothing
  UncertainTransformation E;
  KIN_NEAR((A * E).U(), A.U(), 1e-14 * mx(A.U()), "identity");
  KIN_NEAR((E * A).U(), A.U(), 1e-14 * mx(A.U()), "identity");
}

PBT(inversion, 40000, 600000) {
  UncertainTransformation A = genU(s);
  PBT_NOTE(s, str(A.T()) << str(A.U()));
  UncertainTransformation I = A.inverse();
  M4L T = matL(A);
  M6L J = -adj(inv(T));
  covEq(I.U(), M6L(J * A.U().cast<L>() * J.transpose()), mx(A.U()) * mx(J) * mx(J) * 12, "inverse");
  KIN_NEAR(I.T(), A.toTransformation().inverse().T(), 1e-13, "mean");
}

PBT(points, 40000, 600000) {
  UncertainTransformation A = genU(s);
  V3 x = vec(s, 100);
  double w = s.chance(1, 5) ? 0 : s.chance(1, 3) ? 1 : s.signedLog(1e-2, 1e2);
  if (w == 0) { s.label("direction"); if (x.norm() == 0) x[0] = 1; }
  V4 h(x[0], x[1], x[2], w);
  M4 U = psd(s, 4);
  if (s.chance(1, 6)) U.setZero();
  PBT_NOTE(s, str(A.T()) << str(A.U()) << " point " << str(h) << str(U));
  M4L T = matL(A);
  V4L p0 = T * h.cast<L>();
  Eigen::Matrix<L, 4, 6> Jt;
  for (int j = 0; j < 6; ++j) { V6L e = V6L::Zero(); e[j] = 1; Jt.col(j) = -(bp(e) * p0); }
  M4L Ut = Jt * A.U().cast<L>() * Jt.transpose(), Up = T * U.cast<L>() * T.transpose();
  double st = mx(A.U()) * mx(Jt) * mx(Jt) * 36, sp = mx(U) * mx(T) * mx(T) * 16;
  UncertainHomogeneousPoint up(h, U);
  HomogeneousPoint p(h);
  Transformation At = A.toTransformation();
  UncertainHomogeneousPoint r1 = A * up, r2 = A * p, r3 = At * up;
  const Transformation& base = A;
  UncertainHomogeneousPoint r4 = base * up;
  HomogeneousPoint r5 = At * p;
  double tm = 1e-14 * (h.norm() * (1 + A.t().norm()));
  KIN_NEAR(r1.toHomogeneous(), p0, tm, "mean");
  KIN_NEAR(r2.toHomogeneous(), r5.toHomogeneous(), tm, "mean");
  KIN_NEAR(r3.toHomogeneous(), r5.toHomogeneous(), tm, "mean");
  covEq(r1.U4(), M4L(Ut + Up), st + sp, "uncertain pose, uncertain point");
  covEq(r2.U4(), Ut, st, "uncertain pose, certain point");
  covEq(r3.U4(), Up, sp, "certain pose, uncertain point");
  PBT_CHECK(r4.U4() == r1.U4() && r4.toHomogeneous() == r1.toHomogeneous(), "through the base class");
  KIN_NEAR(V3(A * x), V3(At * x), 1e-13, "Euclidean");
  KIN_NEAR(V4(A * h), V4(At * h), 1e-12, "homogeneous");
}

PBT(oplus_form, 30000, 300000) {
  UncertainTransformation A = genU(s);
  M6 U = A.U();
  PBT_NOTE(s, str(A.T()) << str(U));
  // derivative of the update in terms of left perturbations, from the update itself
  double h = 1e-6;
  M6 N;
  for (int j = 0; j < 6; ++j) {
    V6 d = V6::Zero();
    d[j] = h;
    Transformation P = A, M = A;
    P.oplus(d);
    M.oplus(-d);
    M4L D = (matL(P) - matL(M)) / L(2 * h) * inv(matL(A));
    N.col(j) = -unbp(D).cast<double>();
  }
  double n = 1 + A.t().norm();
  KIN_NEAR(N, A.S(), 1e-8 * n, "update derivative equals S");
  M6L S = M6L::Identity();
  S.topRightCorner<3, 3>() = -crossL(A.t().cast<L>());
  KIN_NEAR(A.S(), S, 0, "S");
  M6L Si = M6L::Identity();
  Si.topRightCorner<3, 3>() = crossL(A.t().cast<L>());
  double sc = mx(U) * mx(S) * mx(S) * 12;
  M6 O = A.UOplus();
  covEq(O, M6L(Si * U.cast<L>() * Si.transpose()), sc, "update form read");
  UncertainTransformation B = A;
  B.setUOplus(U);
  covEq(B.U(), M6L(S * U.cast<L>() * S.transpose()), sc, "update form set");
  PBT_CHECK(B.T() == A.T(), "mean untouched");
  KIN_NEAR(B.UOplus(), U, 1e-13 * sc * mx(S) * mx(S), "set then read");
  B.setUOplus(O);
  KIN_NEAR(B.U(), U, 1e-13 * sc * mx(S) * mx(S), "read then set");
}

PBT(stored_values, 20000, 200000) {
  V4 q = quat(s);
  V3 t = vec(s, 100);
  Transformation T(q, t);
  M4 M = T.T();
  M6 U;
  for (int i = 0; i < 36; ++i) U.data()[i] = s.real(10);  // any matrix is stored as given
  double vt = s.real(10), vr = s.real(10);
  PBT_NOTE(s, str(U) << vt << " " << vr);
  s.nontrivial();
  M6 D = M6::Zero();
  D.diagonal() << vt, vt, vt, vr, vr, vr;
  Transformation Tm(M);
  PBT_CHECK(UncertainTransformation().U() == M6::Zero() && UncertainTransformation().T() == M4::Identity(), "default");
  PBT_CHECK(UncertainTransformation(T).U() == M6::Zero() && UncertainTransformation(T).T() == M, "from certain");
  PBT_CHECK(UncertainTransformation(M).U() == M6::Zero() && UncertainTransformation(M).T() == Tm.T(), "from matrix");
  PBT_CHECK(UncertainTransformation(q, t).U() == M6::Zero() && UncertainTransformation(q, t).T() == M, "from parts");
  PBT_CHECK(UncertainTransformation(T, U).U() == U && UncertainTransformation(T, U).T() == M, "certain with covariance");
  PBT_CHECK(UncertainTransformation(M, U).U() == U && UncertainTransformation(M, U).T() == Tm.T(), "matrix with covariance");
  PBT_CHECK(UncertainTransformation(q, t, U).U() == U && UncertainTransformation(q, t, U).T() == M, "parts with covariance");
  PBT_CHECK(UncertainTransformation(T, vt, vr).U() == D && UncertainTransformation(T, vt, vr).T() == M, "diagonal");
  PBT_CHECK(UncertainTransformation(M, vt, vr).U() == D && UncertainTransformation(M, vt, vr).T() == Tm.T(), "diagonal");
  PBT_CHECK(UncertainTransformation(q, t, vt, vr).U() == D && UncertainTransformation(q, t, vt, vr).T() == M, "diagonal");
  UncertainTransformation A(T);
  A.setU(U);
  PBT_CHECK(A.U() == U && A.T() == M && A.toTransformation().T() == M, "setU");
  std::srand(unsigned(s.below(1u << 31)));
  if (s.flip()) A.setRandom(); else A.setRandom(s.logUniform(1e-3, 1e3), s.uniform(0, 3));
  M6 R = A.U();
  PBT_CHECK(mx(M6(R - R.transpose())) <= 1e-14 * mx(R), "random covariance symmetric");
  PBT_CHECK(Eigen::SelfAdjointEigenSolver<M6>(R).eigenvalues().minCoeff() >= -1e-13 * mx(R), "random covariance positive semi-definite");
}
