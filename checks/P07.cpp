// P07: homogeneous points behave as the Euclidean points they represent.
#include "kin.hpp"
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
PBT_PROPERTY("P07",
             "Points with coordinates up to 1e3 and scales of both signs between 1e-3 and 1e3 (one included), alike, and up to 1e21 in sums, directions, covariances of every rank; every "
             "certain/uncertain operand combination; matrices of homogeneous columns of any size. A case is non-trivial when a scale differs from one "
             "or the point is at infinity.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::Matrix<double, 4, 3> M43;
typedef Eigen::Matrix<double, 3, 4> M34;

static double scaleOf(pbt::Source& s) {
  if (s.chance(1, 4)) return 1;
  s.nontrivial();
  return s.chance(1, 3) ? s.pick({-1.0, 2.0, 0.5, -4.0}) : s.signedLog(1e-3, 1e3);
}
static V4 pt(pbt::Source& s, V3& e) {
  e = vec(s, 1000);
  double w = scaleOf(s);
  V4 h;
  h << e * w, w;
  e = V3(double(L(h[0]) / L(w)), double(L(h[1]) / L(w)), double(L(h[2]) / L(w)));
  return h;
}
static double mx(const Eigen::MatrixXd& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }

PBT(arithmetic, 60000, 900000) {
  V3 a, b;
  V4 x = pt(s, a), y = pt(s, b);
  // scales that are alike, and very far ones
  if (s.chance(1, 4)) { double w = x[3] * (s.flip() ? 1 : 1 + s.signedLog(1e-12, 1e-3)); y << b * w, w; b = V3(double(L(y[0]) / L(w)), double(L(y[1]) / L(w)), double(L(y[2]) / L(w))); s.nontrivial(); }
  if (s.chance(1, 6)) { int e = int(s.range(-60, 60)); x *= std::ldexp(1.0, e); s.nontrivial(); }
  if (s.chance(1, 6)) { int e = int(s.range(-60, 60)); y *= std::ldexp(1.0, e); s.nontrivial(); }
  PBT_NOTE(s, str(x) << " " << str(y));
  HomogeneousPoint A(x), B(y);
  double m = a.norm() + b.norm();
  KIN_NEAR(A.toEuclidean(), a, 4e-16 * m + 1e-300, "conversion");
  KIN_NEAR((A + B).toEuclidean(), V3(a + b), 2e-15 * m + 1e-300, "sum");
  KIN_NEAR((A - B).toEuclidean(), V3(a - b), 2e-15 * m + 1e-300, "difference");
  UncertainHomogeneousPoint UA(x), UB(y);
  KIN_NEAR((UA + UB).toEuclidean(), V3(a + b), 2e-15 * m + 1e-300, "uncertain sum");
  KIN_NEAR((UA - UB).toEuclidean(), V3(a - b), 2e-15 * m + 1e-300, "uncertain difference");
  KIN_NEAR((A + UB).toEuclidean(), V3(a + b), 2e-15 * m + 1e-300, "mixed sum");
  KIN_NEAR((A - UB).toEuclidean(), V3(a - b), 2e-15 * m + 1e-300, "mixed difference");
  KIN_NEAR((UA + B).toEuclidean(), V3(a + b), 2e-15 * m + 1e-300, "mixed sum");
  KIN_NEAR((UA - B).toEuclidean(), V3(a - b), 2e-15 * m + 1e-300, "mixed difference");
  // operators as matrices
  KIN_NEAR(fromHomogeneous(V4(toHomogeneousPlus(x) * y)), V3(a + b), 2e-15 * m + 1e-300, "plus matrix");
  KIN_NEAR(fromHomogeneous(V4(toHomogeneousMinus(x) * y)), V3(b - a), 2e-15 * m + 1e-300, "minus matrix");
  KIN_NEAR(fromHomogeneous(x), a, 4e-16 * m + 1e-300, "free conversion");
  PBT_CHECK(toHomogeneous(a) == V4(a[0], a[1], a[2], 1), "free conversion");
  PBT_CHECK(fromHomogeneous(toHomogeneous(a)) == a, "there and back");
  PBT_CHECK(!A.atInfinity() && !A.isVector(), "finite point");
}

PBT(storage_and_modifiers, 40000, 400000) {
  V3 e;
  V4 h = pt(s, e);
  bool inf = s.chance(1, 4);
  if (inf) { h[3] = 0; if (h.norm() == 0) h[0] = 2; s.label("infinite"); s.nontrivial(); }
  PBT_NOTE(s, str(h));
  HomogeneousPoint A(h);
  PBT_CHECK(A.toHomogeneous() == h, "stored");
  PBT_CHECK(A.atInfinity() == inf && A.isVector() == inf, "infinity recognised");
  HomogeneousPoint B, C, D(e);
  PBT_CHECK(B.toHomogeneous() == V4(0, 0, 0, 1), "default");
  B.set(h);
  C = h;
  PBT_CHECK(B.toHomogeneous() == h && C.toHomogeneous() == h, "set, assign");
  PBT_CHECK(D.toHomogeneous() == V4(e[0], e[1], e[2], 1), "from Euclidean");
  B.set(e);
  C = e;
  PBT_CHECK(B.toHomogeneous() == D.toHomogeneous() && C.toHomogeneous() == D.toHomogeneous(), "set, assign Euclidean");
  int n = int(s.below(7));
  Eigen::VectorXd v = Eigen::VectorXd::Ones(n);
  for (int i = 0; i < n; ++i) v[i] = s.real(10) + (i == 3 ? 100 : 0);
  HomogeneousPoint F(h);
  if (n == 3 || n == 4) {
    F.set(v);
    for (int i = 0; i < 4; ++i) PBT_EQ(F.toHomogeneous()[i], (i < n ? v[i] : 1.0), "set from dynamic");
  } else {
    PBT_THROWS(F.set(v), HomogeneousPoint::Exception, "wrong size " << n);
    PBT_CHECK(F.toHomogeneous() == h, "unchanged");
  }
  for (int i = 0; i < 4; ++i) F.pptr()[i] = h[i];
  PBT_CHECK(F.toHomogeneous() == h, "raw access");
  HomogeneousPoint N(h);
  N.normalize();
  PBT_NEAR(N.toHomogeneous().norm(), 1, 2e-15, "normalised");
  KIN_NEAR(V4(N.toHomogeneous() * h.norm()), h, 1e-15 * h.norm(), "same ray, same side");
  double f = s.signedLog(1e-3, 1e3);
  HomogeneousPoint S(h);
  S.scale(f);
  if (!inf) KIN_NEAR(S.toEuclidean(), V3(e * f), 2e-15 * e.norm() * std::fabs(f) + 1e-300, "scaled");
  else PBT_CHECK(S.isVector() && V3(S.toHomogeneous().head<3>()) == V3(h.head<3>() * f), "scaled direction");
  HomogeneousPoint V(h);
  if (V3(h.head<3>()).norm() > 0) {
    V.convertToVector();
    PBT_CHECK(V.isVector() && V.atInfinity() && (V.toHomogeneous().head<3>() == h.head<3>()), "convertToVector");
    V.convertToPoint();
    PBT_CHECK(!V.isVector() && V.toHomogeneous()[3] == 1, "convertToPoint");
    V3 u = h.head<3>() / h.head<3>().norm();
    KIN_NEAR(V.toEuclidean(), u, 4e-16, "unit direction");
  }
  HomogeneousPoint Z(h);
  Z.setZero();
  PBT_CHECK(Z.toHomogeneous() == V4(0, 0, 0, 1), "setZero");
  std::srand(unsigned(s.below(1u << 31)));
  Z.setRandom();
  PBT_NEAR(Z.toHomogeneous().norm(), 1, 2e-15, "random point is normalised");
  // update: the point as a quaternion rotated by the exponential
  HomogeneousPoint U(h);
  V3 dp = rotVec(s);
  U.oplus(dp);
  V4L q = quatL(dp), r;
  V3L qe = q.head<3>(), pe = h.head<3>().cast<L>();
  r.head<3>() = q[3] * pe + L(h[3]) * qe - qe.cross(pe);
  r[3] = q[3] * L(h[3]) - qe.dot(pe);
  KIN_NEAR(U.toHomogeneous(), r, 2e-15 * h.norm(), "update");
}

PBT(jacobians, 60000, 900000) {
  V3 e;
  V4 h = pt(s, e);
  PBT_NOTE(s, str(h));
  HomogeneousPoint A(h);
  M43 Jh;
  M3 Je;
  PBT_CHECK(A.toHomogeneousAndJacobian(Jh) == h, "value");
  KIN_NEAR(A.toEuclideanAndJacobian(Je), e, 4e-16 * e.norm() + 1e-300, "value");
  Eigen::Matrix<L, 4, 3> R;  // derivative of exp(d) x p at zero
  for (int j = 0; j < 3; ++j) {
    V3L u = V3L::Zero(), pe = h.head<3>().cast<L>();
    u[j] = 0.5L;
    R.col(j).head<3>() = L(h[3]) * u - u.cross(pe);
    R(3, j) = -u.dot(pe);
  }
  KIN_NEAR(Jh, R, 1e-16 * h.norm(), "update Jacobian, homogeneous");
  Eigen::Matrix<L, 3, 4> P;  // derivative of p.head / p.w
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) P(i, j) = j == 3 ? -L(h[i]) / (L(h[3]) * L(h[3])) : L(i == j) / L(h[3]);
  double pm = double(P.cwiseAbs().maxCoeff());
  KIN_NEAR(Je, M3L(P * R), 4e-15 * pm * h.norm(), "update Jacobian, Euclidean");
  M34 J1;
  J1.setConstant(-7);
  V3 c = fromHomogeneous(h, &J1);
  PBT_CHECK(c == fromHomogeneous(h), "value");
  KIN_NEAR(J1, P, 1e-15 * pm, "conversion Jacobian");
  KIN_NEAR(fromHomogeneousJacobian(h), J1, 1e-15 * pm, "conversion Jacobian");
  M43 J2;
  J2.setConstant(-7);
  PBT_CHECK(toHomogeneous(e, &J2) == toHomogeneous(e), "value");
  PBT_CHECK(J2 == M43(M43::Identity()) && toHomogeneousJacobian(e) == M43(M43::Identity()), "conversion Jacobian");
  // numerically: moving the point with the update
  double k = 1e-5;
  for (int j = 0; j < 3; ++j) {
    V3 d = V3::Zero();
    d[j] = k;
    HomogeneousPoint a(h), b(h);
    a.oplus(d);
    b.oplus(-d);
    KIN_NEAR(V4((a.toHomogeneous() - b.toHomogeneous()) / (2 * k)), V4(Jh.col(j)), 1e-9 * h.norm(), "central difference");
  }
}

template <int N> static void normalisation(pbt::Source& s) {
  typedef Eigen::Matrix<double, N, 1> V;
  typedef Eigen::Matrix<double, N, N> M;
  V v;
  double m = s.logUniform(1e-3, 1e3);
  for (int i = 0; i < N; ++i) v[i] = s.real(1) * m;
  if (v.norm() < 1e-6) v[0] = m;
  PBT_NOTE(s, str(v));
  M J;
  J.setConstant(-7);
  V n = normalizeAndJacobian<N>(v, J);
  PBT_NEAR(n.norm(), 1, 2e-15, "unit");
  KIN_NEAR(n, (sm::kinematics::normalize<N>(v)), 1e-15, "both variants");
  KIN_NEAR(V(n * v.norm()), v, 2e-15 * v.norm(), "direction");
  L r = 0;
  for (int i = 0; i < N; ++i) r += L(v[i]) * L(v[i]);
  r = std::sqrt(r);
  Eigen::Matrix<L, N, N> E;
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) E(i, j) = (L(i == j) - L(v[i]) * L(v[j]) / (r * r)) / r;
  KIN_NEAR(J, E, 2e-15 / double(r), "Jacobian");
}
PBT(normalisation_jacobian, 20000, 200000) {
  s.nontrivial();
  switch (s.below(4)) {
    case 0: normalisation<2>(s); break;
    case 1: normalisation<3>(s); break;
    case 2: normalisation<4>(s); break;
    default: normalisation<6>(s); break;
  }
}

PBT(columns, 20000, 200000) {
  int r = int(s.chance(1, 10) ? s.size(1, 40) : s.size(1, 6)), c = int(s.chance(1, 10) ? s.below(60) : s.below(8));
  Eigen::MatrixXd M(r, c), w(1, c);
  for (int j = 0; j < c; ++j) { w(0, j) = scaleOf(s); for (int i = 0; i < r; ++i) M(i, j) = s.real(100); }
  PBT_NOTE(s, r << "x" << c << str(M));
  if (c == 0) s.nontrivial();
  Eigen::MatrixXd H = toHomogeneousColumns(M);
  PBT_CHECK(H.rows() == r + 1 && H.cols() == c, "size");
  PBT_CHECK(H.topRows(r) == M && H.row(r) == Eigen::MatrixXd::Ones(1, c), "homogeneous columns");
  PBT_CHECK(fromHomogeneousColumns(H) == M, "there and back");
  Eigen::MatrixXd S = H;
  for (int j = 0; j < c; ++j) S.col(j) *= w(0, j);
  KIN_NEAR(fromHomogeneousColumns(S), M, 1e-13, "any scale");
}

PBT(uncertain_arithmetic, 60000, 900000) {
  V3 a, b;
  V4 x = pt(s, a), y = pt(s, b);
  M4 Ux = psd(s, 4), Uy = psd(s, 4);
  PBT_NOTE(s, str(x) << str(Ux) << " and " << str(y) << str(Uy));
  UncertainHomogeneousPoint UX(x, Ux), UY(y, Uy);
  HomogeneousPoint X(x), Y(y);
  double sc = 16 * ((mx(Ux) + mx(Uy)) * std::pow(std::max(x.norm(), y.norm()), 2)) + 1e-290;
  for (int sub = 0; sub < 2; ++sub) {
    // derivative of (x, y) -> (x y3 +- y x3, x3 y3)
    double sg = sub ? -1 : 1;
    M4L Jx = M4L::Zero(), Jy = M4L::Zero();
    for (int i = 0; i < 3; ++i) { Jx(i, i) = y[3]; Jx(i, 3) = sg * y[i]; Jy(i, i) = sg * x[3]; Jy(i, 3) = x[i]; }
    Jx(3, 3) = y[3];
    Jy(3, 3) = x[3];
    M4L Px = Jx * Ux.cast<L>() * Jx.transpose(), Py = Jy * Uy.cast<L>() * Jy.transpose();
    const char* n = sub ? "difference" : "sum";
    UncertainHomogeneousPoint uu = sub ? UX - UY : UX + UY, cu = sub ? X - UY : X + UY, uc = sub ? UX - Y : UX + Y;
    const HomogeneousPoint& base = UX;
    UncertainHomogeneousPoint vu = sub ? base - UY : base + UY;
    KIN_NEAR(uu.U4(), M4L(Px + Py), 1e-14 * sc, n << " of uncertain points");
    KIN_NEAR(vu.U4(), M4L(Px + Py), 1e-14 * sc, n << " through the base class");
    KIN_NEAR(cu.U4(), Py, 1e-14 * sc, n << " certain, uncertain");
    KIN_NEAR(uc.U4(), Px, 1e-14 * sc, n << " uncertain, certain");
    // in Euclidean space covariances just add
    M3 e = UX.U3() + UY.U3();
    double se = 36 * (mx(Ux) * (1 + a.squaredNorm()) / (x[3] * x[3]) + mx(Uy) * (1 + b.squaredNorm()) / (y[3] * y[3])) * 9;
    double amp = (1 + a.squaredNorm() + b.squaredNorm());
    KIN_NEAR(uu.U3(), e, 1e-14 * se * amp + 1e-280, n << " as Euclidean covariance");
    KIN_NEAR(cu.U3(), UY.U3(), 1e-14 * se * amp + 1e-280, n << " as Euclidean covariance");
    KIN_NEAR(uc.U3(), UX.U3(), 1e-14 * se * amp + 1e-280, n << " as Euclidean covariance");
  }
}

PBT(uncertain_conversions, 60000, 900000) {
  V3 a;
  V4 x = pt(s, a);
  M4 U = psd(s, 4);
  M3 U3 = psd(s, 3);
  PBT_NOTE(s, str(x) << str(U));
  UncertainHomogeneousPoint A(x, U);
  PBT_CHECK(A.U4() == U && A.toHomogeneous() == x, "stored");
  Eigen::Matrix<L, 3, 4> P;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) P(i, j) = j == 3 ? -L(x[i]) / (L(x[3]) * L(x[3])) : L(i == j) / L(x[3]);
  double pm = double(P.cwiseAbs().maxCoeff());
  KIN_NEAR(A.U3(), M3L(P * U.cast<L>() * P.transpose()), 1e-14 * 16 * pm * pm * mx(U) + 1e-290, "Euclidean covariance");
  UncertainHomogeneousPoint B(a, U3);
  KIN_NEAR(B.U3(), U3, 1e-15 * mx(U3), "Euclidean covariance there and back");
  PBT_CHECK(M3(M4(B.U4()).block(0, 0, 3, 3)) == U3 && B.U4().row(3).isZero(0) && B.U4().col(3).isZero(0), "embedded");
  PBT_CHECK(UncertainHomogeneousPoint().U4() == M4::Zero() && UncertainHomogeneousPoint(a).U4() == M4::Zero() && UncertainHomogeneousPoint(x).U4() == M4::Zero() && UncertainHomogeneousPoint(HomogeneousPoint(x)).U4() == M4::Zero(), "no uncertainty by default");
  PBT_CHECK(UncertainHomogeneousPoint(HomogeneousPoint(x), U).U4() == U, "from a certain point");
  UncertainHomogeneousPoint C(x);
  C.setU(U);
  PBT_CHECK(C.U4() == U && C.toHomogeneous() == x, "setU");
  // normalisation
  UncertainHomogeneousPoint N = A;
  if (s.flip()) N.normalize(); else { HomogeneousPoint& h = N; h.normalize(); }
  PBT_NEAR(N.toHomogeneous().norm(), 1, 2e-15, "unit");
  L r = 0;
  for (int i = 0; i < 4; ++i) r += L(x[i]) * L(x[i]);
  r = std::sqrt(r);
  M4L J;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) J(i, j) = (L(i == j) - L(x[i]) * L(x[j]) / (r * r)) / r;
  KIN_NEAR(N.U4(), M4L(J * U.cast<L>() * J.transpose()), 1e-14 * 16 * mx(U) / double(r * r) + 1e-290, "normalised covariance");
  // update form, on the unit sphere only
  V4 n = N.toHomogeneous();
  UncertainHomogeneousPoint D(n, U3), E(HomogeneousPoint(n), U3), F(n);
  F.setUOplus(U3);
  PBT_CHECK(D.U4() == F.U4() && E.U4() == F.U4(), "constructors in update form");
  M43 Jh;
  HomogeneousPoint(n).toHomogeneousAndJacobian(Jh);
  KIN_NEAR(F.U4(), M4(Jh * U3 * Jh.transpose()), 1e-14 * mx(U3) + 1e-290, "update form is propagated by the update Jacobian");
  KIN_NEAR(F.U_av_form(), U3, 4e-14 * mx(U3) + 1e-290, "update form there and back");
  // tangential covariances survive the way back
  M4 T = F.U4();
  UncertainHomogeneousPoint G(n);
  G.setUOplus(F.U_av_form());
  KIN_NEAR(G.U4(), T, 4e-14 * mx(U3) + 1e-290, "read then set");
  if (std::fabs(x.norm() - 1) > 1e-3) {
    PBT_THROWS(C.setUOplus(U3), HomogeneousPoint::Exception, "not on the unit sphere");
    PBT_THROWS(A.U_av_form(), HomogeneousPoint::Exception, "not on the unit sphere");
    PBT_CHECK(C.U4() == U, "unchanged");
  }
  std::srand(unsigned(s.below(1u << 31)));
  C.setRandom();
  PBT_CHECK(Eigen::SelfAdjointEigenSolver<M4>(C.U4()).eigenvalues().minCoeff() > 0.9, "random covariance is positive definite");
}
