// P08: uncertain vectors and scalars propagate mean and covariance to first order.
#include "kin.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
PBT_PROPERTY("P08",
             "Vectors of dimension 1 to 6 with entries up to 1e3, covariances of every rank, scalars of both signs (zero included except as divisor), square "
             "operators of any rank, rotations of every angle; every certain/uncertain operand combination. A case is non-trivial when at least one "
             "operand has a non-zero covariance and a non-zero mean.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> MXL;
typedef Eigen::MatrixXd MX;

template <int D> struct G {
  typedef UncertainVector<D> U;
  typedef Eigen::Matrix<double, D, 1> V;
  typedef Eigen::Matrix<double, D, D> M;
  static V vec(pbt::Source& s) { V v; for (int i = 0; i < D; ++i) v[i] = s.real(1000); return v; }
  static U make(pbt::Source& s) {
    V v = vec(s);
    M E = psd(s, D);
    if (v.norm() > 0 && E.norm() > 0) s.nontrivial();
    PBT_NOTE(s, str(v) << str(E));
    return U(v, E);
  }
};
static UncertainScalar scalar(pbt::Source& s) {
  double v = s.real(1000), e = s.chance(1, 5) ? 0 : s.logUniform(1e-24, 1e3);
  if (v != 0 && e != 0) s.nontrivial();
  PBT_NOTE(s, v << " var " << e);
  return UncertainScalar(v, e);
}
static double mx(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
static void psdCheck(const MX& E, const char* what, double m) {
  PBT_CHECK(E.allFinite(), what << " is finite");
  PBT_CHECK(mx(E - E.transpose()) <= 4e-15 * m * E.rows() + 1e-300, what << " is symmetric\n" << E);
}

static MXL mat(double x) { return MXL::Constant(1, 1, L(x)); }
template <class A> static MXL mat(const Eigen::MatrixBase<A>& m) { return m.template cast<L>(); }
static MX mean(const UncertainScalar& u) { return MX::Constant(1, 1, u.mean()); }
static MX cov(const UncertainScalar& u) { return MX::Constant(1, 1, u.covariance()); }
template <int D> static MX mean(const UncertainVector<D>& u) { return u.mean(); }
template <int D> static MX cov(const UncertainVector<D>& u) { return u.covariance(); }

static void near(const MX& m, const MX& E, const MXL& rm, double mm, const MXL& Ja, const MXL& Ea, const MXL& Jb, const MXL& Eb, const std::string& what) {
  KIN_NEAR(m, rm, 2e-15 * mm + 1e-300, what << ": mean");
  MXL P = MXL::Zero(rm.rows(), rm.rows());
  double pm = 0;
  if (Ja.size()) { P += Ja * Ea * Ja.transpose(); pm += double(Ja.cwiseAbs().maxCoeff()) * double(Ja.cwiseAbs().maxCoeff()) * double(Ea.cwiseAbs().maxCoeff()) * Ea.rows() * Ea.rows(); }
  if (Jb.size()) { P += Jb * Eb * Jb.transpose(); pm += double(Jb.cwiseAbs().maxCoeff()) * double(Jb.cwiseAbs().maxCoeff()) * double(Eb.cwiseAbs().maxCoeff()) * Eb.rows() * Eb.rows(); }
  KIN_NEAR(E, P, 4e-15 * pm + 1e-300, what << ": covariance");
  psdCheck(E, what.c_str(), pm);
  MX S = 0.5 * (E + E.transpose());
  PBT_CHECK(Eigen::SelfAdjointEigenSolver<MX>(S).eigenvalues().minCoeff() >= -1e-13 * pm - 1e-300, what << ": covariance is positive semi-definite\n" << E);
}
static const MXL NONE;

template <int D> static void vectors(pbt::Source& s) {
  typedef G<D> g;
  typename g::U A = g::make(s), B = g::make(s);
  typename g::V c = g::vec(s);
  MXL I = MXL::Identity(D, D), EA = mat(A.E()), EB = mat(B.E()), a = mat(A.v()), b = mat(B.v()), cl = mat(c);
  double ma = mx(A.v()), mb = mx(B.v()), mc = mx(c);
  typename g::U r;
  r = A + B; near(r.v(), r.E(), a + b, ma + mb, I, EA, I, EB, "sum");
  r = A - B; near(r.v(), r.E(), a - b, ma + mb, I, EA, -I, EB, "difference");
  r = A + c; near(r.v(), r.E(), a + cl, ma + mc, I, EA, NONE, EB, "sum with certain");
  r = A - c; near(r.v(), r.E(), a - cl, ma + mc, I, EA, NONE, EB, "difference with certain");
  UncertainScalar d = A.dot(B);
  near(mean(d), cov(d), a.transpose() * b, D * ma * mb, b.transpose(), EA, a.transpose(), EB, "dot");
  d = A.dot(c);
  near(mean(d), cov(d), a.transpose() * cl, D * ma * mc, cl.transpose(), EA, NONE, EB, "dot with certain");
  UncertainScalar x = scalar(s);
  L xv = x.mean();
  r = A * x; near(r.v(), r.E(), a * xv, ma * std::fabs(x.v()), I * xv, EA, a, mat(x.E()), "vector times scalar");
  r = x * A; near(r.v(), r.E(), a * xv, ma * std::fabs(x.v()), I * xv, EA, a, mat(x.E()), "scalar times vector");
  r = A * x.mean(); near(r.v(), r.E(), a * xv, ma * std::fabs(x.v()), I * xv, EA, NONE, EA, "vector times certain scalar");
  r = x * c; near(r.v(), r.E(), cl * xv, mc * std::fabs(x.v()), NONE, EA, cl, mat(x.E()), "scalar times certain vector");
  typename g::M M;
  bool sing = s.chance(1, 4);
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) M(i, j) = sing && i ? M(0, j) : s.real(10);
  if (sing) s.label("singular operator");
  r = M * A;
  near(r.v(), r.E(), mat(M) * a, D * mx(M) * ma, mat(M), EA, NONE, EA, "linear map");
}
PBT(vector_operations, 60000, 900000) {
  switch (s.below(4)) {
    case 0: vectors<2>(s); break;
    case 1: vectors<3>(s); break;
    case 2: vectors<4>(s); break;
    default: vectors<6>(s); break;
  }
}

PBT(scalar_operations, 60000, 900000) {
  UncertainScalar A = scalar(s), B = scalar(s);
  double c = s.real(1000);
  PBT_NOTE(s, "and " << c);
  L a = A.v(), b = B.v();
  MXL I = mat(1), EA = mat(A.E()), EB = mat(B.E());
  double ma = std::fabs(A.v()), mb = std::fabs(B.v()), mc = std::fabs(c);
  UncertainScalar r;
#define R(E, MEAN, MAG, JA, JB, WHAT) r = E; near(mean(r), cov(r), MXL::Constant(1, 1, MEAN), MAG, JA, EA, JB, EB, WHAT);
  R(A + B, a + b, ma + mb, I, I, "sum")
  R(A - B, a - b, ma + mb, I, -I, "difference")
  R(A + c, a + c, ma + mc, I, NONE, "sum with certain")
  R(A - c, a - c, ma + mc, I, NONE, "difference with certain")
  R(A * B, a * b, ma * mb, I * b, I * a, "product")
  R(A.dot(B), a * b, ma * mb, I * b, I * a, "dot")
  R(A * c, a * c, ma * mc, I * L(c), NONE, "product with certain")
  R(A.dot(c), a * c, ma * mc, I * L(c), NONE, "dot with certain")
  if (mb > 1e-6) { R(A / B, a / b, ma / mb, I / b, -I * a / (b * b), "quotient") }
  if (mc > 1e-6) { R(A / c, a / c, ma / mc, I / L(c), NONE, "quotient with certain") }
#undef R
}

template <int D> static void normal(pbt::Source& s) {
  typedef G<D> g;
  typename g::U A = g::make(s);
  if (A.v().norm() < 1e-6) { typename g::V v = A.v(); v[0] = 3; A.setMean(v); }
  MXL v = mat(A.v()), J(D, D);
  L n = v.norm();
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) J(i, j) = (L(i == j) - v(i) * v(j) / (n * n)) / n;
  MXL one = MXL::Identity(D, D) / n;
  typename g::U B = A.normalized(), C = A;
  double im = double(1 / n);
  for (int k = 0; k < 2; ++k) {
    const typename g::U& r = k ? C : B;
    if (k) C.normalize();
    KIN_NEAR(r.v(), v / n, 2e-15, "mean");
    MXL P = J * mat(A.E()) * J.transpose();
    KIN_NEAR(r.E(), P, 8e-15 * D * D * im * im * mx(A.E()) + 1e-300, "covariance");
    psdCheck(r.E(), "normalised covariance", im * im * mx(A.E()) * D);
    KIN_NEAR(MX(r.E() * r.v()), MX::Zero(D, 1), 4e-14 * D * D * im * im * mx(A.E()) + 1e-300, "no uncertainty along the direction");
  }
  PBT_CHECK(mx(B.v() - C.v()) <= 1e-15 && mx(B.E() - C.E()) <= 1e-14 * D * im * im * mx(A.E()) + 1e-300, "both variants agree");
}
PBT(normalisation, 40000, 600000) {
  switch (s.below(4)) {
    case 0: normal<2>(s); break;
    case 1: normal<3>(s); break;
    case 2: normal<4>(s); break;
    default: normal<6>(s); break;
  }
}

PBT(rotation, 40000, 600000) {
  G<3>::U A = G<3>::make(s);
  V4 q = quat(s);
  V3 t = vec(s);
  PBT_NOTE(s, "rotated by " << str(q));
  Transformation T(q, t);
  UncertainVector3 r = T.rotate(A);
  M3L C = quatRotL(q);
  near(r.v(), r.E(), C * mat(A.v()), 4 * A.v().norm(), C, mat(A.E()), NONE, NONE, "rotated");
  UncertainVector3 b = T.inverse().rotate(r);
  KIN_NEAR(b.v(), A.v(), 1e-14 * A.v().norm(), "there and back");
  KIN_NEAR(b.E(), A.E(), 4e-14 * mx(A.E()), "there and back");
}

template <int D> static void access(pbt::Source& s) {
  typedef G<D> g;
  typedef typename g::U U;
  U A = g::make(s), B = g::make(s), Z;
  typename g::V zv = g::V::Zero();
  typename g::M zm = g::M::Zero();
  PBT_CHECK(Z.v() == zv && Z.E() == zm, "default is zero without uncertainty");
  U N(A.v());
  PBT_CHECK(N.v() == A.v() && N.E() == zm, "certain");
  PBT_CHECK(A.mean() == A.v() && A.covariance() == A.E(), "accessors");
  U C = A;
  PBT_CHECK(C.isBinaryEqual(A) && A.isBinaryEqual(C), "equal to its copy");
  bool same = A.v() == B.v() && A.E() == B.E();
  PBT_CHECK(A.isBinaryEqual(B) == same, "equality");
  C.setMean(B.v());
  PBT_CHECK(C.v() == B.v() && C.E() == A.E(), "setMean leaves the covariance");
  C = A;
  C.setCovariance(B.E());
  PBT_CHECK(C.v() == A.v() && C.E() == B.E(), "setCovariance leaves the mean");
  // one differing entry is noticed
  C = A;
  typename g::V v = A.v();
  int i = int(s.below(D)), j = int(s.below(D));
  v[i] = v[i] == 0 ? 1e-300 : std::nextafter(v[i], INFINITY);
  C.setMean(v);
  PBT_CHECK(!C.isBinaryEqual(A) && !A.isBinaryEqual(C), "mean entry " << i << " differs");
  C = A;
  typename g::M E = A.E();
  E(i, j) = E(i, j) == 0 ? 1e-300 : std::nextafter(E(i, j), INFINITY);
  C.setCovariance(E);
  PBT_CHECK(!C.isBinaryEqual(A) && !A.isBinaryEqual(C), "covariance entry " << i << "," << j << " differs");
  C = A;
  C.setZero();
  PBT_CHECK(C.v() == zv && C.E() == zm && C.isBinaryEqual(U()), "setZero");
  std::srand(unsigned(s.below(1u << 31)));
  C.setRandom();
  PBT_CHECK(C.v().allFinite() && C.E().allFinite(), "random is finite");
  psdCheck(C.E(), "random covariance", D);
  MX S = C.E();
  PBT_CHECK(Eigen::SelfAdjointEigenSolver<MX>(S).eigenvalues().minCoeff() > 0.9, "random covariance is positive definite");
}
PBT(access_and_equality, 40000, 600000) {
  switch (s.below(4)) {
    case 0: access<2>(s); break;
    case 1: access<3>(s); break;
    case 2: access<4>(s); break;
    default: access<6>(s); break;
  }
}
PBT(scalar_access_and_equality, 20000, 200000) {
  UncertainScalar A = scalar(s), B = scalar(s), C = A, Z;
  PBT_CHECK(Z.v() == 0 && Z.E() == 0 && UncertainScalar(A.v()).E() == 0 && UncertainScalar(A.v()).v() == A.v(), "certain by default");
  PBT_CHECK(A.mean() == A.v() && A.covariance() == A.E() && C.isBinaryEqual(A), "accessors");
  PBT_CHECK(A.isBinaryEqual(B) == (A.v() == B.v() && A.E() == B.E()), "equality");
  C.setMean(B.v());
  PBT_CHECK(C.v() == B.v() && C.E() == A.E(), "setMean");
  PBT_CHECK(C.isBinaryEqual(A) == (A.v() == B.v()), "equality");
  C = A;
  C.setCovariance(B.E());
  PBT_CHECK(C.v() == A.v() && C.E() == B.E(), "setCovariance");
  PBT_CHECK(C.isBinaryEqual(A) == (A.E() == B.E()), "equality");
  C.setZero();
  PBT_CHECK(C.v() == 0 && C.E() == 0, "setZero");
  C.setRandom();
  PBT_CHECK(C.v() >= 0 && C.v() <= 1 && C.E() >= 0 && C.E() <= 1, "random");
}
