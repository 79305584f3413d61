// P30: numerical differentiation, matrix square root, random covariances, comparison helpers, configuration readers.
#include "pbt.hpp"
#include <functional>
#include <gtest/gtest-spi.h>
#include <gtest/gtest.h>
#include <Eigen/Dense>
#include <sm/BoostPropertyTree.hpp>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/gtest.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/kinematics/property_tree.hpp>

PBT_PROPERTY("P30",
             "Random quadratic, trigonometric and manifold functions with 0 to 7 inputs and outputs, points including zero and large "
             "coordinates, several steps; positive semi-definite matrices of size 1 to 8 and rank 0 to full, badly scaled; matrices with "
             "single perturbed entries at the tolerance; property trees with arbitrary finite numbers. Non-trivial: more than one input, a "
             "rank-deficient or ill-conditioned matrix, an entry near the tolerance, a non-integer configuration value.")

using Eigen::MatrixXd;
using Eigen::VectorXd;
using sm::eigen::NumericalDiff;
using sm::eigen::NumericalDiffFunctor;

static MatrixXd mat(pbt::Source& s, long r, long c, double m) {
  MatrixXd a(r, c);
  for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) a(i, j) = s.real(m);
  return a;
}

// y_k = x^T Q_k x + b_k^T x + c_k: central differences are exact up to rounding, for any step
template <typename T>
static void quadraticCase(pbt::Source& s, bool dflt) {
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> V;
  long N = s.range(0, 7), M = s.range(1, 7);
  std::vector<MatrixXd> Q;
  MatrixXd B = mat(s, M, N, 3), x0 = mat(s, N, 1, s.pick({1.0, 10.0, 100.0})), c = mat(s, M, 1, 3);
  for (long k = 0; k < M; ++k) Q.push_back(mat(s, N, N, 2));
  V x = x0.template cast<T>();
  double eps = dflt ? std::sqrt(double(std::numeric_limits<T>::epsilon())) : s.logUniform(sizeof(T) == 4 ? 1e-2 : 1e-4, 1e-1);
  if (N > 1) s.nontrivial();
  PBT_NOTE(s, M << "x" << N << " eps " << eps);
  long calls = 0;
  auto f = [&](const V& v) -> V {
    ++calls;
    Eigen::VectorXd d = v.template cast<double>();
    Eigen::VectorXd y(M);
    for (long k = 0; k < M; ++k) y[k] = (d.transpose() * Q[size_t(k)] * d)(0) + (B.row(k) * d)(0) + c(k);
    return y.template cast<T>();
  };
  MatrixXd J;
  V before = x;
  if (std::is_same<T, double>::value && s.flip()) {
    std::function<V(const V&)> fn(f);
    J = dflt ? sm::eigen::numericalDiff<V, V>(fn, x) : sm::eigen::numericalDiff<V, V>(fn, x, eps);
  } else {
    NumericalDiff<NumericalDiffFunctor<V, V>> nd = dflt ? NumericalDiff<NumericalDiffFunctor<V, V>>(NumericalDiffFunctor<V, V>(f))
                                                        : NumericalDiff<NumericalDiffFunctor<V, V>>(NumericalDiffFunctor<V, V>(f), T(eps));
    J = nd.estimateJacobian(x);
  }
  PBT_CHECK((before.array() == x.array()).all(), "evaluation point changed");
  PBT_EQ(J.rows(), M, "rows");
  PBT_EQ(J.cols(), N, "cols");
  VectorXd xd = x.template cast<double>();
  double scale = xd.size() ? xd.cwiseAbs().maxCoeff() : 0;
  for (long k = 0; k < M; ++k) {
    VectorXd g = (Q[size_t(k)] + Q[size_t(k)].transpose()) * xd + B.row(k).transpose();
    double fmag = 2 * double(N * N) * (scale + eps) * (scale + eps) + 3 * double(N) * (scale + eps) + 4;
    for (long j = 0; j < N; ++j) {
      double h = std::max(std::fabs(xd[j]) * eps, eps);
      // rounding of the function values, and of the perturbed coordinate
      double u = std::numeric_limits<T>::epsilon();
      double tol = 4 * u * fmag / h + 4 * u * (std::fabs(xd[j]) + h) / h * (std::fabs(g[j]) + 4 * double(N) * (scale + h)) + 1e-13 * (1 + std::fabs(g[j]));
      PBT_NEAR(J(k, j), g[j], tol, "entry " << k << "," << j << " step " << h);
    }
  }
  PBT_CHECK(calls >= 1, "function evaluated");
}
PBT(jacobian_quadratic, 12000, 150000) { quadraticCase<double>(s, false); }
PBT(jacobian_default_step, 8000, 100000) { quadraticCase<double>(s, true); }
PBT(jacobian_float, 6000, 60000) { quadraticCase<float>(s, s.flip()); }

// many inputs or outputs; every output is a product of two inputs
PBT(jacobian_large, 1500, 15000) {
  const long N = s.chance(1, 3) ? s.range(1, 300) : s.range(1, 9), M = s.chance(1, 2) ? s.range(1, 700) : s.range(1, 9);
  if (N > 9 || M > 9) s.nontrivial();
  PBT_NOTE(s, M << "x" << N);
  const uint64_t k = s.bits64() | 1;
  auto p = [&](long i) { return long((k * uint64_t(i + 1) >> 20) % uint64_t(N)); };
  auto q = [&](long i) { return long((k * uint64_t(i + 1) >> 40) % uint64_t(N)); };
  VectorXd x(N);
  for (long i = 0; i < N; ++i) x[i] = double(long(k * uint64_t(i + 3) >> 50)) / 1000 - 8;
  std::function<VectorXd(const VectorXd&)> f = [&](const VectorXd& v) { VectorXd y(M); for (long i = 0; i < M; ++i) y[i] = v[p(i)] * v[q(i)] + double(i); return y; };
  const MatrixXd J = sm::eigen::numericalDiff<VectorXd, VectorXd>(f, x, 1e-3);
  MatrixXd want = MatrixXd::Zero(M, N);
  for (long i = 0; i < M; ++i) want(i, p(i)) += x[q(i)], want(i, q(i)) += x[p(i)];
  PBT_EQ(J.rows(), M, "rows");
  PBT_EQ(J.cols(), N, "cols");
  for (long i = 0; i < M; ++i) for (long j = 0; j < N; ++j) PBT_NEAR(J(i, j), want(i, j), 1e-8, "entry " << i << "," << j);
  if (N > 9 || M > 9) return;
  // the derivative of the derivative
  std::function<VectorXd(const VectorXd&)> g = [&](const VectorXd& v) { return VectorXd(sm::eigen::numericalDiff<VectorXd, VectorXd>(f, v, 1e-3).row(0).transpose()); };
  const MatrixXd H = sm::eigen::numericalDiff<VectorXd, VectorXd>(g, x, 1e-3);
  MatrixXd h = MatrixXd::Zero(N, N);
  h(p(0), q(0)) += 1, h(q(0), p(0)) += 1;
  for (long i = 0; i < N; ++i) for (long j = 0; j < N; ++j) PBT_NEAR(H(i, j), h(i, j), 1e-5, "second derivative " << i << "," << j);
}

PBT(jacobian_smooth, 10000, 120000) {
  typedef Eigen::Matrix<double, 4, 1> V4;
  typedef Eigen::Matrix<double, 3, 1> V3;
  V3 x;
  V4 w, ph;
  MatrixXd A = mat(s, 4, 3, 2);
  for (int i = 0; i < 3; ++i) x[i] = s.real(3);
  for (int i = 0; i < 4; ++i) ph[i] = s.uniform(-3, 3);
  s.nontrivial();
  double eps = s.logUniform(1e-7, 1e-4);
  auto f = [&](V3 v) -> V4 { V4 y; for (int k = 0; k < 4; ++k) y[k] = std::sin((A.row(k) * v)(0) + ph[k]) + (k == 2 ? std::exp(v[0] * 0.3) : 0); return y; };
  typedef NumericalDiffFunctor<V4, V3, Eigen::Matrix<double, 4, 3>> F;
  NumericalDiff<F> nd(F(f), eps);
  Eigen::Matrix<double, 4, 3> J = nd.estimateJacobian(x);
  for (int k = 0; k < 4; ++k)
    for (int j = 0; j < 3; ++j) {
      double e = std::cos((A.row(k) * x)(0) + ph[k]) * A(k, j) + (k == 2 && j == 0 ? 0.3 * std::exp(0.3 * x[0]) : 0);
      double h = std::max(std::fabs(x[j]) * eps, eps);
      double tol = h * h * 8 + 1e-14 / h + 1e-11;  // second order in the step
      PBT_NEAR(J(k, j), e, tol, "entry " << k << "," << j);
    }
}

// a functor with its own update: derivative of a rotation angle composed on the circle
struct CircleFunctor {
  typedef Eigen::Matrix<double, 2, 1> value_t;
  typedef double scalar_t;
  struct input_t {
    double c, s;
    size_t size() const { return 1; }
    double operator()(int) const { return 0; }
  };
  typedef Eigen::MatrixXd jacobian_t;
  value_t operator()(const input_t& x) { value_t v; v << x.c, x.s; return v; }
  input_t update(const input_t& x, int, double d) { input_t r; r.c = x.c * std::cos(d) - x.s * std::sin(d); r.s = x.s * std::cos(d) + x.c * std::sin(d); return r; }
};
PBT(jacobian_custom_update, 4000, 40000) {
  double a = s.uniform(-4, 4);
  s.nontrivial();
  CircleFunctor::input_t x{std::cos(a), std::sin(a)};
  NumericalDiff<CircleFunctor> nd{CircleFunctor(), s.logUniform(1e-6, 1e-4)};
  MatrixXd J = nd.estimateJacobian(x);
  PBT_NEAR(J(0, 0), -std::sin(a), 1e-7, "");
  PBT_NEAR(J(1, 0), std::cos(a), 1e-7, "");
}

template <typename In, typename Out>
static void sqrtCase(const MatrixXd& A, const In& in, Out& out, double tol) {
  sm::eigen::computeMatrixSqrt(in, out);
  PBT_EQ(out.rows(), A.rows(), "rows");
  PBT_EQ(out.cols(), A.cols(), "cols");
  MatrixXd S = out.template cast<double>();
  PBT_CHECK(S.allFinite(), "not finite:\n" << S << "\nfor\n" << A);
  MatrixXd R = S * S.transpose();
  double e = A.size() ? (R - A).cwiseAbs().maxCoeff() : 0, m = A.size() ? A.cwiseAbs().maxCoeff() : 0;
  PBT_CHECK(e <= tol * m, "S*S^T differs by " << e << " from\n" << A);
}

PBT(matrix_sqrt, 30000, 400000) {
  long n = s.range(1, 8), r = s.range(0, n);
  MatrixXd B = mat(s, n, r, 5);
  if (s.chance(1, 3)) for (long i = 0; i < n; ++i) B.row(i) *= s.logUniform(1e-4, 1e4);
  if (s.chance(1, 4)) B = B.unaryExpr([](double v) { return double(std::lround(v)); });
  MatrixXd A = B * B.transpose();
  A = (0.5 * (A + A.transpose())).eval();
  if (r < n) { s.nontrivial(); s.label("singular"); }
  PBT_NOTE(s, n << "x" << n << " rank " << r);
  MatrixXd S(n, n);
  sqrtCase(A, A, S, 1e-12);
  MatrixXd S2(n, n);
  sqrtCase(A, (A * 1.0).eval(), S2, 1e-12);
  if (n == 3) { Eigen::Matrix3d S3, A3 = A; sqrtCase(A, A3, S3, 1e-12); }
  if (n == 6) { Eigen::Matrix<double, 6, 6> S6, A6 = A; sqrtCase(A, A6, S6, 1e-12); }
  Eigen::Matrix3d I;
  double k = s.logUniform(1e-6, 1e6);
  sm::eigen::computeMatrixSqrt(Eigen::Matrix3d::Identity() * k, I);
  PBT_CHECK((I * I.transpose() - Eigen::Matrix3d::Identity() * k).norm() <= 1e-12 * k, "scaled identity expression");
}
PBT(matrix_sqrt_not_square, 500, 5000) {
  long r = s.range(1, 5), c = s.range(1, 5);
  if (r == c) s.discard();
  s.nontrivial();
  MatrixXd A = mat(s, r, c, 3), S;
  PBT_THROWS(sm::eigen::computeMatrixSqrt(A, S), std::runtime_error, r << "x" << c);
}

template <int N>
static void covCase() {
  Eigen::Matrix<double, N, N> U = sm::eigen::randomCovariance<N>();
  PBT_CHECK((U - U.transpose()).norm() <= 1e-14 * U.norm(), "symmetric");
  Eigen::LLT<Eigen::Matrix<double, N, N>> llt(U);
  PBT_CHECK(llt.info() == Eigen::Success, "positive definite");
}
PBT(random_covariance, 2000, 20000) {
  std::srand(unsigned(s.bits64()));
  s.nontrivial();
  covCase<1>(); covCase<2>(); covCase<3>(); covCase<4>(); covCase<6>();
  int n = int(s.range(1, 9));
  MatrixXd U = sm::eigen::randomCovarianceXd(n);
  PBT_CHECK(U.rows() == n && U.cols() == n, "size");
  PBT_CHECK((U - U.transpose()).norm() <= 1e-14 * U.norm(), "symmetric");
  PBT_CHECK(Eigen::LLT<MatrixXd>(U).info() == Eigen::Success, "positive definite");
}

// ---- comparison helpers -----------------------------------------------------------------------------
template <typename F>
static int failures(F f) {
  ::testing::TestPartResultArray r;
  {
    ::testing::ScopedFakeTestPartResultReporter rep(::testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &r);
    f();
  }
  int n = 0;
  for (int i = 0; i < r.size(); ++i) n += r.GetTestPartResult(i).failed();
  return n;
}
PBT(comparison_helpers, 15000, 150000) {
  long r = s.range(1, 4), c = s.range(1, 4);
  MatrixXd A = mat(s, r, c, 10), B = A;
  double tol = s.logUniform(1e-9, 1), d = 0;
  int what = int(s.below(6));
  if (what == 5) { B.resize(r + 1, c); B.setZero(); B.topRows(r) = A; }
  else if (what == 4) B.resize(r, c + 1), B.setZero(), B.leftCols(c) = A;
  else {
    long i = s.range(0, r - 1), j = s.range(0, c - 1);
    if (what == 1) d = tol * s.uniform(0.01, 0.9);
    if (what == 2) d = tol * s.uniform(1.1, 5);
    if (s.flip()) d = -d;
    B(i, j) += d;
    d = B(i, j) - A(i, j);
    if (what == 3) B(i, j) = std::nan("");
    if (d != 0) s.nontrivial();
  }
  bool near = what <= 2 && std::fabs(d) <= tol, equal = what <= 2 && d == 0;
  PBT_NOTE(s, "kind " << what << " tol " << tol << " d " << d);
  PBT_EQ(failures([&] { sm::eigen::assertNear(A, B, tol, SM_SOURCE_FILE_POS, "m"); }) == 0, near, "assertNear");
  if (what <= 3) PBT_EQ(failures([&] { sm::eigen::expectNear(A, B, tol, SM_SOURCE_FILE_POS); }) == 0, near, "expectNear");
  PBT_EQ(failures([&] { sm::eigen::assertEqual(A, B, SM_SOURCE_FILE_POS); }) == 0, equal, "assertEqual");
  PBT_EQ(failures([&] { sm::eigen::assertFinite(B, SM_SOURCE_FILE_POS); }) == 0, what != 3, "assertFinite");
  if (what != 1 && what != 2) {
    PBT_EQ(failures([&] { ASSERT_DOUBLE_MX_EQ(A, B, 1e-6, "m"); }) == 0, equal, "ASSERT_DOUBLE_MX_EQ");
  }
}
PBT(compare_relative, 60000, 800000) {
  double a = s.flip() ? s.real(100) : s.anyDouble(), pct = s.logUniform(1e-9, 50), b;
  switch (s.below(4)) {
    case 0: b = a; break;
    case 1: b = a * (1 + s.uniform(-2, 2) * pct * 1e-2); s.nontrivial(); break;
    case 2: b = s.pick({0.0, 1e-16, 1e-7, std::nan(""), double(INFINITY)}); s.nontrivial(); break;
    default: b = s.anyDouble(); break;
  }
  PBT_NOTE(s, a << " " << b << " " << pct << "%");
  double e1 = -1, e2 = -1;
  bool x = sm::eigen::compareRelative(a, b, pct, &e1), y = sm::eigen::compareRelative(b, a, pct, &e2);
  PBT_EQ(x, y, "symmetric");
  PBT_EQ(x, sm::eigen::compareRelative(a, b, pct), "error pointer is optional");
  if (std::isnan(a) || std::isnan(b)) { PBT_CHECK(!x, "NaN is not equal to anything"); return; }
  if (a == b) { PBT_CHECK(x, "a number equals itself"); return; }
  long double fa = std::fabs((long double)a), fb = std::fabs((long double)b), m = std::max(fa, fb);
  if (fa < 1e-15L && fb < 1e-15L) { PBT_CHECK(x, "both zero"); return; }
  if ((fa == 0 && fb < 1e-6L) || (fb == 0 && fa < 1e-6L)) { PBT_CHECK(x, "zero and small"); return; }
  if (!std::isfinite(a) || !std::isfinite(b)) { PBT_CHECK(!x, "infinity"); return; }
  long double d = std::fabs((long double)a - (long double)b) / m;
  if (std::fabs((long double)a - (long double)b) > 1.7e308L) return;
  if (d < pct * 1e-2L * (1 - 1e-12L) - 1e-300L) PBT_CHECK(x, "within tolerance");
  if (d > pct * 1e-2L * (1 + 1e-12L) + 1e-15L) { PBT_CHECK(!x, "outside tolerance"); PBT_NEAR(e1, double(d) * 100, 1e-9 * (1 + double(d) * 100), "reported error"); }
}

// ---- configuration readers ---------------------------------------------------------------------------
PBT(readers, 6000, 60000) {
  sm::BoostPropertyTree pt;
  double v[3], q[4], t[3];
  for (double& x : v) x = s.anyFinite();
  for (double& x : q) x = s.real(5);
  for (double& x : t) x = s.anyFinite();
  double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  if (n < 1e-3) q[3] = 1, n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + 1);
  if (s.chance(1, 3)) { const double k = s.logUniform(1e-60, 1e60); for (double& x : q) x *= k; }
  s.nontrivial();
  std::string ns = s.pick({std::string(""), std::string("a"), std::string("cam/0")});
  std::string pre = ns.empty() ? "" : ns + "/";
  const char* qn[] = {"x", "y", "z", "w"};
  std::vector<size_t> order = s.permutation(4);
  for (size_t i : order) {
    if (i < 3) { pt.setDouble(pre + "vec/" + qn[i], v[i]); pt.setDouble(pre + "T/t_a_b_a/" + qn[i], t[i]); }
    pt.setDouble(pre + "T/q_a_b/" + qn[i], q[i]);
  }
  sm::ConstPropertyTree root(pt);
  sm::ConstPropertyTree c = ns.empty() ? root : sm::ConstPropertyTree(root, ns);
  Eigen::Vector3d rv = sm::eigen::vector3FromPropertyTree(sm::ConstPropertyTree(c, "vec"));
  for (int i = 0; i < 3; ++i) PBT_CHECK(rv[i] == v[i], "vector element " << i << ": " << rv[i] << " vs " << v[i]);
  Eigen::Vector4d rq = sm::eigen::quaternionFromPropertyTree(sm::ConstPropertyTree(c, "T/q_a_b"));
  for (int i = 0; i < 4; ++i) PBT_CHECK(rq[i] == q[i], "quaternion element " << i << ": " << rq[i] << " vs " << q[i]);
  sm::kinematics::Transformation T = sm::kinematics::transformationFromPropertyTree(sm::ConstPropertyTree(c, "T"));
  for (int i = 0; i < 3; ++i) PBT_CHECK(T.t()[i] == t[i], "translation element " << i);
  Eigen::Vector4d e(q[0], q[1], q[2], q[3]);
  e /= e.norm();
  PBT_CHECK(std::min((T.q() - e).norm(), (T.q() + e).norm()) < 1e-14, "rotation " << T.q().transpose() << " vs " << e.transpose());
  PBT_THROWS(sm::eigen::vector3FromPropertyTree(sm::ConstPropertyTree(c, "missing")), sm::PropertyTree::InvalidKeyException, "missing vector");
}
