// P09: point-set alignment is exact on noise-free data and optimal otherwise.
#include "kin.hpp"
#include <sm/kinematics/three_point_methods.hpp>
PBT_PROPERTY("P09",
             "1 to 30 correspondences: random, planar, collinear, coincident and mirrored sets of any scale (1e-3 to 1e3) and offset, noise from none to overwhelming, unrelated sets; "
             "weights equal, spread over six decades or zero. The oracle is the optimal alignment from Horn's quaternion form in long double. A case is "
             "non-trivial when at least two correspondences differ.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::MatrixXd MX;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> MXL;

/// best achievable sum of p0' R p1 over rotations R for M = sum p1 p0', the optimal R, and the gap to the runner-up
struct Best { L gain, gap; M3L R; };
static Best best(const M3L& M) {
  M4L N;
  L a = M(0, 0), b = M(1, 1), c = M(2, 2), d = M(1, 2) - M(2, 1), e = M(2, 0) - M(0, 2), f = M(0, 1) - M(1, 0);
  N << a + b + c, d, e, f, d, a - b - c, M(0, 1) + M(1, 0), M(2, 0) + M(0, 2), e, M(0, 1) + M(1, 0), -a + b - c, M(1, 2) + M(2, 1), f, M(2, 0) + M(0, 2), M(1, 2) + M(2, 1), -a - b + c;
  Eigen::SelfAdjointEigenSolver<M4L> es(N);
  V4L q = es.eigenvectors().col(3);
  Best r;
  r.gain = es.eigenvalues()[3];
  r.gap = (es.eigenvalues()[3] - es.eigenvalues()[2]) / 2;
  M3L X = crossL(q.tail<3>());
  r.R = M3L::Identity() + 2 * q[0] * X + 2 * X * X;  // active rotation, scalar first (Horn)
  return r;
}

static MX cloud(pbt::Source& s, int n, double m) {
  MX P(3, n);
  int kind = int(s.below(6));
  for (int j = 0; j < n; ++j) for (int i = 0; i < 3; ++i) P(i, j) = s.chance(1, 3) ? s.real(m) : s.uniform(-m, m);
  M3 R = rot(s);
  switch (kind) {
    case 0: P.row(2).setZero(); P = R * P; s.label("planar"); break;
    case 1: P.row(1).setZero(); P.row(2).setZero(); P = R * P; s.label("collinear"); break;
    case 2: P.row(2) *= 1e-7; P = R * P; s.label("nearly planar"); break;
    case 3: if (n > 2) for (int j = 2; j < n; ++j) if (s.flip()) P.col(j) = P.col(0); break;
    default: break;
  }
  if (s.chance(1, 12)) { for (int j = 1; j < n; ++j) P.col(j) = P.col(0); s.label("coincident"); }
  return P;
}
static void noisy(pbt::Source& s, MX& P, double m) {
  for (int j = 0; j < P.cols(); ++j) for (int i = 0; i < 3; ++i) P(i, j) += m * s.normal();
}
static double mx(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }

PBT(point_sets, 40000, 600000) {
  int n = int(s.chance(1, 100) ? s.size(31, 600) : s.size(1, 30));
  double m = s.logUniform(1e-3, 1e3), off = s.chance(1, 3) ? 0 : s.logUniform(1e-2, 1e3) * m;
  MX p1 = cloud(s, n, m);
  M3 C = rot(s);
  V3 t = off * axis(s), u = s.flip() ? V3(V3::Zero()) : V3(off * axis(s));
  MX q = p1;
  bool exact = false;
  switch (s.below(5)) {
    case 0: noisy(s, q, m * s.logUniform(1e-9, 3)); s.label("noisy"); break;
    case 1: q.row(int(s.below(3))) *= -1; s.label("mirrored"); if (s.flip()) noisy(s, q, m * s.logUniform(1e-9, 1e-1)); break;
    case 2: q = cloud(s, n, m); s.label("unrelated"); break;
    default: exact = true; break;
  }
  MX p0 = (C * q).colwise() + t;
  p1.colwise() += u;
  PBT_NOTE(s, "p0 " << str(p0) << " p1 " << str(p1));
  if (n > 1 && (mx(p1.colwise() - p1.col(0)) > 0 || mx(p0.colwise() - p0.col(0)) > 0)) s.nontrivial();
  M4 T = threePointSvd(p0, p1);
  PBT_CHECK(T.allFinite() && T.row(3) == Eigen::RowVector4d(0, 0, 0, 1), "a transformation\n" << T);
  M3 R = T.block(0, 0, 3, 3);
  PBT_CHECK(properRotation(R, 4e-14), "proper rotation\n" << R << "\ndet " << R.determinant());
  V3 tr = T.block(0, 3, 3, 1);
  MXL a = p0.cast<L>(), b = p1.cast<L>();
  V3L c0 = a.rowwise().mean(), c1 = b.rowwise().mean();
  double s0 = mx(p0), s1 = mx(p1);
  KIN_NEAR(tr, V3L(c0 - R.cast<L>() * c1), 4e-15 * n * (s0 + s1), "translation maps centroid to centroid");
  MXL A = a.colwise() - c0, B = b.colwise() - c1;
  M3L M = B * A.transpose();
  Best o = best(M);
  L gain = 0;
  for (int j = 0; j < n; ++j) gain += A.col(j).dot(R.cast<L>() * B.col(j));
  double d0 = double(A.cwiseAbs().maxCoeff()), d1 = double(B.cwiseAbs().maxCoeff());
  double errH = 2e-15 * n * ((s0 + d0) * (s1 + d1)) + 1e-300;
  // shifted sets: centroids are only known to rounding
  double tol = 64 * errH;
  PBT_CHECK(gain >= o.gain - tol, "squared error is minimal: alignment " << double(gain) << " of at most " << double(o.gain) << " tolerance " << tol);
  double ang = 8 * errH / double(o.gap > 0 ? o.gap : 1e-300L);
  if (ang < 1e-3) {
    s.label("unique optimum");
    KIN_NEAR(R, o.R, ang + 4e-14, "optimal rotation");
    if (exact) {
      KIN_NEAR(R, C, ang + 4e-14, "noise-free data reproduce the rotation");
      KIN_NEAR(V3(R * (p1.col(0)) + tr), V3(p0.col(0)), (ang + 4e-14) * 4 * (s0 + s1) + 1e-300, "noise-free data reproduce the points");
    }
    // permuted correspondences, exchanged sets
    std::vector<size_t> pi = s.permutation(size_t(n));
    MX q0(3, n), q1(3, n);
    for (int j = 0; j < n; ++j) { q0.col(j) = p0.col(int(pi[size_t(j)])); q1.col(j) = p1.col(int(pi[size_t(j)])); }
    M4 P = threePointSvd(q0, q1);
    KIN_NEAR(M3(P.block(0, 0, 3, 3)), R, 2 * ang + 4e-14, "order does not matter");
    M4 I = threePointSvd(p1, p0);
    KIN_NEAR(M3(I.block(0, 0, 3, 3)), M3(R.transpose()), 2 * ang + 4e-14, "exchanging the sets inverts");
  }
}

static MX unitVectors(pbt::Source& s, int n) {
  MX P(3, n);
  int kind = int(s.below(5));
  V3 base = axis(s);
  double spread = s.logUniform(1e-6, 1);
  for (int j = 0; j < n; ++j) {
    V3 v = axis(s);
    if (kind == 0) v = base + spread * v;         // narrow field of view
    else if (kind == 1 && j) v = base;            // parallel
    else if (kind == 2) v -= base * base.dot(v);  // in one plane
    if (!(v.norm() > 1e-9)) v = base;
    P.col(j) = v / v.norm();
  }
  return P;
}

PBT(directions, 40000, 600000) {
  int n = int(s.size(1, 30));
  MX p1 = unitVectors(s, n), q = p1;
  M3 C = rot(s);
  bool exact = false;
  switch (s.below(5)) {
    case 0: noisy(s, q, s.logUniform(1e-9, 1)); s.label("noisy"); break;
    case 1: q.row(int(s.below(3))) *= -1; s.label("mirrored"); break;
    case 2: q = unitVectors(s, n); s.label("unrelated"); break;
    default: exact = true; break;
  }
  for (int j = 0; j < n; ++j) { double k = q.col(j).norm(); if (k > 1e-9) q.col(j) /= k; else q.col(j) = V3::UnitY(); }
  MX p0 = C * q;
  Eigen::VectorXd w(n);
  bool equal = s.chance(1, 3);
  double wm = s.logUniform(1e-3, 1e3), sum = 0;
  int live = 0;
  for (int j = 0; j < n; ++j) { w[j] = equal ? 1 : s.chance(1, 5) ? 0 : wm * s.logUniform(1e-6, 1); sum += w[j]; live += w[j] > 0; }
  PBT_NOTE(s, "p0 " << str(p0) << " p1 " << str(p1) << " w " << str(w));
  if (n > 1) s.nontrivial();
  M3 R = equal && s.flip() ? qMethod(p0, p1) : qMethod(p0, p1, w);
  PBT_CHECK(R.allFinite() && properRotation(R, 4e-14), "proper rotation\n" << R);
  M3L M = M3L::Zero();
  L gain = 0;
  for (int j = 0; j < n; ++j) {
    V3L a = p0.col(j).cast<L>(), b = p1.col(j).cast<L>();
    M += L(w[j]) * b * a.transpose();
    gain += L(w[j]) * a.dot(R.cast<L>() * b);
  }
  Best o = best(M);
  double err = 4e-15 * (n + 4) * sum + 1e-300, tol = 16 * err;
  PBT_CHECK(gain >= o.gain - tol, "weighted error is minimal: alignment " << double(gain) << " of at most " << double(o.gain) << " tolerance " << tol);
  double ang = 8 * err / double(o.gap > 0 ? o.gap : 1e-300L);
  if (ang < 1e-3 && live > 0) {
    s.label("unique optimum");
    KIN_NEAR(R, o.R, ang + 4e-14, "optimal rotation");
    if (exact) KIN_NEAR(R, C, ang + 4e-14, "noise-free data reproduce the rotation");
    // weight scaling
    double f = s.logUniform(1e-6, 1e6);
    KIN_NEAR(qMethod(p0, p1, w * f), R, 2 * ang + 4e-14, "scaling all weights");
    // order
    std::vector<size_t> pi = s.permutation(size_t(n));
    MX q0(3, n), q1(3, n);
    Eigen::VectorXd v(n);
    for (int j = 0; j < n; ++j) { q0.col(j) = p0.col(int(pi[size_t(j)])); q1.col(j) = p1.col(int(pi[size_t(j)])); v[j] = w[int(pi[size_t(j)])]; }
    KIN_NEAR(qMethod(q0, q1, v), R, 2 * ang + 4e-14, "order does not matter");
    KIN_NEAR(qMethod(p1, p0, w), M3(R.transpose()), 2 * ang + 4e-14, "exchanging the sets inverts");
    // zero-weight pairs
    for (int j = 0; j < n; ++j) if (w[j] == 0) { q0 = p0; q0.col(j) = axis(s); KIN_NEAR(qMethod(q0, p1, w), R, 2 * ang + 4e-14, "zero weight has no influence"); break; }
    MX e0(3, n + 1), e1(3, n + 1);
    Eigen::VectorXd ew(n + 1);
    int at = int(s.below(unsigned(n) + 1));
    for (int j = 0; j <= n; ++j) {
      if (j == at) { e0.col(j) = axis(s); e1.col(j) = axis(s); ew[j] = 0; continue; }
      int k = j - (j > at);
      e0.col(j) = p0.col(k); e1.col(j) = p1.col(k); ew[j] = w[k];
    }
    KIN_NEAR(qMethod(e0, e1, ew), R, 2 * ang + 4e-14, "zero weight has no influence");
  }
}
