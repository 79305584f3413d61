// P05: rigid transformations form a group acting consistently on points.
#include "kin.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/random.hpp>
PBT_PROPERTY("P05",
             "Transformations from rotation vectors of every size and translations up to 1e3, built from matrices (also with rounding noise), from unit and "
             "unnormalised quaternions, and reached by histories of compositions, inversions, incremental updates and interpolations followed in extended "
             "precision; points of any kind. A case is non-trivial when the rotation is tiny or about half a turn, the quaternion is unnormalised, the history has at "
             "least three steps, or the interpolation time is outside the interval.")
using namespace kin;
using namespace sm::kinematics;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> ML;

struct Ref { M3L C; V3L t; };
static M4L toM4(const Ref& r) { M4L T = M4L::Identity(); T.topLeftCorner<3, 3>() = r.C; T.topRightCorner<3, 1>() = r.t; return T; }
static Ref mulR(const Ref& a, const Ref& b) { return Ref{M3L(a.C * b.C), V3L(a.C * b.t + a.t)}; }
static Ref invR(const Ref& a) { return Ref{M3L(a.C.transpose()), V3L(-(a.C.transpose() * a.t))}; }
static Ref idR() { return Ref{M3L::Identity(), V3L::Zero()}; }
static V4 homog(const V3& v, double w) { return V4(v[0], v[1], v[2], w); }

/// a transformation together with its reference, through one of the constructors
static Transformation gen(pbt::Source& s, Ref& r, double mag = 1000) {
  V4 q = quat(s);
  V3 t = vec(s, mag);
  r.t = t.cast<L>();
  V4L ql = q.cast<L>();
  ql /= std::sqrt(ql.squaredNorm());
  r.C = quatRotL(ql);
  if (std::fabs(q[3]) > 1 - 1e-6 || std::fabs(q[3]) < 1e-6) s.nontrivial();
  switch (s.below(4)) {
    case 0: {
      M4 T = toM4(r).cast<double>();
      return Transformation(T);
    }
    case 1: {
      double f = s.logUniform(1e-6, 1e6);
      s.label("unnormalised");
      s.nontrivial();
      return Transformation(V4(q * f), t);
    }
    case 2: {
      Transformation T;
      M4 M = toM4(r).cast<double>();
      T.set(M);
      return T;
    }
    default: return Transformation(q, t);
  }
}
static void valid(const Transformation& T, const std::string& what) {
  PBT_NEAR(T.q().norm(), 1, 1e-14, "unit quaternion after " << what);
  M3 C = T.C();
  PBT_CHECK(properRotation(C, 4e-14), "proper rotation after " << what);
  M4 M = T.T();
  PBT_CHECK((M.topLeftCorner<3, 3>() == C), "T contains C");
  PBT_CHECK((M.topRightCorner<3, 1>() == T.t()), "T contains t");
  PBT_CHECK((M.bottomLeftCorner<1, 4>() == Eigen::RowVector4d(0, 0, 0, 1)), "last row");
  PBT_CHECK((T.T3x4() == M.topLeftCorner<3, 4>()), "T3x4");
  T.checkTransformationIsValid();
}

PBT(construct_and_apply, 60000, 900000) {
  Ref r;
  Transformation T = gen(s, r);
  PBT_NOTE(s, str(T.T()));
  valid(T, "construction");
  KIN_NEAR(T.C(), r.C, 4e-15, "rotation reproduced");
  PBT_CHECK(T.t() == V3(r.t.cast<double>()), "translation reproduced exactly");
  double n = T.t().norm();
  V3 x = vec(s, 1000);
  double tol = 8e-15 * (x.norm() + n) + 1e-300;
  V3L e = r.C * x.cast<L>() + r.t;
  KIN_NEAR(V3(T * x), e, tol, "Euclidean point");
  double w = s.chance(1, 4) ? 0 : s.chance(1, 4) ? 1 : s.chance(1, 2) ? s.signedLog(1e-3, 1e3) : s.signedLog(1e-18, 1e-3);
  if (w == 0) { s.label("direction"); if (x.norm() == 0) x[0] = 2; }
  V4 h = homog(x, w);
  V4L eh;
  eh.head<3>() = r.C * x.cast<L>() + L(w) * r.t;
  eh[3] = w;
  double tolh = 8e-15 * (x.norm() + std::fabs(w) * n) + 1e-300;
  KIN_NEAR(V4(T * h), eh, tolh, "homogeneous vector");
  HomogeneousPoint p(h), tp = T * p;
  KIN_NEAR(tp.toHomogeneous(), eh, tolh, "homogeneous point");
  PBT_CHECK((T * h)[3] == w && tp.toHomogeneous()[3] == w, "scale untouched");
  KIN_NEAR(V3(T.rotate(x)), V3L(r.C * x.cast<L>()), 8e-15 * x.norm(), "rotate");
  V4 rh = T.rotate(h);
  KIN_NEAR(V3(rh.head<3>()), V3L(r.C * x.cast<L>()), 8e-15 * x.norm(), "rotate homogeneous");
  PBT_CHECK(rh[3] == w, "scale untouched by rotation");
  Transformation I = T.inverse();
  valid(I, "inversion");
  KIN_NEAR(I.T(), toM4(invR(r)), 8e-15 * (1 + n), "inverse");
  KIN_NEAR((T * I).T(), M4::Identity(), 8e-15 * (1 + n), "T T^-1");
  KIN_NEAR((I * T).T(), M4::Identity(), 8e-15 * (1 + n), "T^-1 T");
  KIN_NEAR(V3(I * V3(T * x)), x, 2 * tol, "points come back");
  // raw access
  Transformation R;
  PBT_CHECK(R.T() == M4::Identity(), "default is the identity");
  for (int i = 0; i < 4; ++i) R.qptr()[i] = T.q()[i];
  for (int i = 0; i < 3; ++i) R.tptr()[i] = T.t()[i];
  PBT_CHECK(R.q() == T.q() && R.t() == T.t(), "raw access");
  R.setIdentity();
  PBT_CHECK(R.T() == M4::Identity(), "setIdentity");
}

PBT(group_laws, 60000, 900000) {
  Ref a, b, c;
  Transformation A = gen(s, a), B = gen(s, b), C = gen(s, c);
  PBT_NOTE(s, str(A.T()) << str(B.T()) << str(C.T()));
  double m = 1 + A.t().norm() + B.t().norm() + C.t().norm();
  KIN_NEAR((A * B).T(), toM4(mulR(a, b)), 8e-15 * m, "product is the matrix product");
  KIN_NEAR(((A * B) * C).T(), (A * (B * C)).T(), 2e-14 * m, "associative");
  KIN_NEAR((A * B).inverse().T(), (B.inverse() * A.inverse()).T(), 2e-14 * m, "inverse of a product");
  Transformation I;
  KIN_NEAR((A * I).T(), A.T(), 4e-15 * m, "identity");
  KIN_NEAR((I * A).T(), A.T(), 4e-15 * m, "identity");
  V3 x = vec(s, 100);
  KIN_NEAR(V3((A * B) * x), V3(A * V3(B * x)), 2e-14 * (m + x.norm()), "acts like successive application");
}

/// rounding at the size of the operands themselves, so that small motions are not lost beside nothing
PBT(small_motions, 40000, 400000) {
  auto small = [&](V4& q, V3& t) {
    double a = s.chance(1, 6) ? 0 : s.logUniform(1e-18, 1e-2), m = s.chance(1, 6) ? 0 : s.logUniform(1e-18, 1e-2);
    q = quatL(axis(s) * a).cast<double>();
    t = V3(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)) * m;
  };
  V4 qa, qb;
  V3 ta, tb;
  small(qa, ta);
  small(qb, tb);
  Transformation A(qa, ta), B(qb, tb), P = A * B, I = A.inverse();
  PBT_NOTE(s, "A " << str(qa) << str(ta) << " B " << str(qb) << str(tb));
  s.nontrivial();
  auto rot = [](const V4& q) { return quatRotL(q); };
  auto logL = [](const V4& q) { V3L v = q.head<3>().cast<L>(); return V3L(v / std::sqrt(v.squaredNorm() + L(q[3]) * L(q[3]))); };
  double nq = qa.head<3>().norm() + qb.head<3>().norm(), nt = ta.norm() + tb.norm();
  // vector part of the composed quaternion, to first order the sum
  V3L va = logL(qa), vb = logL(qb);
  L wa = std::sqrt(1 - va.squaredNorm()), wb = std::sqrt(1 - vb.squaredNorm());
  V3L vp = wb * va + wa * vb - va.cross(vb);
  KIN_NEAR(V3(P.q().head<3>() * (P.q()[3] < 0 ? -1 : 1)), vp, 2e-15 * nq + 1e-300, "rotation of the product");
  KIN_NEAR(P.t(), V3L(rot(qa) * tb.cast<L>() + ta.cast<L>()), 2e-15 * nt + 1e-300, "translation of the product");
  KIN_NEAR(V3(I.q().head<3>() * (I.q()[3] < 0 ? -1 : 1)), V3L(-va), 2e-15 * va.norm() + 1e-300, "rotation of the inverse");
  KIN_NEAR(I.t(), V3L(-(rot(qa).transpose() * ta.cast<L>())), 2e-15 * ta.norm() + 1e-300, "translation of the inverse");
  // points of the same size
  V3 x = V3(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)) * s.logUniform(1e-18, 1e-2);
  KIN_NEAR(V3(A * x), V3L(rot(qa) * x.cast<L>() + ta.cast<L>()), 2e-15 * (x.norm() + ta.norm()) + 1e-300, "point");
  double w = s.signedLog(1e-18, 1);
  V4 h = A * homog(x, w);
  KIN_NEAR(V3(h.head<3>()), V3L(rot(qa) * x.cast<L>() + L(w) * ta.cast<L>()), 2e-15 * (x.norm() + std::fabs(w) * ta.norm()) + 1e-300, "homogeneous point");
  PBT_CHECK(h[3] == w, "scale untouched");
  // updates of the same size
  Eigen::Matrix<double, 6, 1> d;
  V3 dt = tb, dw = axis(s) * (s.chance(1, 6) ? 0 : s.logUniform(1e-18, 1e-2));
  d << dt, dw;
  Transformation U = A;
  U.oplus(d);
  V3L vw = quatL(dw).head<3>();
  L ww = std::sqrt(1 - vw.squaredNorm());
  V3L vu = wa * vw + ww * va - vw.cross(va);
  KIN_NEAR(V3(U.q().head<3>() * (U.q()[3] < 0 ? -1 : 1)), vu, 2e-15 * (double(vw.norm()) + va.norm()) + 1e-300, "rotation after the update");
  KIN_NEAR(U.t(), V3L(ta.cast<L>() + dt.cast<L>()), 2e-15 * nt + 1e-300, "translation after the update");
  // part of the way from A to B
  double u = s.unit();
  Transformation S = slerpTransformations(A, B, u);
  KIN_NEAR(S.t(), V3L(ta.cast<L>() * (1 - L(u)) + tb.cast<L>() * L(u)), 4e-15 * nt + 1e-300, "interpolated translation");
  V3L dv = wa * vb - wb * va + vb.cross(va);  // vector part of B A^-1
  L sn = dv.norm(), step = sn > 0 ? std::sin(L(u) * std::asin(sn)) / sn : 0;
  V3L vi = dv * step;
  L wi = std::sqrt(1 - vi.squaredNorm());
  V3L vs = wa * vi + wi * va - vi.cross(va);
  KIN_NEAR(V3(S.q().head<3>() * (S.q()[3] < 0 ? -1 : 1)), vs, 4e-15 * nq + 1e-300, "interpolated rotation");
}

static double stamp(pbt::Source& s) {
  switch (s.below(4)) {
    case 0: return double(s.range(-3, 3));
    case 1: return 1.4e9 + s.unit() * 100;
    default: return s.real(100);
  }
}

PBT(histories, 6000, 60000) {
  Ref r;
  Transformation T = gen(s, r);
  double m = 1 + T.t().norm();
  double err = 1e-14 * m;
  size_t n = s.chance(1, 8) ? s.size(40, 300) : s.size(1, 20);
  if (n >= 3) s.nontrivial();
  if (n >= 40) s.label("long");
  bool updatesOnly = s.chance(1, 3);
  for (size_t k = 0; k < n; ++k) {
    const char* what;
    switch (updatesOnly ? 3 : s.below(5)) {
      case 0: { Ref o; Transformation O = gen(s, o, 10); T = T * O; r = mulR(r, o); what = "right composition"; m += O.t().norm(); break; }
      case 1: { Ref o; Transformation O = gen(s, o, 10); T = O * T; r = mulR(o, r); what = "left composition"; m += O.t().norm(); break; }
      case 2: T = T.inverse(); r = invR(r); what = "inversion"; break;
      case 3: {
        Eigen::Matrix<double, 6, 1> d;
        V3 w = s.flip() ? rotVec(s) : V3(axis(s) * s.logUniform(1e-6, 1)), t = vec(s, 1);
        d << t, w;
        T.oplus(d);
        r.C = rotL(w) * r.C;
        r.t += t.cast<L>();
        what = "update";
        m += t.norm();
        break;
      }
      default: {
        Ref o;
        Transformation O = gen(s, o, 10);
        double u = s.unit();
        // follow the real result: interpolation itself is checked elsewhere
        T = slerpTransformations(T, O, u);
        r.C = quatRotL(T.q());
        r.t = T.t().cast<L>();
        what = "interpolation";
        m += O.t().norm();
        break;
      }
    }
    PBT_NOTE(s, what);
    err += 2e-14 * m;
    valid(T, what);
    KIN_NEAR(T.T(), toM4(r), err, "after " << k + 1 << " steps, last " << what);
  }
  // the result is usable by every other operation
  Ref o;
  Transformation O = gen(s, o), P = slerpTransformations(T, O, 0.5), Q = slerpTransformations(O, T, s.unit()), R = interpolateTransformations(T, 0, T, 1, 0.25);
  valid(P, "interpolation after a history");
  valid(Q, "interpolation after a history");
  KIN_NEAR(R.T(), T.T(), 1e-14 * m, "interpolating with itself");
  valid(T * O, "composition");
  valid(T.inverse(), "inversion");
  PBT_CHECK(V3(quat2AxisAngle(T.q())).allFinite(), "logarithm usable");
}

PBT(noisy_matrices, 20000, 200000) {  // matrices as computed or read back from text with a few digits
  V3 v = rotVec(s), t = vec(s, 100);
  M4 M = M4::Identity();
  M.topLeftCorner<3, 3>() = rotL(v).cast<double>();
  M.topRightCorner<3, 1>() = t;
  double eps = s.logUniform(1e-17, 1e-6);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M(i, j) += eps * s.uniform(-1, 1);
  s.nontrivial();
  PBT_NOTE(s, "noise " << eps << " " << str(M));
  Transformation T(M), U;
  U.set(M);
  PBT_CHECK(U.q() == T.q() && U.t() == T.t(), "set and constructor agree");
  valid(T, "construction from a noisy matrix");
  KIN_NEAR(T.T(), M, 4e-15 + 4 * eps, "close to the given matrix");
  Ref o;
  Transformation O = gen(s, o);
  valid(slerpTransformations(T, O, s.unit()), "interpolation");
  valid(T * O, "composition");
}

PBT(update_linearisation, 30000, 300000) {
  Ref r;
  Transformation T = gen(s, r, 100);
  Eigen::Matrix<double, 6, 1> d;
  for (int i = 0; i < 6; ++i) d[i] = s.normal();
  double h = s.pick({1e-3, 1e-5, 1e-7});
  d *= h;
  PBT_NOTE(s, str(T.T()) << " update " << str(d));
  s.nontrivial();
  Transformation N = T;
  N.oplus(d);
  // documented: T' = (1 - boxPlus(S d)) T to first order
  M4 lin = (M4::Identity() - boxPlus(T.S() * d)) * T.T();
  double m = 1 + T.t().norm();
  KIN_NEAR(N.T(), lin, (20 * h * h + 1e-15) * m, "linearisation");
  KIN_NEAR(V3(N.t()), V3(T.t() + d.head<3>()), 1e-14 * m, "translation part adds");
  KIN_NEAR(N.C(), M3L(rotL(V3(d.tail<3>())) * r.C), 8e-15, "rotation part multiplies from the left");
}

PBT(interpolation, 60000, 900000) {
  Ref a, b;
  Transformation A = gen(s, a), B = gen(s, b);
  double s0 = stamp(s), s1 = s.chance(1, 8) ? s0 : stamp(s), si;
  if (s0 != s1 && std::fabs(s1 - s0) < 1e-9) s1 = s0 + 1;
  switch (s.below(6)) {
    case 0: si = s0; break;
    case 1: si = s1; break;
    case 2: si = std::min(s0, s1) - s.logUniform(1e-6, 1e6); s.nontrivial(); break;
    case 3: si = std::max(s0, s1) + s.logUniform(1e-6, 1e6); s.nontrivial(); break;
    default: si = s0 + (s1 - s0) * s.unit(); break;
  }
  PBT_NOTE(s, str(A.T()) << " at " << s0 << ", " << str(B.T()) << " at " << s1 << ", query " << si);
  Transformation R = interpolateTransformations(A, s0, B, s1, si);
  valid(R, "interpolation");
  double m = 1 + A.t().norm() + B.t().norm();
  if (s0 != s1) {
    Transformation S = interpolateTransformations(B, s1, A, s0, si);
    KIN_NEAR(S.T(), R.T(), 2e-14 * m, "order of the stamps is irrelevant");
  }
  Ref e;
  bool atA = s0 <= s1 ? si <= s0 : si >= s0, atB = s0 <= s1 ? si >= s1 : si <= s1;
  if (atA && !(s0 == s1 && si > s0)) { KIN_NEAR(R.T(), toM4(a), 8e-15 * m, "clamped at the first"); if (si != s0) s.label("clamped"); return; }
  if (atB) { KIN_NEAR(R.T(), toM4(b), 8e-15 * m, "clamped at the second"); return; }
  L u = (L(si) - L(s0)) / (L(s1) - L(s0));
  V3L te = a.t + u * (b.t - a.t);
  KIN_NEAR(V3(R.t()), te, 2e-14 * m, "translation is linear");
  M3L D = a.C.transpose() * b.C;
  V3L w(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
  L sn = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) / 2, cs = (D(0, 0) + D(1, 1) + D(2, 2) - 1) / 2, th = std::atan2(sn, cs);
  if (double(PI - th) < 1e-4) return;
  V3L v = sn > 0 ? V3L(w * (-th / (2 * sn))) : V3L(V3L::Zero());
  KIN_NEAR(R.C(), M3L(a.C * rotL(V3L(v * u))), 4e-14 / double(std::min<L>(1, PI - th)), "rotation along the shorter arc at constant rate");
  Transformation S = slerpTransformations(A, B, double(u));
  KIN_NEAR(S.T(), R.T(), 2e-14 * m, "unit-time form");
}

PBT(random_transformations, 20000, 100000) {
  std::srand(unsigned(s.below(1u << 31)));
  sm::random::seed(s.below(1u << 31));
  double tm = s.chance(1, 8) ? 0 : s.logUniform(1e-6, 1e6), rm = s.chance(1, 8) ? 0 : angle(s, double(PI));
  PBT_NOTE(s, "bounds " << tm << " " << rm);
  s.nontrivial();
  Transformation T;
  T.setRandom(tm, rm);
  valid(T, "setRandom with bounds");
  PBT_CHECK(T.t().norm() <= tm * (1 + 1e-12), "translation " << T.t().norm() << " within " << tm);
  double ang = 2 * std::atan2(T.q().head<3>().norm(), std::fabs(T.q()[3]));
  PBT_CHECK(ang <= rm * (1 + 1e-12) + 1e-150, "rotation " << ang << " within " << rm);
  Transformation U;
  U.setRandom();
  valid(U, "setRandom");
  PBT_CHECK(U.t().allFinite(), "finite");
}
