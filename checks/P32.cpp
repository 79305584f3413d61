// P32: every function and rotation class of the Python module computes what the C++ function of that name computes.
#include "pyembed.hpp"
#include "kin.hpp"
#include <boost/cstdint.hpp>
#include <iostream>
#include <map>
#include <set>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/random.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/Timer.hpp>
#include <sm/timing/TimestampCorrector.hpp>

PBT_PROPERTY("P32",
             "A case calls one function of the module (drawn from all of them) with rotations of every angle, poses, quaternions, matrices of any size, times or seeds, and "
             "compares with the C++ function; or calls it with an argument of a wrong shape. A case is non-trivial when the arguments are not all zero and the function takes "
             "a matrix or vector, when the argument has a wrong shape, or, for histories, when at least four stamps were given.")
using namespace kin;
using namespace sm::kinematics;
namespace bp = boost::python;
typedef Eigen::Matrix<double, 6, 1> V6;

namespace {
bool close(double a, double b, double scale) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= 1e-12 * scale + 1e-300;
}
template <class M>
void same(const M& got, const M& want, const char* name) {
  PBT_CHECK(got.rows() == want.rows() && got.cols() == want.cols(), name << ": " << got.rows() << "x" << got.cols() << " instead of " << want.rows() << "x" << want.cols());
  double sc = 1;
  for (int i = 0; i < want.rows(); ++i)
    for (int j = 0; j < want.cols(); ++j)
      if (std::isfinite(want(i, j))) sc = std::max(sc, std::fabs(want(i, j)));
  for (int i = 0; i < want.rows(); ++i)
    for (int j = 0; j < want.cols(); ++j)
      PBT_CHECK(close(got(i, j), want(i, j), sc), name << " (" << i << "," << j << "): " << got(i, j) << " instead of " << want(i, j));
}
void same(double got, double want, const char* name) { PBT_CHECK(close(got, want, std::max(1.0, std::fabs(want))), name << ": " << got << " instead of " << want); }
void same(boost::int64_t got, boost::int64_t want, const char* name) { PBT_CHECK(got == want, name << ": " << got << " instead of " << want); }

/// calls the module's function and the C++ one with the same arguments: equal results, or an exception from both
template <class R, class Fn, class... A>
void parity(const char* name, Fn f, const A&... a) {
  typedef typename std::decay<R>::type T;
  T want;
  bool threw = false;
  try {
    want = f(a...);
  } catch (const std::exception&) {
    threw = true;
  }
  if (threw) {
    const std::string e = pyembed::raised([&] { pyembed::module().attr(name)(a...); });
    PBT_CHECK(e != "", name << " raises in C++ but not in Python");
    return;
  }
  const bp::object o = pyembed::py([&] { return bp::object(pyembed::module().attr(name)(a...)); });
  same(pyembed::as<T>(o, name), want, name);
}
#define COMMA ,
#define PAR(R, NAME, EXPR, ...) parity<R>(NAME, EXPR, ##__VA_ARGS__)

M4 pose(pbt::Source& s) {
  M4 T = M4::Identity();
  T.topLeftCorner<3, 3>() = quat2r(quat(s));
  const double m = s.logUniform(1e-3, 1e4);
  T.topRightCorner<3, 1>() = V3(s.normal(), s.normal(), s.normal()) * m;
  return T;
}
V3 anyV3(pbt::Source& s) { return V3(s.real(100), s.real(100), s.real(100)); }
V4 anyV4(pbt::Source& s) { return V4(s.real(10), s.real(10), s.real(10), s.real(10)); }
V6 anyV6(pbt::Source& s) { V6 v; for (int i = 0; i < 6; ++i) v[i] = s.real(10); return v; }
Eigen::MatrixXd anyM(pbt::Source& s, int lo, int hi) {
  Eigen::MatrixXd m(s.range(lo, hi), s.range(1, 5));
  for (int i = 0; i < m.size(); ++i) m.data()[i] = s.real(100);
  return m;
}

struct Fun { const char* name; void (*call)(pbt::Source&); };
#define F(NAME, BODY) Fun{NAME, [](pbt::Source& s) { (void)s; const char* N = NAME; (void)N; BODY; }}
const std::vector<Fun>& functions() {
  static const std::vector<Fun> f = {
      F("Rx", PAR(M3, N, Rx, s.real(10))), F("Ry", PAR(M3, N, Ry, s.real(10))), F("Rz", PAR(M3, N, Rz, s.real(10))),
      F("Cx", PAR(M3, N, Cx, s.real(10))), F("Cy", PAR(M3, N, Cy, s.real(10))), F("Cz", PAR(M3, N, Cz, s.real(10))),
      F("rph2R", V3 v = anyV3(s); PAR(M3, N, [](double a, double b, double c) { return rph2R(a, b, c); }, v[0], v[1], v[2]); PAR(M3, N, [](const V3& x) { return rph2R(x); }, v)),
      F("rph2C", V3 v = anyV3(s); PAR(M3, N, [](double a, double b, double c) { return rph2C(a, b, c); }, v[0], v[1], v[2]); PAR(M3, N, [](const V3& x) { return rph2C(x); }, v)),
      F("C2rph", PAR(V3, N, C2rph, M3(quat2r(quat(s))))), F("R2rph", PAR(V3, N, R2rph, M3(quat2r(quat(s))))),
      F("crossMx", V3 v = anyV3(s); PAR(M3, N, [](double a, double b, double c) { return crossMx(a, b, c); }, v[0], v[1], v[2]); PAR(M3, N, [](const V3& x) { return M3(crossMx(x)); }, v)),
      F("axisAngle2R", V3 v = anyV3(s); PAR(M3, N, [](double a, double b, double c) { return axisAngle2R(a, b, c); }, v[0], v[1], v[2]); PAR(M3, N, [](const V3& x) { return axisAngle2R(x); }, v)),
      F("R2AxisAngle", PAR(V3, N, [](const M3& C) { return R2AxisAngle(C); }, M3(quat2r(quat(s))))),
      F("angleMod", PAR(double, N, angleMod, s.real(1000))), F("deg2rad", PAR(double, N, deg2rad, s.real(1000))), F("rad2deg", PAR(double, N, rad2deg, s.real(1000))),
      F("quat2r", PAR(M3, N, quat2r, quat(s))), F("r2quat", PAR(V4, N, r2quat, M3(quat2r(quat(s))))),
      F("axisAngle2quat", PAR(V4, N, axisAngle2quat, anyV3(s))), F("quat2AxisAngle", PAR(V3, N, [](const V4& q) { return quat2AxisAngle(q); }, quat(s))),
      F("quatPlus", PAR(M4, N, quatPlus, anyV4(s))), F("quatOPlus", PAR(M4, N, quatOPlus, anyV4(s))), F("quatInv", PAR(V4, N, quatInv, anyV4(s))),
      F("qeps", PAR(V3, N, qeps, anyV4(s))), F("qeta", PAR(double, N, qeta, anyV4(s))),
      F("quatJacobian", typedef Eigen::Matrix<double COMMA 4 COMMA 3> M43; PAR(M43, N, quatJacobian, quat(s))),
      F("updateQuat", PAR(V4, N, updateQuat, quat(s), anyV3(s))), F("quatIdentity", PAR(V4, N, quatIdentity)),
      F("quatS", typedef Eigen::Matrix<double COMMA 3 COMMA 4> M34; PAR(M34, N, quatS, quat(s))),
      F("quatInvS", typedef Eigen::Matrix<double COMMA 4 COMMA 3> M43; PAR(M43, N, quatInvS, quat(s))),
      F("quatRotate", PAR(V3, N, quatRotate, quat(s), anyV3(s))), F("qoplus", PAR(V4, N, qoplus, anyV4(s), anyV4(s))), F("qplus", PAR(V4, N, qplus, anyV4(s), anyV4(s))),
      F("qlog", PAR(V3, N, qlog, quat(s))), F("qexp", PAR(V4, N, qexp, anyV3(s))),
      F("qslerp", V4 a = quat(s); V4 b = s.chance(1, 5) ? a : quat(s); PAR(V4, N, qslerp, a, b, s.uniform(-0.5, 1.5))),
      F("lerp", int n = int(s.range(1, 6)); Eigen::VectorXd a(n); Eigen::VectorXd b(n); for (int i = 0; i < n; ++i) { a[i] = s.real(10); b[i] = s.real(10); } PAR(Eigen::VectorXd, N, lerp, a, b, s.uniform(-0.5, 1.5))),
      F("toHomogeneousJacobian", typedef Eigen::Matrix<double COMMA 4 COMMA 3> M43; PAR(M43, N, toHomogeneousJacobian, anyV3(s))),
      F("toHomogeneous", PAR(V4, N, [](const V3& v) { return toHomogeneous(v); }, anyV3(s))),
      F("fromHomogeneousJacobian", typedef Eigen::Matrix<double COMMA 3 COMMA 4> M34; PAR(M34, N, fromHomogeneousJacobian, anyV4(s))),
      F("fromHomogeneous", PAR(V3, N, [](const V4& v) { return fromHomogeneous(v); }, anyV4(s))),
      F("toHomogeneousColumns", PAR(Eigen::MatrixXd, N, toHomogeneousColumns, anyM(s, 2, 4))), F("fromHomogeneousColumns", PAR(Eigen::MatrixXd, N, fromHomogeneousColumns, anyM(s, 3, 5))),
      F("rt2Transform", PAR(M4, N, rt2Transform, M3(quat2r(quat(s))), anyV3(s))), F("transform2C", PAR(M3, N, transform2C, pose(s))), F("transform2rho", PAR(V3, N, transform2rho, pose(s))),
      F("transform2rhoHomogeneous", PAR(V4, N, transform2rhoHomogeneous, pose(s))), F("boxPlus", PAR(M4, N, boxPlus, anyV6(s))),
      F("boxMinus", typedef Eigen::Matrix<double COMMA 4 COMMA 6> M46; PAR(M46, N, boxMinus, anyV4(s))),
      F("boxTimes", typedef Eigen::Matrix<double COMMA 6 COMMA 6> M66; PAR(M66, N, boxTimes, pose(s))), F("inverseTransform", PAR(M4, N, inverseTransform, pose(s))),
      F("toTEuler", V6 v = anyV6(s); PAR(M4, N, [](const V6& x) { return toTEuler(x); }, v);
        PAR(M4, N, [](double a, double b, double c, double d, double e, double f) { return toTEuler(a, b, c, d, e, f); }, v[0], v[1], v[2], v[3], v[4], v[5])),
      F("fromTEuler", PAR(V6, N, fromTEuler, pose(s))),
      F("computeMatrixSqrt", int n = int(s.range(1, 4)); Eigen::MatrixXd A(n, n); for (int i = 0; i < n * n; ++i) A.data()[i] = s.normal(); const Eigen::MatrixXd S = A * A.transpose();
        PAR(Eigen::MatrixXd, N, [](const Eigen::MatrixXd& X) { Eigen::MatrixXd R; sm::eigen::computeMatrixSqrt(X, R); return R; }, S)),
      F("nsecToSec", const boost::int64_t t = s.anyInt(-(int64_t(1) << 62), int64_t(1) << 62); PAR(double, N, sm::timing::nsecToSec, t)),
      F("secToNsec", PAR(boost::int64_t, N, sm::timing::secToNsec, s.real(1e9))),
  };
  return f;
}
#undef F
}  // namespace

PBT(functions, 300000, 6000000) {
  const Fun& f = functions()[s.below(functions().size())];
  PBT_NOTE(s, f.name);
  s.label(f.name);
  s.nontrivial();
  f.call(s);
}

PBT(point_jacobians, 50000, 900000) {
  const M4 T = pose(s);
  const V4 p = anyV4(s);
  s.nontrivial();
  for (bool inverse : {false, true}) {
    const char* name = inverse ? "inverseTransformationAndJacobian" : "transformationAndJacobian";
    V4 v;
    Eigen::Matrix<double, 4, 6> J;
    if (inverse) inverseTransformationAndJacobian(T, p, v, J);
    else transformationAndJacobian(T, p, v, J);
    bp::object o = pyembed::py([&] { return bp::object(pyembed::module().attr(name)(T, p)); });
    PBT_EQ(int(bp::len(o)), 2, name);
    same(pyembed::as<V4>(o[0], name), v, name);
    same(pyembed::as<Eigen::Matrix<double, 4, 6>>(o[1], name), J, name);
  }
}

/// a wrong shape is refused with a Python exception: never converted, truncated or padded
PBT(wrong_shapes, 60000, 900000) {
  pyembed::module();
  static const std::vector<std::pair<const char*, std::pair<int, int>>> one = {
      {"C2rph", {3, 3}}, {"R2rph", {3, 3}}, {"R2AxisAngle", {3, 3}}, {"quat2r", {4, 1}}, {"r2quat", {3, 3}}, {"axisAngle2quat", {3, 1}}, {"quat2AxisAngle", {4, 1}},
      {"quatPlus", {4, 1}}, {"quatOPlus", {4, 1}}, {"quatInv", {4, 1}}, {"qeps", {4, 1}}, {"qeta", {4, 1}}, {"quatS", {4, 1}}, {"quatInvS", {4, 1}}, {"qlog", {4, 1}}, {"qexp", {3, 1}},
      {"toHomogeneous", {3, 1}}, {"fromHomogeneous", {4, 1}}, {"toHomogeneousJacobian", {3, 1}}, {"fromHomogeneousJacobian", {4, 1}}, {"transform2C", {4, 4}}, {"transform2rho", {4, 4}},
      {"transform2rhoHomogeneous", {4, 4}}, {"boxPlus", {6, 1}}, {"boxMinus", {4, 1}}, {"boxTimes", {4, 4}}, {"inverseTransform", {4, 4}}, {"fromTEuler", {4, 4}}, {"toTEuler", {6, 1}}, {"rph2R", {3, 1}},
      {"crossMx", {3, 1}}, {"computeMatrixSqrt", {-1, -1}}};
  const auto& f = one[s.below(one.size())];
  int r = int(s.range(1, 7)), c = int(s.range(1, 5));
  const bool right = f.second.first < 0 ? r == c : r == f.second.first && c == f.second.second;
  if (right) s.discard();
  s.nontrivial();
  s.label(f.first);
  PBT_NOTE(s, f.first << " " << r << "x" << c);
  bp::object arg;
  if (c == 1 && f.second.first >= 0) arg = bp::object(Eigen::VectorXd(Eigen::VectorXd::Ones(r)));
  else arg = bp::object(Eigen::MatrixXd(Eigen::MatrixXd::Ones(r, c)));
  const std::string e = pyembed::raised([&] { pyembed::module().attr(f.first)(arg); });
  PBT_CHECK(e != "", f.first << " accepted a " << r << "x" << c << " matrix");
}

namespace {
template <class R>
void rotationClass(pbt::Source& s, const char* name) {
  R r;
  bp::object o = pyembed::py([&] { return bp::object(pyembed::module().attr(name)()); });
  V3 p(s.uniform(-3, 3), s.uniform(-1.5, 1.5), s.uniform(-3, 3)), pd = anyV3(s);
  if (s.chance(1, 8)) p *= 1e-9;
  M3 C = quat2r(quat(s));
  PBT_NOTE(s, name << str(p) << str(pd) << str(C));
  auto call = [&](const char* m, const M3& x) { return pyembed::py([&] { return bp::object(o.attr(m)(x)); }); };
  auto callv = [&](const char* m, const V3& x) { return pyembed::py([&] { return bp::object(o.attr(m)(x)); }); };
  same(pyembed::as<M3>(callv("parametersToRotationMatrix", p), name), M3(r.parametersToRotationMatrix(p)), "parametersToRotationMatrix");
  same(pyembed::as<M3>(callv("parametersToSMatrix", p), name), M3(r.parametersToSMatrix(p)), "parametersToSMatrix");
  V3 back;
  bool threw = false;
  try { back = r.rotationMatrixToParameters(C); } catch (const std::exception&) { threw = true; }
  if (threw) PBT_CHECK(pyembed::raised([&] { o.attr("rotationMatrixToParameters")(C); }) != "", name);
  else same(pyembed::as<V3>(call("rotationMatrixToParameters", C), name), back, "rotationMatrixToParameters");
  Eigen::Matrix<double, 3, 6> J;
  V3 w;
  threw = false;
  try { w = r.angularVelocityAndJacobian(p, pd, &J); } catch (const std::exception&) { threw = true; }
  if (threw) {
    PBT_CHECK(pyembed::raised([&] { o.attr("angularVelocityAndJacobian")(p, pd); }) != "", name);
  } else {
    bp::object t = pyembed::py([&] { return bp::object(o.attr("angularVelocityAndJacobian")(p, pd)); });
    same(pyembed::as<V3>(t[0], name), w, "angularVelocityAndJacobian");
    same(pyembed::as<Eigen::Matrix<double, 3, 6>>(t[1], name), J, "angularVelocityAndJacobian");
  }
  PBT_CHECK(PyObject_IsInstance(o.ptr(), bp::object(pyembed::module().attr("RotationalKinematics")).ptr()) == 1, name << " is a RotationalKinematics");
}
}  // namespace
PBT(rotation_classes, 80000, 1200000) {
  const int k = int(s.below(4));
  s.nontrivial();
  s.label(k == 0 ? "zyx" : k == 1 ? "ypr" : k == 2 ? "vector" : "rodriguez");
  if (k == 0) rotationClass<EulerAnglesZYX>(s, "EulerAnglesZYX");
  if (k == 1) rotationClass<EulerAnglesYawPitchRoll>(s, "EulerAnglesYawPitchRoll");
  if (k == 2) rotationClass<RotationVector>(s, "RotationVector");
  if (k == 3) rotationClass<EulerRodriguez>(s, "EulerRodriguez");
}

/// seeding from Python gives the C++ sequence, value for value
PBT(random_sequences, 40000, 600000) {
  const uint64_t seed = s.chance(1, 2) ? s.below(100) : s.bits64();
  std::vector<int> kinds;
  std::vector<std::pair<double, double>> args;
  do {
    kinds.push_back(int(s.below(6)));
    const double lo = double(s.range(-1000, 1000));
    args.push_back({lo, lo + double(s.range(1, 1000))});
  } while (s.more(6) && kinds.size() < 40);
  if (kinds.size() > 3) s.nontrivial();
  PBT_NOTE(s, "seed " << seed << " draws " << kinds.size());
  std::vector<V4> want;
  sm::random::seed(seed);
  for (size_t i = 0; i < kinds.size(); ++i) {
    V4 v = V4::Zero();
    switch (kinds[i]) {
      case 0: v[0] = sm::random::normal(); break;
      case 1: v[0] = sm::random::randn(); break;
      case 2: v[0] = sm::random::uniform(); break;
      case 3: v[0] = sm::random::rand(); break;
      case 4: v[0] = sm::random::randLU(args[i].first, args[i].second); break;
      case 5: v[0] = sm::random::randLUi(int(args[i].first), int(args[i].second)); break;
    }
    want.push_back(v);
  }
  pyembed::py([&] {
    bp::object m = pyembed::module();
    m.attr("seed")(bp::object(bp::handle<>(PyLong_FromUnsignedLongLong(seed))));
    const V4 q = pyembed::as<V4>(m.attr("quatRandom")(), "quatRandom");
    PBT_NEAR(q.norm(), 1, 1e-14, "quatRandom is a unit quaternion");
    m.attr("seed")(bp::object(bp::handle<>(PyLong_FromUnsignedLongLong(seed))));
    static const char* const names[] = {"normal", "randn", "uniform", "rand", "randLU", "randLUi"};
    for (size_t i = 0; i < kinds.size(); ++i) {
      bp::object r;
      if (kinds[i] == 4) r = m.attr(names[4])(args[i].first, args[i].second);
      else if (kinds[i] == 5) r = m.attr(names[5])(int(args[i].first), int(args[i].second));
      else r = m.attr(names[kinds[i]])();
      same(pyembed::as<double>(r, names[kinds[i]]), want[i][0], names[kinds[i]]);
      if (kinds[i] == 5) PBT_CHECK(PyLong_Check(r.ptr()), "randLUi is an integer");
    }
  });
}

namespace {
template <class T>
void corrector(pbt::Source& s, const char* name, bool integral) {
  sm::timing::TimestampCorrector<T> c;
  bp::object o = pyembed::py([&] { return bp::object(pyembed::module().attr(name)()); });
  auto outcome = [&](const char* what, const std::function<double()>& f, const std::function<bp::object()>& g) {
    double want = 0;
    bool threw = false;
    try { want = f(); } catch (const std::exception&) { threw = true; }
    if (threw) {
      PBT_CHECK(pyembed::raised([&] { g(); }) != "", what << " raises in C++ but not in Python");
    } else {
      bp::object r = pyembed::py(g);
      PBT_CHECK(bool(PyLong_Check(r.ptr())) == (integral || std::string(what) == "convexHullSize") || std::string(what).substr(0, 4) == "getS" || std::string(what).substr(0, 4) == "getO",
                what << " has the type of the time");
      PBT_NEAR(pyembed::as<double>(r, what), want, 1e-15 * std::fabs(want), what);
    }
  };
  const T scale = s.pick({T(1), T(1000), T(1000000)});  // ticks, microseconds and nanoseconds, from the start of the clock and from the epoch
  const T epoch = s.flip() ? T(0) : integral ? T(1500000000) * T(1000000000) : T(1.5e15);
  T remote = epoch / 2 + T(s.range(0, 1000)) * scale, period = T(s.range(100, 10000)) * scale;
  const bool periodic = s.flip();
  int n = 0;
  do {
    remote += T(s.chance(1, 20) ? -s.range(0, 5) : s.range(1, 100)) * scale;
    const T local = remote * 2 + T(1000000 + s.range(0, 300)) * scale;
    PBT_NOTE(s, remote << "," << local);
    if (periodic) outcome("correctTimestampPeriodic", [&] { return double(c.correctTimestamp(remote, local, period)); }, [&] { return bp::object(o.attr("correctTimestampPeriodic")(remote, local, period)); });
    else outcome("correctTimestamp", [&] { return double(c.correctTimestamp(remote, local)); }, [&] { return bp::object(o.attr("correctTimestamp")(remote, local)); });
    const T q = remote + T(s.range(-50, 50)) * scale;
    outcome("getLocalTime", [&] { return double(c.getLocalTime(q)); }, [&] { return bp::object(o.attr("getLocalTime")(q)); });
    outcome("convexHullSize", [&] { return double(c.convexHullSize()); }, [&] { return bp::object(o.attr("convexHullSize")()); });
    outcome("getSlope", [&] { return double(c.getSlope()); }, [&] { return bp::object(o.attr("getSlope")()); });
    outcome("getOffset", [&] { return double(c.getOffset()); }, [&] { return bp::object(o.attr("getOffset")()); });
    ++n;
  } while (s.more(10) && n < 60);
  if (n >= 4) s.nontrivial();
  s.label(name);
}
}  // namespace
PBT(timestamp_correctors, 20000, 80000) {
  if (s.flip()) corrector<boost::int64_t>(s, "LongTimestampCorrector", true);
  else corrector<double>(s, "DoubleTimestampCorrector", false);
}

PBT(timing_reports, 600, 8000) {
  using namespace sm::timing;
  static int serial = 0;
  if (++serial > 40) s.discard();  // the table of timers only grows
  const size_t n = s.size(1, 4);
  for (size_t i = 0; i < n; ++i) {
    Timer t("t" + std::to_string(s.below(6)), true);
    t.start();
    t.stop();
  }
  const SortType types[] = {SORT_BY_TOTAL, SORT_BY_MEAN, SORT_BY_STD, SORT_BY_MIN, SORT_BY_MAX, SORT_BY_NUM_SAMPLES};
  const char* const names[] = {"SORT_BY_TOTAL", "SORT_BY_MEAN", "SORT_BY_STD", "SORT_BY_MIN", "SORT_BY_MAX", "SORT_BY_NUM_SAMPLES"};
  const int k = int(s.below(7));
  s.nontrivial();
  std::ostringstream want, got;
  if (k == 6) Timing::print(want);
  else Timing::print(want, types[k]);
  std::streambuf* old = std::cout.rdbuf(got.rdbuf());
  try {
    if (k == 6) pyembed::module().attr("printTiming")();
    else pyembed::module().attr("printTimingSorted")(bp::object(pyembed::module().attr("TimingSortType").attr(names[k])));
  } catch (const bp::error_already_set&) {
    std::cout.rdbuf(old);
    PBT_FAIL("Python raised " << pyembed::pending());
  }
  std::cout.rdbuf(old);
  PBT_EQ(got.str(), want.str(), "the report");
}

/// nsecNow is the present time
PBT(now, 200, 2000) {
  const boost::int64_t a = sm::timing::nsecNow();
  const boost::int64_t b = pyembed::as<boost::int64_t>(pyembed::py([&] { return bp::object(pyembed::module().attr("nsecNow")()); }), "nsecNow");
  const boost::int64_t c = sm::timing::nsecNow();
  PBT_CHECK(a <= b && b <= c, a << " " << b << " " << c);
  (void)s.below(2);
}
