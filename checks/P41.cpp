// P41: threads that share no object, or share only objects they do not change, do not disturb each other.
// Built with ThreadSanitizer: a case fails when a result differs from the one obtained alone, or on a data race.
#include <sys/wait.h>
#include <unistd.h>

#include <condition_variable>
#include <fstream>
#include <iterator>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include <sm/BoostPropertyTree.hpp>
#include <sm/Id.hpp>
#include <sm/MatrixArchive.hpp>
#include <sm/boost/JobQueue.hpp>
#include <sm/boost/ptime.hpp>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/hash_id.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/three_point_methods.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/logging/Formatter.hpp>
#include <sm/logging/Levels.hpp>
#include <sm/logging/StdOutLogger.hpp>
#include <sm/logging.hpp>
#include <sm/maths.hpp>
#include <sm/numerical_comparisons.hpp>
#include <sm/round.hpp>
#include <sm/string_routines.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/Timer.hpp>
#include <sm/timing/TimestampCorrector.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>

#include "pbt.hpp"
#include "ser.hpp"

PBT_PROPERTY("P41", "a case is non-trivial when at least two threads ran at the same time and one kind of operation was run by at least two of them")


namespace sk = sm::kinematics;
namespace vs = sm::value_store;
namespace {
struct Rng {
  uint64_t x;
  uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  size_t below(size_t n) { return size_t(next() % n); }
  double real(double m) { return (double(next() >> 11) * 1.1102230246251565e-16 * 2 - 1) * m; }
  Eigen::Vector3d v3(double m) { Eigen::Vector3d v; for (int i = 0; i < 3; ++i) v[i] = real(m); return v; }
  Eigen::Vector4d q() { Eigen::Vector4d v; for (int i = 0; i < 4; ++i) v[i] = real(1) + 0.01; return v / v.norm(); }
  std::string word() { std::string w; for (size_t n = 1 + below(9); n--;) w += char('a' + below(26)); return w; }
  template <int N> Eigen::Matrix<double, N, N> cov() { Eigen::Matrix<double, N, N> A; for (int i = 0; i < N * N; ++i) A.data()[i] = real(1); return A * A.transpose(); }
};
/// everything an operation produced, as text and numbers
struct Out {
  uint64_t h = 1469598103934665603ull;
  void raw(const void* p, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= static_cast<const unsigned char*>(p)[i]; h *= 1099511628211ull; } }
  Out& operator<<(double d) { raw(&d, sizeof d); return *this; }
  Out& operator<<(float d) { raw(&d, sizeof d); return *this; }
  Out& operator<<(int64_t d) { raw(&d, sizeof d); return *this; }
  Out& operator<<(int d) { return *this << int64_t(d); }
  Out& operator<<(size_t d) { return *this << int64_t(d); }
  Out& operator<<(const std::string& s) { *this << s.size(); raw(s.data(), s.size()); return *this; }
  template <class D> Out& operator<<(const Eigen::MatrixBase<D>& m_) { const auto m = m_.eval(); for (Eigen::Index j = 0; j < m.cols(); ++j) for (Eigen::Index i = 0; i < m.rows(); ++i) *this << m(i, j); return *this; }
};
/// what all the threads read
struct Shared {
  sk::Transformation T;
  sk::UncertainTransformation U;
  sk::UncertainHomogeneousPoint P;
  sk::HomogeneousPoint hp;
  sk::EulerAnglesYawPitchRoll ypr;
  sk::RotationVector rv;
  sm::MatrixArchive archive;
  sm::BoostPropertyTree tree;
  vs::ValueStoreRef store;
  sm::timing::TimestampCorrector<double> corrector;
  std::string file;
  Shared() : T(Eigen::Vector4d(0.5, -0.5, 0.5, 0.5), Eigen::Vector3d(1, -2, 3)), U(T, 0.5, 0.25), P(Eigen::Vector3d(1, 2, 3), Eigen::Matrix3d::Identity()), hp(Eigen::Vector4d(1, 2, 3, 2)) {
    archive.setMatrix("M", Eigen::Matrix3d::Identity());
    archive.setScalar("s", 4.5);
    archive.setString("text", "hello");
    for (int i = 0; i < 6; ++i) { tree.setDouble("group/d" + std::to_string(i), i * 0.5); tree.setInt("group/i" + std::to_string(i), i); tree.setBool("b" + std::to_string(i), i & 1); }
    for (const char* k : {"x", "y", "z", "w"}) tree.setDouble(std::string("T/q_a_b/") + k, 0.5);
    for (const char* k : {"x", "y", "z"}) tree.setDouble(std::string("T/t_a_b_a/") + k, 2.5);
    store = vs::ValueStoreRef::fromString("a=1,b{c=2.5,d=text},e=true");
    for (int i = 0; i < 20; ++i) corrector.correctTimestamp(i, i * 1.001 + (i % 3) * 0.01);
    file = pbt::scratch() + "/shared.ama";
    archive.save(file);
    tree.saveXml(pbt::scratch() + "/shared.xml");
  }
};
const char* const kKinds[] = {"rotation parameters", "quaternions (double)", "quaternions (float)", "rotations", "transformations", "Transformation", "UncertainTransformation", "points", "uncertain vectors",
                              "point alignment", "matrix archive", "property tree", "property tree files", "value stores", "strings", "log formats", "levels", "times", "timestamp corrector",
                              "numerical derivative", "matrix root", "identifiers", "random identifiers", "serialisation", "serialisation files", "exceptions", "comparisons", "timers", "shared transformation", "shared uncertain transformation",
                              "shared points", "shared archive", "shared tree", "shared store", "shared corrector", "shared files"};
const int kCount = int(sizeof kKinds / sizeof *kKinds);

struct Ids { std::mutex m; std::vector<std::string> v; };
std::string slurp(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
template <class K> void params(Out& o, const K& k, Rng& r) {
  const Eigen::Vector3d p = r.v3(1.2), pd = r.v3(2);
  Eigen::Matrix3d S;
  const Eigen::Matrix3d C = k.parametersToRotationMatrix(p, &S);
  Eigen::Matrix<double, 3, 6> J;
  o << C << S << k.rotationMatrixToParameters(C) << k.parametersToSMatrix(p) << k.angularVelocityAndJacobian(p, pd, &J) << J;
}
template <class S> void algebra(Out& o, Rng& r) {
  typedef Eigen::Matrix<S, 4, 1> Q;
  typedef Eigen::Matrix<S, 3, 1> V;
  const Q q = r.q().cast<S>();
  const V v = r.v3(r.below(2) ? 1 : 1e-5).cast<S>();
  o << sk::quat2AxisAngle<S>(q) << sk::quatExpJacobian<S>(v) << sk::quatLogJacobian2<S>(q) << sk::quatV<S>() << sk::logDiffMat<S>(v) << sk::expDiffMat<S>(v) << sk::crossMx<S>(v[0], v[1], v[2]);
}
template <class A, class B> void both(Out& o, const A& a, B& b, ser::Format f) {
  const std::string d = ser::write(f, a, 7);
  o << d << ser::read(f, d, b) << ser::write(f, b, 7);
}

/// one operation; its result depends on kind, seed and the shared constants only
Out perform(int kind, uint64_t seed, const Shared& sh, Ids& ids, const std::string& file) {
  Out o;
  Rng r{seed};
  switch (kind) {
    case 0:
      switch (r.below(5)) {
        case 0: params(o, sk::EulerAnglesYawPitchRoll(), r); break;
        case 1: params(o, sk::EulerAnglesZYX(), r); break;
        case 2: params(o, sk::EulerAnglesZXY(), r); break;
        case 3: params(o, sk::EulerRodriguez(), r); break;
        default: params(o, sk::RotationVector(), r);
      }
      break;
    case 1: {
      algebra<double>(o, r);
      const Eigen::Vector4d q = r.q(), p = r.q();
      const Eigen::Vector3d v = r.v3(2);
      Eigen::Vector4d i = q;
      sk::invertQuat(i);
      o << sk::quat2r(q) << sk::r2quat(sk::quat2r(q)) << sk::axisAngle2quat(v) << sk::quatPlus(q) << sk::qplus(q, p) << sk::quatOPlus(q) << sk::qoplus(q, p) << sk::quatInv(q) << sk::quatRotate(q, v) << sk::quatIdentity() << i
        << sk::qeps(q) << sk::qeta(q) << sk::quatJacobian(q) << sk::updateQuat(q, v) << sk::quatS(q) << sk::quatInvS(q) << sk::qslerp(q, p, 0.3) << sk::quatLogJacobian(q) << sk::lerp(q, p, 0.7);
      break;
    }
    case 2: algebra<float>(o, r); break;
    case 3: {
      const Eigen::Vector3d v = r.v3(1.4);
      o << sk::Rx(v[0]) << sk::Ry(v[1]) << sk::Rz(v[2]) << sk::rph2R(v) << sk::R2rph(sk::rph2R(v)) << sk::Cx(v[0]) << sk::Cy(v[0]) << sk::Cz(v[0]) << sk::C2rph(sk::rph2C(v)) << sk::axisAngle2R(v) << sk::R2AxisAngle(sk::axisAngle2R(v))
        << sk::angleMod(r.real(50)) << sk::deg2rad(v[0]) << sk::rad2deg(v[1]);
      break;
    }
    case 4: {
      Eigen::Matrix<double, 6, 1> d;
      d << r.v3(3), r.v3(1.4);
      const Eigen::Matrix4d T = sk::toTEuler(d);
      const Eigen::Vector3d p = r.v3(10);
      o << T << sk::fromTEuler(T) << sk::boxPlus(d) << sk::boxMinus(sk::toHomogeneous(p)) << sk::inverseTransform(T) << sk::boxTimes(T) << sk::transform2C(T) << sk::transform2rho(T) << sk::transform2rhoHomogeneous(T) << sk::rt2Transform(sk::transform2C(T), p);
      Eigen::Matrix<double, 3, 4> J;
      o << sk::fromHomogeneous(sk::toHomogeneous(p), &J) << J;
      break;
    }
    case 5: {
      sk::Transformation A(r.q(), r.v3(5)), B(r.q(), r.v3(5));
      Eigen::Matrix<double, 6, 1> d;
      d << r.v3(1), r.v3(1);
      const sk::Transformation C = A * B.inverse();
      A.oplus(d);
      o << A.T() << C.T3x4() << C.C() << C.q() << C.t() << A.S() << A * r.v3(2) << A.rotate(r.v3(2)) << (A * sk::HomogeneousPoint(r.v3(3))).toHomogeneous() << int(A.isBinaryEqual(C));
      break;
    }
    case 6: {
      sk::UncertainTransformation A(r.q(), r.v3(5), r.cov<6>()), B(r.q(), r.v3(5), r.cov<6>());
      const sk::UncertainTransformation C = A * B.inverse();
      A.setUOplus(r.cov<6>());
      const sk::UncertainHomogeneousPoint p = C * sk::UncertainHomogeneousPoint(r.v3(3), r.cov<3>());
      o << C.T() << C.U() << C.UOplus() << A.U() << p.toHomogeneous() << p.U4() << (A * sk::Transformation(r.q(), r.v3(1))).U() << int(A.isBinaryEqual(A));
      break;
    }
    case 7: {
      sk::UncertainHomogeneousPoint a(r.v3(3), r.cov<3>()), b(r.v3(3), r.cov<3>());
      sk::HomogeneousPoint h(r.v3(2)), g = h - sk::HomogeneousPoint(r.v3(1));
      h.oplus(r.v3(0.5));
      sk::HomogeneousPoint::euclidean_jacobian_t J;
      o << (a + b).U4() << (a - b).toHomogeneous() << (a + h).U3() << g.toHomogeneous() << h.toEuclideanAndJacobian(J) << J;
      b.normalize();
      o << b.U_av_form() << b.U4() << b.toHomogeneous();
      break;
    }
    case 8: {
      sk::UncertainVector<3> a(r.v3(3), r.cov<3>()), b(r.v3(3), r.cov<3>());
      o << (a + b).E() << (a - b).v() << (a * 2.0).E() << a.normalized().E() << a.dot(b).E() << a.dot(b).v() << (sh.T.rotate(a)).covariance();
      break;
    }
    case 9: {
      Eigen::MatrixXd a(3, 5), b;
      for (int i = 0; i < 15; ++i) a.data()[i] = r.real(4);
      const Eigen::Matrix3d C = sk::axisAngle2R(r.v3(1));
      b = C * a;
      o << sk::threePointSvd(a, b);
      for (int i = 0; i < 5; ++i) a.col(i).normalize();
      b = C * a;
      o << sk::qMethod(a, b);
      break;
    }
    case 10: {
      sm::MatrixArchive a, b, c;
      for (size_t n = r.below(4); n--;) { a.setMatrix("m" + std::to_string(r.below(5)), Eigen::MatrixXd(r.cov<4>())); a.setString("s" + std::to_string(r.below(5)), r.word()); a.setScalar("d", r.real(5)); }
      a.save(file);
      if (r.below(2)) { sm::MatrixArchive d; d.setString("more", r.word()); d.append(file); }
      b.load(file);
      o << slurp(file) << b.size();
      for (const auto& e : b) o << e.first << e.second;
      for (const auto& e : b.getStrings()) o << e.first << e.second;
      std::set<std::string> names{"d"};
      c.load(boost::filesystem::path(file), names);
      o << c.size() << int(c.isSystemLittleEndian());
      try { a.getMatrix("no_such"); } catch (const sm::MatrixArchiveException& e) { o << std::string(e.what()); }
      break;
    }
    case 11: {
      sm::BoostPropertyTree t;
      t.loadString("a=1,b{c=2.5},d=text,l=true");
      for (size_t n = r.below(6); n--;) { t.setDouble("g/" + r.word(), r.real(100)); t.setInt("g/" + r.word(), int(r.below(1000))); t.setString(r.word(), r.word()); }
      o << t.getInt("a") << t.getDouble("b/c") << t.getString("d") << int(t.getBool("l")) << t.getDouble("new", r.real(3)) << t.getInt("n2", 5);
      for (const auto& k : t.getChildren()) o << k.key << k.pt.getString("");
      for (const auto& k : sm::PropertyTree(t, "g").getChildren()) o << k.key << k.pt.getString("");
      try { t.getInt("d"); } catch (const std::exception& e) { o << std::string(e.what()); }
      try { t.getInt("nothing"); } catch (const std::exception& e) { o << std::string(e.what()); }
      break;
    }
    case 12: {
      sm::BoostPropertyTree t, u;
      for (size_t n = 1 + r.below(4); n--;) { t.setDouble("g/" + r.word(), r.real(100)); t.setString("h/" + r.word(), r.word()); }
      const char* e[] = {".xml", ".json", ".ini", ".info"};
      const std::string f = file + e[r.below(4)];
      t.save(f);
      u.load(f);
      o << slurp(f);
      for (const auto& k : sm::PropertyTree(u, "g").getChildren()) o << k.key << k.pt.getString("");
      const std::string w = r.word();
      u.loadXmlFromString("<a><b>" + w + "</b><c>1.5</c></a>");
      o << u.getString("a/b") << u.getDouble("a/c");
      try { u.loadXmlFromString("<a><b>" + w); } catch (const std::exception& x) { o << std::string(x.what()); }
      try { u.load(file + ".none.xml"); } catch (const std::exception&) { o << 1; }
      std::remove(f.c_str());
      break;
    }
    case 13: {
      vs::ValueStoreRef a = vs::ValueStoreRef::fromString("x=" + std::to_string(r.below(100)) + ",y{z=" + r.word() + "}");
      vs::ValueStoreRef b = vs::ValueStoreRef::fromString("x=5,w=" + r.word());
      std::shared_ptr<vs::LayeredValueStore> l(new vs::LayeredValueStore());
      l->add(a);
      l->add(b);
      vs::ValueStoreRef ref{vs::ValueStore::SharedPtr(l)};
      o << int(ref.getInt("x")) << std::string(ref.getString("w")) << std::string(ref.getString("y/z")) << double(ref.getDouble("nothing", 2.5)) << int(ref.hasKey("y/z")) << ref.getChildren().size();
      for (const auto& c : ref.getChildren()) o << c.getKey();
      o << std::string(a.getChild("y").getString("z")) << a.asPropertyTree().getString("y/z");
      o << std::string(ref.get<std::string>(std::vector<std::string>{"q", "w"}));
      std::string log;
      vs::ValueStoreRef verbose{vs::ValueStore::SharedPtr(new vs::VerboseValueStore(a.getValueStoreSharedPtr(), [&log](const std::string& m) { log += m; }))};
      o << int(verbose.getInt("x")) << int(verbose.hasKey("q")) << log;
      vs::ValueStoreRef prefixed{vs::ValueStore::SharedPtr(new vs::PrefixedValueStore(a, vs::PrefixedValueStore::PrefixMode::ADD, "y"))};
      o << std::string(prefixed.getString("z"));
      try { int(ref.getInt("nothing")); } catch (const std::exception& e) { o << std::string(e.what()); }
      break;
    }
    case 14: {
      const std::string w = r.word() + "/" + r.word() + "_a_a";
      o << sm::replace(w, 'a', 'b', 1) << sm::replace_reverse(w, 'a', 'c', 1) << sm::leading_pad(w, 30, '.') << sm::substituteEnvVars("x$(PATH)y" + w) << sm::ensureTrailingBackslash(w) << sm::padded(r.real(100), 12, 4)
        << sm::padded(int(r.below(1000)), 8) << sm::ts(r.below(99)) << sm::scientific(r.real(1e6), 14, 5) << sm::fixedFloat(r.real(100), 4) << sm::s_tuple(w, r.below(9), 2.5);
      std::vector<int> a;
      for (size_t n = r.below(5); n--;) a.push_back(int(r.below(100)));
      o << sm::arrToString(a.begin(), a.end()) << sm::paddedToString(8, 3, a.begin(), a.end(), ";");
      break;
    }
    case 15: {
      sm::logging::Formatter f, g;
      f.doColor_ = r.below(2);
      f.init(r.below(2) ? "${stream}|${level}|${file}:${line}|${function}|${message}|${time}|$$" : "[${level}] ${message} ${node} ${thread_no}");
      g = f;
      const std::string m = r.word();
      sm::logging::LoggingEvent e("s.a", sm::logging::Level(1 + r.below(10)), "f.cpp", int(r.below(100)), "fn", m.c_str(), "12.5");
      std::ostringstream x;
      f.print(e, x);
      g.print(e, x);
      o << x.str();
      break;
    }
    case 16: {
      const char* n[] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};
      for (const char* t : n) o << int(sm::logging::levels::fromString(t));
      try { o << int(sm::logging::levels::fromString(r.word())); } catch (const std::exception&) { o << -1; }
      break;
    }
    case 17: {
      const sm::timing::NsecTime t = sm::timing::NsecTime(r.next() >> 4);
      o << sm::timing::chronoToNsec(sm::timing::nsecToChrono(t)) << sm::timing::nsecToSec(t) << sm::timing::secToNsec(r.real(1e6)) << int(sm::timing::isValid(t)) << int(sm::timing::nsecNow() > 1000000000000000000ll);
      const boost::posix_time::ptime p(boost::gregorian::date(2000, 1, 2), boost::posix_time::microseconds(int64_t(r.below(1000000000))));
      const timeval v = sm::ptimeToTimeval(p);
      o << int64_t(v.tv_sec) << int64_t(v.tv_usec) << sm::timing::Timing::secondsToTimeString(r.real(1) * 1e5 + 2e5);
      break;
    }
    case 18: {
      sm::timing::TimestampCorrector<double> c;
      double t = 0;
      for (size_t n = 2 + r.below(30); n--;) { t += 0.1 + (r.real(0.05) + 0.05); o << c.correctTimestamp(t, t * 1.0001 + r.real(0.01) + 0.01, 1.0); }
      o << c.getSlope() << c.getOffset() << c.getLocalTime(t + 1) << c.convexHullSize();
      break;
    }
    case 19: {
      const Eigen::Vector3d a = r.v3(1);
      std::function<Eigen::Vector3d(const Eigen::Vector3d&)> f = [a](const Eigen::Vector3d& x) { return Eigen::Vector3d(a.cross(x) * x.norm()); };
      o << sm::eigen::numericalDiff<Eigen::Vector3d, Eigen::Vector3d>(f, r.v3(2));
      break;
    }
    case 20: {
      const Eigen::Matrix3d A = r.cov<3>() + Eigen::Matrix3d::Identity();
      Eigen::MatrixXd S;
      sm::eigen::computeMatrixSqrt(A, S);
      o << S;
      break;
    }
    case 21: {
      sm::HashId a, b;
      const std::string hex = [&] { std::string h; for (int i = 0; i < 32; ++i) h += "0123456789abcdef"[r.below(16)]; return h; }();
      o << int(a.fromHexString(hex)) << a.hexString() << a.hashToSizeT() << a.hashToSizeTFast() << int(a == b) << int(b.isValid()) << int(b.fromHexString(r.word()));
      break;
    }
    case 22: {
      std::vector<std::string> mine;
      for (size_t n = 1 + r.below(20); n--;) { sm::HashId a; a.randomize(); mine.push_back(a.hexString()); mine.push_back(sm::HashId::random().hexString()); }
      std::lock_guard<std::mutex> l(ids.m);
      ids.v.insert(ids.v.end(), mine.begin(), mine.end());
      break;
    }
    case 23: {
      const ser::Format f = ser::Format(r.below(3));
      Eigen::MatrixXd M(r.cov<4>()), M2;
      sk::Transformation T(r.q(), r.v3(3)), T2;
      sk::UncertainTransformation U(T, r.cov<6>()), U2;
      sk::UncertainHomogeneousPoint P(r.v3(3), r.cov<3>()), P2;
      sk::UncertainVector<3> V(r.v3(3), r.cov<3>()), V2;
      switch (r.below(5)) {
        case 0: both(o, M, M2, f); break;
        case 1: both(o, T, T2, f); break;
        case 2: both(o, U, U2, f); break;
        case 3: both(o, P, P2, f); break;
        default: both(o, V, V2, f);
      }
      break;
    }
    case 24: {
      Eigen::Matrix3d A = r.cov<3>(), B;
      sk::Transformation T(r.q(), r.v3(3)), T2;
      sm::boost_serialization::save(A, file + ".b");
      sm::boost_serialization::load(B, file + ".b");
      o << B << slurp(file + ".b");
      sm::boost_serialization::save_xml(T, file + ".b");
      sm::boost_serialization::load_xml(T2, file + ".b");
      o << T2.T() << slurp(file + ".b");
      std::remove((file + ".b").c_str());
      break;
    }
    case 25: {
      const int a = int(r.below(10)), b = int(r.below(10));
      try { SM_ASSERT_LT(std::runtime_error, a, b, "message " << a << r.word()); o << 1; } catch (const std::runtime_error& e) { o << std::string(e.what()); }
      try { SM_ASSERT_NEAR(std::invalid_argument, a * 1.0, b * 1.0, 0.5, "near " << r.word()); o << 1; } catch (const std::invalid_argument& e) { o << std::string(e.what()); }
      try { SM_THROW(sm::MatrixArchiveException, "thrown " << r.word()); } catch (const std::exception& e) { o << std::string(e.what()); }
      break;
    }
    case 26: {
      const double a = r.real(1), b = a * (1 + r.real(1e-15));
      o << sm::round(a * 100) << sm::rint(b * 1000);
      o << int(sm::approximatelyEqual(a, b)) << int(sm::definitelyGreaterThan(a, b)) << int(sm::definitelyLessThan(a, b)) << sm::solveQuadratic(1.0, r.real(1) + 4, 1.0).first << sm::sgn(a);
      break;
    }
    case 27: {
      const std::string tag = "t" + file.substr(file.find_last_of('/') + 1) + "." + std::to_string(seed % 1000003);
      const sm::timing::SortType order = sm::timing::SortType(r.below(6));
      const size_t h = sm::timing::Timing::getHandle(tag), before = sm::timing::Timing::getNumSamples(h), n = r.below(5);
      for (size_t i = 0; i < n; ++i) { sm::timing::Timer t(tag); t.stop(); }
      o << sm::timing::Timing::getNumSamples(tag) - before << sm::timing::Timing::getTag(h) << int(sm::timing::Timing::getTotalSeconds(h) >= 0) << int(sm::timing::Timing::getMaxSeconds(tag) >= sm::timing::Timing::getMinSeconds(tag));
      o << int(sm::timing::Timing::print(order).find(tag) != std::string::npos);
      break;
    }
    case 28: o << sh.T.T() << (sh.T * sh.T).T() << sh.T.inverse().T() << sh.T * r.v3(2) << sh.T.S() << (sh.T * sh.U).U() << (sh.T * sh.P).U4() << (sh.T * sh.hp).toHomogeneous() << int(sh.T.isBinaryEqual(sh.T)); break;
    case 29: o << (sh.U * sh.U).U() << sh.U.inverse().U() << sh.U.UOplus() << (sh.U * sh.T).T() << (sh.U * sh.P).U4() << (sh.U * sh.hp).U4() << sh.U.toTransformation().T() << int(sh.U.isBinaryEqual(sh.U)); break;
    case 30: {
      sk::HomogeneousPoint::euclidean_jacobian_t J;
      o << sh.P.U4() << sh.P.U3() << sh.P.toEuclidean() << (sh.P + sh.hp).U4() << (sh.hp - sh.hp).toHomogeneous() << sh.hp.toEuclideanAndJacobian(J) << J << int(sh.hp.atInfinity());
      params(o, sh.ypr, r);
      params(o, sh.rv, r);
      break;
    }
    case 31: {
      std::ostringstream s;
      sh.archive.save(s, std::set<std::string>());
      o << sh.archive.size() << sh.archive.getMatrix("M") << sh.archive.getScalar("s") << sh.archive.getString("text") << s.str() << int(sh.archive.find("M") != sh.archive.end());
      sh.archive.save(file);
      o << slurp(file);
      try { sh.archive.getMatrix("no_such"); } catch (const sm::MatrixArchiveException& e) { o << std::string(e.what()); }
      break;
    }
    case 32: {
      const sm::ConstPropertyTree& t = sh.tree;
      const std::string k = std::to_string(r.below(6));
      o << t.getDouble("group/d" + k) << t.getInt("group/i" + k) << int(t.getBool("b" + k)) << t.getDouble("nothing", 2.5) << t.getString("no", "x") << int(t.doesKeyExist("group/d" + k)) << t.getChildren().size();
      for (const auto& c : sm::ConstPropertyTree(t, "group").getChildren()) o << c.key << c.pt.getString("");
      o << t.getChild("group").getDouble("d" + k) << sk::transformationFromPropertyTree(sm::ConstPropertyTree(t, "T")).T();
      sh.tree.saveXml(file + ".xml");
      o << slurp(file + ".xml");
      std::remove((file + ".xml").c_str());
      try { t.getInt("nothing"); } catch (const std::exception& e) { o << std::string(e.what()); }
      break;
    }
    case 33: {
      const vs::ValueStoreRef& s = sh.store;
      o << int(s.getInt("a")) << double(s.getDouble("b/c")) << std::string(s.getString("b/d")) << int(bool(s.getBool("e"))) << int(s.hasKey("b/c")) << int(s.hasKey("x")) << s.getChildren().size() << std::string(s.getChild("b").getString("d")) << int(s.getInt("none", 4));
      for (const auto& c : s.getChildren()) o << c.getKey();
      vs::ValueStoreRef copy(s);
      o << double(copy.getDouble("b/c")) << copy.asPropertyTree().getDouble("b/c");
      break;
    }
    case 34: {
      sm::timing::TimestampCorrector<double> c(sh.corrector);
      o << sh.corrector.getLocalTime(r.real(30)) << sh.corrector.getSlope() << sh.corrector.getOffset() << c.correctTimestamp(40, 41 + r.real(0.5)) << c.convexHullSize();
      break;
    }
    case 35: {
      sm::MatrixArchive a;
      a.load(sh.file);
      sm::BoostPropertyTree t;
      t.loadXml(pbt::scratch() + "/shared.xml");
      o << a.getMatrix("M") << a.getString("text") << t.getInt("group/i3");
      break;
    }
  }
  return o;
}
Out run(int kind, uint64_t seed, const Shared& sh, Ids& ids, const std::string& file) {
  try { return perform(kind, seed, sh, ids, file); } catch (const std::exception& e) { Out o; o << std::string("exception"); o << std::string(e.what()); return o; }
}
/// lets all the threads go at once
struct Gate {
  std::mutex m;
  std::condition_variable c;
  unsigned waiting = 0, all;
  explicit Gate(unsigned n) : all(n) {}
  void arrive() { std::unique_lock<std::mutex> l(m); if (++waiting == all) c.notify_all(); else while (waiting < all) c.wait(l); }
};
struct Job { int kind; uint64_t seed; uint64_t got; };
std::vector<std::vector<Job>> generate(pbt::Source& s) {
  std::vector<std::vector<Job>> t(2 + s.below(3));
  std::vector<int> kinds;
  for (size_t i = 0, n = 1 + s.below(4); i < n; ++i) kinds.push_back(int(s.below(kCount)));
  std::map<int, std::set<size_t>> who;
  for (size_t i = 0; i < t.size(); ++i) {
    const size_t n = 1 + s.below(4);
    for (size_t k = 0; k < n; ++k) { const Job j{s.pick(kinds), s.below(1000000), 0}; who[j.kind].insert(i); t[i].push_back(j); s.label(kKinds[j.kind]); PBT_NOTE(s, "thread " << i << ": " << kKinds[j.kind] << " #" << j.seed); }
  }
  for (const auto& w : who) if (w.second.size() > 1) s.nontrivial();
  return t;
}
std::string fileOf(size_t i, size_t k) { return pbt::scratch() + "/f" + std::to_string(i) + "_" + std::to_string(k); }
void together(std::vector<std::vector<Job>>& t, const Shared& sh, Ids& ids) {
  Gate gate(unsigned(t.size()));
  std::vector<std::thread> th;
  for (size_t i = 0; i < t.size(); ++i)
    th.emplace_back([&, i] {
      gate.arrive();
      for (size_t k = 0; k < t[i].size(); ++k) t[i][k].got = run(t[i][k].kind, t[i][k].seed, sh, ids, fileOf(i, k)).h;
    });
  for (auto& x : th) x.join();
}
std::string compare(std::vector<std::vector<Job>>& t, const Shared& sh, Ids& ids) {
  for (size_t i = 0; i < t.size(); ++i)
    for (size_t k = 0; k < t[i].size(); ++k) {
      const uint64_t alone = run(t[i][k].kind, t[i][k].seed, sh, ids, fileOf(i, k)).h;
      std::remove(fileOf(i, k).c_str());
      if (alone != t[i][k].got) return std::string(kKinds[t[i][k].kind]) + " #" + std::to_string(t[i][k].seed) + " gave another result with other threads running than alone";
    }
  if (std::set<std::string>(ids.v.begin(), ids.v.end()).size() != ids.v.size()) return "two random identifiers are the same";
  return "";
}
std::string inAProcess(const std::function<std::string()>& f) {
  const std::string err = pbt::scratch() + "/race";
  const pid_t pid = fork();
  PBT_CHECK(pid >= 0, "fork");
  if (pid == 0) {
    if (!std::freopen(err.c_str(), "w", stderr)) _exit(105);
    std::string e;
    try { e = f(); } catch (const std::exception& x) { e = std::string("exception: ") + x.what(); }
    if (!e.empty()) { std::fprintf(stderr, "%s\n", e.c_str()); std::fflush(stderr); }
    _exit(e.empty() ? 0 : 101);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "" : "(status " + std::to_string(st) + ") " + slurp(err).substr(0, 1500);
}
}  // namespace

PBT(threads, 40000, 300000, pbt::Options{120, true}) {
  static const Shared sh;
  auto t = generate(s);
  Ids ids;
  together(t, sh, ids);
  const std::string e = compare(t, sh, ids);
  PBT_CHECK(e.empty(), e);
}
// the same in a process of its own, so that what the library sets up at its first use is set up by several threads
PBT(first_use, 8000, 60000, pbt::Options{120, true}) {
  auto t = generate(s);
  const bool late = s.flip();  // the shared objects come into being before the threads in any case
  const std::string e = inAProcess([&] {
    const Shared sh;
    Ids ids;
    if (late) { Rng r{1}; Out o; algebra<double>(o, r); }
    together(t, sh, ids);
    return compare(t, sh, ids);
  });
  PBT_CHECK(e.empty(), "the threads disturbed each other " << e);
}

namespace {
/// its members are not protected: the library calls one logger at a time
class Sink : public sm::logging::Logger {
 public:
  uint64_t messages = 0, bytes = 0;

 protected:
  Time currentTimeImplementation() const override { return std::chrono::system_clock::now(); }
  void logImplementation(const sm::logging::LoggingEvent& e) override {
    ++messages;
    bytes += std::string(e.message).size() + std::string(e.streamName).size() + e.timestring.size();
  }
};
void say(int what, uint64_t seed) {
  const std::string w = Rng{seed}.word();
  switch (what) {
    case 0: SM_INFO_STREAM("text " << w); break;
    case 1: SM_ERROR("text %s", w.c_str()); break;
    case 2: SM_WARN_STREAM_NAMED("named", "text " << w); break;
    case 3: SM_DEBUG_STREAM("text " << w); break;
    case 4: SM_INFO_STREAM_ONCE("text " << w); break;
    case 5: SM_INFO_STREAM_THROTTLE(0.0001, "text " << w); break;
    case 6: SM_LOG_STREAM(sm::logging::Level(6 + seed % 5), "sm", "text " << w); break;
    case 7: sm::logging::levels::fromString(w); break;
    case 8: sm::logging::setLevel(sm::logging::Level(5 + seed % 4)); break;
    case 9: if (sm::logging::getLevel() > 10) SM_FATAL("level"); break;
    case 10: sm::logging::enableNamedStream("named"); break;
    case 11: sm::logging::disableNamedStream("named"); break;
    case 12: sm::logging::isNamedStreamEnabled("named"); break;
    case 13: sm::logging::setLogger(boost::shared_ptr<sm::logging::Logger>(new Sink)); break;
    case 14: sm::logging::getLogger()->currentTimeSecondsUtc(); break;
    default: SM_ERROR_STREAM_COND(seed & 1, "text " << w);
  }
}
}  // namespace
// log statements, and the configuration of the logging, from several threads; in a process of its own, so that statements are reached for the first time
PBT(logging, 8000, 60000, pbt::Options{120, true}) {
  std::vector<std::vector<std::pair<int, uint64_t>>> t(2 + s.below(3));
  std::vector<int> kinds;
  for (size_t i = 0, n = 1 + s.below(5); i < n; ++i) kinds.push_back(int(s.below(16)));
  std::map<int, std::set<size_t>> who;
  for (size_t i = 0; i < t.size(); ++i)
    for (size_t k = 0, n = 1 + s.below(6); k < n; ++k) { t[i].push_back(std::make_pair(s.pick(kinds), s.below(1000))); who[t[i].back().first].insert(i); PBT_NOTE(s, "thread " << i << ": " << t[i].back().first << " #" << t[i].back().second); }
  for (const auto& w : who) if (w.second.size() > 1) s.nontrivial();
  const std::string e = inAProcess([&]() -> std::string {
    sm::logging::setLogger(boost::shared_ptr<sm::logging::Logger>(new Sink));
    Gate gate(unsigned(t.size()));
    std::vector<std::thread> th;
    for (size_t i = 0; i < t.size(); ++i) th.emplace_back([&, i] { gate.arrive(); for (const auto& j : t[i]) say(j.first, j.second); });
    for (auto& x : th) x.join();
    return "";
  });
  PBT_CHECK(e.empty(), "threads that log disturb each other " << e);
}
// jobs write to plain memory that is read after the queue was found to be finished
PBT(job_queue, 4000, 40000, pbt::Options{120, true}) {
  const size_t workers = 1 + s.below(4), producers = 1 + s.below(3), jobs = s.size(0, 12), how = s.below(2);
  if (workers + producers > 2 && jobs) s.nontrivial();
  PBT_NOTE(s, workers << " workers " << producers << " producers " << jobs << " jobs " << how);
  const bool late = s.flip();
  const std::string e = inAProcess([&]() -> std::string {
    std::vector<std::vector<int>> done(producers, std::vector<int>(jobs, 0));
    sm::JobQueue q;
    if (!late) q.start(int(workers));
    std::vector<std::thread> th;
    std::vector<std::string> wrong(producers);
    for (size_t p = 0; p < producers; ++p)
      th.emplace_back([&, p] {
        std::vector<boost::unique_future<int>> f(jobs);
        for (size_t k = 0; k < jobs; ++k) {
          int* x = &done[p][k];
          if (how) q.scheduleFuture<int>([x] { *x += 1; return 7; }, f[k]);
          else q.scheduleWork([x] { *x += 1; });
          if (k == 1) q.empty();
        }
        if (how && !late) for (size_t k = 0; k < jobs; ++k) if (f[k].get() != 7 || done[p][k] != 1) wrong[p] = "the result of a job is wrong";
      });
    for (auto& x : th) x.join();
    if (late) q.start(int(workers));
    q.waitForEmptyQueue();
    for (const auto& d : done) for (int x : d) if (x != 1) return "a job was run " + std::to_string(x) + " times";
    for (const auto& w : wrong) if (!w.empty()) return w;
    q.join();
    return "";
  });
  PBT_CHECK(e.empty(), "threads that share a job queue disturb each other " << e);
}
