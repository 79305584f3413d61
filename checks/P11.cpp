// P11: serialisation round trips reproduce values exactly.
#include "ser.hpp"
#include "filelimit.hpp"
#include <boost/make_shared.hpp>
#include <boost/serialization/export.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/serialization_macros.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
PBT_PROPERTY("P11",
             "Matrices of sixteen storage classes (fixed, dynamic and mixed sizes, both storage orders, six scalar types, empty ones), written and read "
             "through binary, text and XML archives, also into other storage classes; every kinematics object, in memory and through the file helpers; "
             "structures of values, pointers and shared pointers for the comparison macros. A case is non-trivial when a matrix is empty or has more than "
             "one entry, or the compared structures differ in at most one member.")
using namespace kin;
using namespace ser;
using namespace sm::kinematics;
namespace bs = sm::boost_serialization;

static Eigen::MatrixXd anyMat(pbt::Source& s, int r, int c, bool finite) {
  Eigen::MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = finite ? (s.flip() ? s.real(1000) : s.signedLog(1e-200, 1e200)) : s.anyDouble();
  return m;
}
// the parts of an object, as one column
static Eigen::VectorXd parts(const HomogeneousPoint& p) { return p.toHomogeneous(); }
static Eigen::VectorXd flat(const Eigen::MatrixXd& m) { return Eigen::Map<const Eigen::VectorXd>(m.data(), m.size()); }
static Eigen::VectorXd parts(const Eigen::MatrixXd& m) { return flat(m); }
static Eigen::VectorXd cat(const Eigen::VectorXd& a, const Eigen::VectorXd& b) { Eigen::VectorXd r(a.size() + b.size()); r << a, b; return r; }
static Eigen::VectorXd parts(const UncertainHomogeneousPoint& p) { return cat(p.toHomogeneous(), flat(p.U4())); }
static Eigen::VectorXd parts(const Transformation& T) { return cat(T.q(), T.t()); }
static Eigen::VectorXd parts(const UncertainTransformation& T) { return cat(cat(T.q(), T.t()), flat(T.U())); }
static Eigen::VectorXd parts(const UncertainScalar& x) { Eigen::VectorXd r(2); r << x.mean(), x.covariance(); return r; }
template <int D> static Eigen::VectorXd parts(const UncertainVector<D>& x) { return cat(x.mean(), flat(x.covariance())); }

template <class T> struct Make;
template <> struct Make<HomogeneousPoint> { static HomogeneousPoint make(pbt::Source& s, bool f) { V4 h = anyMat(s, 4, 1, f); for (int i = 0; i < 4; ++i) if (std::isnan(h[i])) h[i] = 3; if (!(h.norm() > 0)) h[1] = 2; return HomogeneousPoint(h); } };
template <> struct Make<UncertainHomogeneousPoint> { static UncertainHomogeneousPoint make(pbt::Source& s, bool f) { V4 h = anyMat(s, 4, 1, f); for (int i = 0; i < 4; ++i) if (std::isnan(h[i])) h[i] = 3; if (!(h.norm() > 0)) h[1] = 2; return UncertainHomogeneousPoint(h, M4(anyMat(s, 4, 4, f))); } };
template <> struct Make<Transformation> { static Transformation make(pbt::Source& s, bool f) { return Transformation(quat(s), V3(anyMat(s, 3, 1, f))); } };
template <> struct Make<UncertainTransformation> { static UncertainTransformation make(pbt::Source& s, bool f) { UncertainTransformation T(quat(s), V3(anyMat(s, 3, 1, f)), UncertainTransformation::covariance_t(UncertainTransformation::covariance_t::Zero())); T.setU(anyMat(s, 6, 6, f)); return T; } };
template <> struct Make<UncertainScalar> { static UncertainScalar make(pbt::Source& s, bool f) { Eigen::MatrixXd m = anyMat(s, 2, 1, f); return UncertainScalar(m(0, 0), m(1, 0)); } };
template <int D> struct Make<UncertainVector<D> > { static UncertainVector<D> make(pbt::Source& s, bool f) { return UncertainVector<D>(anyMat(s, D, 1, f), anyMat(s, D, D, f)); } };

template <class T> static void compare(Format f, const T& a, const T& b) {
  Eigen::VectorXd x = parts(a), y = parts(b);
  if (f == BINARY) PBT_CHECK(identical(x, y), "bit-identical: wrote " << str(x) << " read " << str(y));
  else PBT_CHECK(printedEqual(x, y), "equal: wrote " << str(x) << " read " << str(y));
}
template <class T> static void object(pbt::Source& s) {
  Format f = Format(s.below(3));
  T a = Make<T>::make(s, f != BINARY), b = Make<T>::make(s, true);
  PBT_NOTE(s, name(f) << " " << str(parts(a)));
  s.nontrivial();
  int t = int(s.below(1000));
  PBT_EQ(read(f, write(f, a, t), b), t, "archive in step");
  compare(f, a, b);
  bool nan = parts(a).hasNaN();
  if (f == BINARY) PBT_CHECK(b.isBinaryEqual(a) == !nan && a.isBinaryEqual(b) == !nan, "reported as equal");
}
PBT(kinematics_objects, 20000, 200000) {
  switch (s.below(8)) {
    case 0: return object<HomogeneousPoint>(s);
    case 1: return object<UncertainHomogeneousPoint>(s);
    case 2: return object<Transformation>(s);
    case 3: return object<UncertainTransformation>(s);
    case 4: return object<UncertainScalar>(s);
    case 5: return object<UncertainVector2>(s);
    case 6: return object<UncertainVector3>(s);
    default: return object<UncertainVector4>(s);
  }
}

static boost::filesystem::path file(pbt::Source& s) { return boost::filesystem::path(pbt::scratch()) / s.pick({"a.bin", "b c.xml", "d.txt"}); }
template <class T> static void viaFile(pbt::Source& s, T a, T b) {
  boost::filesystem::path p = file(s);
  int mode = int(s.below(4));
  PBT_NOTE(s, "mode " << mode);
  s.nontrivial();
  if (s.flip()) { std::ofstream junk(p.string().c_str()); junk << std::string(s.below(20000), 'x'); s.label("overwriting"); }
  Format f = mode == 0 ? BINARY : mode == 1 ? TEXT : XML;
  std::string tag = s.pick({"", "object", "thing", "a-b_c"});
  if (mode == 0) { bs::save(a, p); bs::load(b, p); }
  else if (mode == 1) { bs::save_txt(a, p); bs::load_txt(b, p); }
  else if (mode == 2) { bs::save_xml(a, p); bs::load_xml(b, p); }
  else {
    bs::save_xml(a, tag, p);
    bs::load_xml(b, tag, p);
    std::ifstream i(p.string().c_str());
    std::string text((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    PBT_CHECK(text.find("<" + (tag.empty() ? std::string("object") : tag)) != std::string::npos, "top level tag " << tag);
  }
  compare(f, a, b);
  boost::filesystem::remove(p);
  boost::filesystem::path none = boost::filesystem::path(pbt::scratch()) / "none" / "x";
  PBT_THROWS(bs::load(b, none), std::runtime_error, "missing file");
  PBT_THROWS(bs::load_txt(b, none), std::runtime_error, "missing file");
  PBT_THROWS(bs::load_xml(b, none), std::runtime_error, "missing file");
  PBT_THROWS(bs::save(b, none), std::runtime_error, "missing directory");
  PBT_THROWS(bs::save_txt(b, none), std::runtime_error, "missing directory");
  PBT_THROWS(bs::save_xml(b, none), std::runtime_error, "missing directory");
  PBT_THROWS(bs::load(b, p), std::runtime_error, "removed file");
}
PBT(files, 3000, 30000) {
  switch (s.below(4)) {
    case 0: return viaFile<Eigen::MatrixXd>(s, anyMat(s, int(s.below(5)), int(s.below(5)), true), anyMat(s, 2, 2, true));
    case 1: return viaFile(s, Make<UncertainTransformation>::make(s, true), UncertainTransformation());
    case 2: return viaFile(s, Make<UncertainHomogeneousPoint>::make(s, true), UncertainHomogeneousPoint());
    default: return viaFile(s, Make<UncertainVector3>::make(s, true), UncertainVector3());
  }
}

// the version macros give each class, or each instance of a class template, the version it declares
namespace versions {
struct Base {
  int saved = -1, loaded = -1;
  std::string text;
};
#define VERSIONED(N)                                                                   \
  enum { CLASS_SERIALIZATION_VERSION = N };                                            \
  template <class Ar> void serialize(Ar& ar, const unsigned int v) {                   \
    (Ar::is_saving::value ? saved : loaded) = int(v);                                   \
    ar & BOOST_SERIALIZATION_NVP(text);                                                \
  }
struct Plain : Base { VERSIONED(5) };
template <class A> struct T1 : Base { VERSIONED(sizeof(A)) };
template <class A, class B> struct T2 : Base { VERSIONED(sizeof(A) + 16 * sizeof(B)) };
template <class A, class B, class C> struct T3 : Base { VERSIONED(sizeof(A) + 8 * sizeof(B) + 2 * sizeof(C)) };
template <class A, class B, class C, class D> struct T4 : Base { VERSIONED(sizeof(A) + 8 * sizeof(B) + 2 * sizeof(C) + 5 * sizeof(D)) };
template <int N> struct I1 : Base { VERSIONED(N) };
template <int N, class A> struct I1T2 : Base { VERSIONED(N + sizeof(A)) };
}  // namespace versions
SM_BOOST_CLASS_VERSION(versions::Plain)
SM_BOOST_CLASS_VERSION_T1(versions::T1)
SM_BOOST_CLASS_VERSION_T1T2(versions::T2)
SM_BOOST_CLASS_VERSION_T1T2T3(versions::T3)
SM_BOOST_CLASS_VERSION_T1T2T3T4(versions::T4)
SM_BOOST_CLASS_VERSION_I1(versions::I1)
SM_BOOST_CLASS_VERSION_I1T2(versions::I1T2)
template <class T> static void versioned(pbt::Source& s) {
  const int want = T::CLASS_SERIALIZATION_VERSION;
  PBT_EQ(int(boost::serialization::version<T>::value), want, "the version of the class");
  T a, b;
  a.text = s.str("abc <&>", 10);
  s.nontrivial();
  const boost::filesystem::path p = file(s);
  const int mode = int(s.below(3));
  PBT_NOTE(s, "version " << want << " format " << mode);
  if (mode == 0) { bs::save(a, p); bs::load(b, p); }
  else if (mode == 1) { bs::save_txt(a, p); bs::load_txt(b, p); }
  else { bs::save_xml(a, p); bs::load_xml(b, p); }
  PBT_EQ(a.saved, want, "saved with the version");
  PBT_EQ(b.loaded, want, "loaded with the version it was saved with");
  PBT_EQ(b.text, a.text, "the contents");
}
PBT(class_versions, 3000, 30000) {
  using namespace versions;
  switch (s.below(13)) {
    case 0: return versioned<Plain>(s);
    case 1: return versioned<T1<char>>(s);
    case 2: return versioned<T1<std::string>>(s);
    case 3: return versioned<T2<char, int>>(s);
    case 4: return versioned<T2<double, char>>(s);
    case 5: return versioned<T3<char, int, double>>(s);
    case 6: return versioned<T3<double, char, int>>(s);
    case 7: return versioned<T4<char, int, double, short>>(s);
    case 8: return versioned<T4<double, double, char, int>>(s);
    case 9: return versioned<I1<0>>(s);
    case 10: return versioned<I1<255>>(s);
    case 11: return versioned<I1T2<3, double>>(s);
    default: return versioned<I1T2<100, char>>(s);
  }
}

// a disk that runs full: an object is either saved completely or the failure is reported
template <class T> static void onFullDisk(pbt::Source& s, T a) {
  const boost::filesystem::path p = boost::filesystem::path(pbt::scratch()) / "full", q = boost::filesystem::path(pbt::scratch()) / "fits";
  const int mode = int(s.below(3));
  auto save = [&](const boost::filesystem::path& to) { if (mode == 0) bs::save(a, to); else if (mode == 1) bs::save_txt(a, to); else bs::save_xml(a, to); };
  save(q);
  const size_t size = size_t(boost::filesystem::file_size(q)), room = s.flip() ? size_t(s.below(size + 1)) : s.chance(1, 3) ? size + size_t(s.below(3)) : size - std::min(size, size_t(s.below(40)));
  PBT_NOTE(s, "format " << mode << ": " << size << " bytes, room for " << room);
  s.label(room < size ? "full" : "fits");
  s.nontrivial();
  bool reported = false;
  {
    FileLimit limit(room);
    try { save(p); } catch (const std::exception&) { reported = true; }
  }
  PBT_CHECK(reported == (room < size), (reported ? "refused, although there is room" : "the file is truncated, which is not reported"));
  if (!reported) PBT_CHECK(boost::filesystem::file_size(p) == size, "the whole file is written");
  boost::filesystem::remove(p);
  try { save("/dev/full"); PBT_FAIL("no space left is not reported"); } catch (const std::exception&) {}
}
PBT(full_disk, 3000, 40000) {
  switch (s.below(4)) {
    case 0: { const int n = s.chance(1, 4) ? 60 : 5; return onFullDisk<Eigen::MatrixXd>(s, anyMat(s, int(s.below(n)), int(s.below(n)), true)); }
    case 1: return onFullDisk(s, Make<UncertainTransformation>::make(s, true));
    case 2: return onFullDisk(s, Make<HomogeneousPoint>::make(s, true));
    default: return onFullDisk(s, Make<UncertainVector3>::make(s, true));
  }
}

// binary equality of the kinematics objects: changing any single part is noticed
template <class T> static void rebuild(T& x, const Eigen::VectorXd& v);
template <> void rebuild(HomogeneousPoint& x, const Eigen::VectorXd& v) { for (int i = 0; i < 4; ++i) x.pptr()[i] = v[i]; }
template <> void rebuild(UncertainHomogeneousPoint& x, const Eigen::VectorXd& v) { for (int i = 0; i < 4; ++i) x.pptr()[i] = v[i]; x.setU(Eigen::Map<const M4>(v.data() + 4)); }
template <> void rebuild(Transformation& x, const Eigen::VectorXd& v) { for (int i = 0; i < 4; ++i) x.qptr()[i] = v[i]; for (int i = 0; i < 3; ++i) x.tptr()[i] = v[4 + i]; }
template <> void rebuild(UncertainTransformation& x, const Eigen::VectorXd& v) { for (int i = 0; i < 4; ++i) x.qptr()[i] = v[i]; for (int i = 0; i < 3; ++i) x.tptr()[i] = v[4 + i]; x.setU(Eigen::Map<const Eigen::Matrix<double, 6, 6> >(v.data() + 7)); }
template <> void rebuild(UncertainVector3& x, const Eigen::VectorXd& v) { x.setMean(v.head<3>()); x.setCovariance(Eigen::Map<const M3>(v.data() + 3)); }
template <class T> static void equality(pbt::Source& s) {
  T a = Make<T>::make(s, true), b = a, c = Make<T>::make(s, true);
  s.nontrivial();
  PBT_CHECK(a.isBinaryEqual(b) && b.isBinaryEqual(a) && a.isBinaryEqual(a), "a copy is equal");
  bool eq = parts(a) == parts(c);
  PBT_CHECK(a.isBinaryEqual(c) == eq && c.isBinaryEqual(a) == eq, "equal exactly when all parts are");
  Eigen::VectorXd v = parts(a);
  int k = int(s.below(unsigned(v.size())));
  v[k] = s.flip() ? v[k] + 1 + std::fabs(v[k]) : v[k] == 0 ? 1e-300 : std::nextafter(v[k], INFINITY);
  rebuild(b, v);
  PBT_NOTE(s, "part " << k << " of " << v.size());
  PBT_CHECK(!a.isBinaryEqual(b) && !b.isBinaryEqual(a), "part " << k << " of " << v.size() << " differs");
}
PBT(object_equality, 20000, 200000) {
  switch (s.below(5)) {
    case 0: return equality<HomogeneousPoint>(s);
    case 1: return equality<UncertainHomogeneousPoint>(s);
    case 2: return equality<Transformation>(s);
    case 3: return equality<UncertainTransformation>(s);
    default: return equality<UncertainVector3>(s);
  }
}

// the comparison macros themselves
#include <sm/is_binary_equal.hpp>
namespace {
struct Plain { int x; bool operator==(const Plain& o) const { return x == o.x; } };  // not printable
struct Inner { int x, y; bool isBinaryEqual(const Inner& o) const { return x == o.x && y == o.y; } };
struct Holder {
  int a; std::string b; double c; Plain d; Inner e; const int* f; boost::shared_ptr<int> g; boost::shared_ptr<Inner> h; Inner* i; boost::shared_ptr<Plain> j; Eigen::Vector2d k;
  bool conj(const Holder& o) const {
    return SM_CHECKMEMBERSSAME(o, a) && SM_CHECKMEMBERSSAME(o, b) && SM_CHECKMEMBERSSAME(o, c) && SM_CHECKMEMBERSSAME(o, d) && SM_CHECKMEMBERSSAME(o, e) && SM_CHECKMEMBERSSAME(o, f) &&
           SM_CHECKMEMBERSSAME(o, g) && SM_CHECKMEMBERSSAME(o, h) && SM_CHECKMEMBERSSAME(o, i) && SM_CHECKMEMBERSSAME(o, j) && SM_CHECKMEMBERSSAME(o, k);
  }
  bool acc(const Holder& o) const {
    bool r = true;
    r = r && SM_CHECKMEMBERSSAME(o, a);
    r = SM_CHECKMEMBERSSAME(o, b) && r;
    r = r && SM_CHECKSAME(c, o.c);
    r = SM_CHECKSAME(d, o.d) && r;
    r = r && SM_CHECKSAME(e, o.e);
    r = r && SM_CHECKMEMBERSSAME(o, f);
    r = SM_CHECKSAME(g, o.g) && r;
    r = r && SM_CHECKSAME(h, o.h);
    r = SM_CHECKSAME(i, o.i) && SM_CHECKSAME(j, o.j) && SM_CHECKMEMBERSSAME(o, k) && r;
    return r;
  }
  bool one(const Holder& o, int m, bool verbose) const {
    switch (m) {
      case 0: return SM_CHECKSAME(a, o.a, verbose);
      case 1: return SM_CHECKMEMBERSSAME(o, b, verbose);
      case 2: return SM_CHECKSAME(c, o.c, verbose);
      case 3: return SM_CHECKMEMBERSSAME(o, d, verbose);
      case 4: return SM_CHECKSAME(e, o.e, verbose);
      case 5: return SM_CHECKMEMBERSSAME(o, f, verbose);
      case 6: return SM_CHECKSAME(g, o.g, verbose);
      case 7: return SM_CHECKMEMBERSSAME(o, h, verbose);
      case 8: return SM_CHECKMEMBERSSAME(o, i, verbose);
      case 9: return SM_CHECKSAME(j, o.j, verbose);
      default: return SM_CHECKMEMBERSSAME(o, k, verbose);
    }
  }
};
struct Quiet {
  std::ostringstream o;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); SET_CHECKSAME_SILENT; }
};
}  // namespace
PBT(comparison_macros, 40000, 400000) {
  const int N = 11;
  int v[2][N];
  bool null[2][N] = {};
  for (int m = 0; m < N; ++m) {
    v[0][m] = int(s.below(5));
    v[1][m] = v[0][m];
    if (m >= 5 && m <= 9) null[0][m] = null[1][m] = s.chance(1, 4);
  }
  int changes = int(s.below(3));
  if (changes <= 1) s.nontrivial();
  for (int k = 0; k < changes; ++k) {
    int m = int(s.below(N));
    if (m >= 5 && m <= 9 && s.flip()) null[1][m] = !null[1][m];
    else v[1][m] = int(s.below(6));
    PBT_NOTE(s, "member " << m);
  }
  int ints[2];
  Inner inners[2];
  Holder h[2];
  bool same[N], all = true;
  for (int w = 0; w < 2; ++w) {
    int* x = v[w];
    h[w].a = x[0];
    h[w].b = std::string(size_t(x[1]), 'b');
    h[w].c = x[2] / 3.0;
    h[w].d.x = x[3];
    h[w].e = Inner{x[4] / 2, x[4]};
    ints[w] = x[5];
    h[w].f = null[w][5] ? nullptr : &ints[w];
    if (!null[w][6]) h[w].g = boost::make_shared<int>(x[6]);
    if (!null[w][7]) h[w].h = boost::make_shared<Inner>(Inner{1, x[7]});
    inners[w] = Inner{x[8], 3};
    h[w].i = null[w][8] ? nullptr : &inners[w];
    if (!null[w][9]) h[w].j = boost::make_shared<Plain>(Plain{x[9]});
    h[w].k = Eigen::Vector2d(1, x[10]);
  }
  for (int m = 0; m < N; ++m) {
    same[m] = null[0][m] == null[1][m] && (null[0][m] || v[0][m] == v[1][m]);
    all = all && same[m];
  }
  Quiet q;
  bool verbose = s.chance(1, 4);
  SET_CHECKSAME_VERBOSITY(verbose);
  PBT_CHECK(h[0].conj(h[1]) == all && h[1].conj(h[0]) == all, "conjunction of member checks, expected " << all);
  PBT_CHECK(h[0].acc(h[1]) == all && h[1].acc(h[0]) == all, "accumulated checks, expected " << all);
  PBT_CHECK(all || q.o.str().empty() == !verbose, "differences are reported on request only");
  for (int m = 0; m < N; ++m) {
    bool vb = s.chance(1, 4);
    q.o.str("");
    PBT_CHECK(h[0].one(h[1], m, vb) == same[m], "member " << m << ", expected " << same[m]);
    PBT_CHECK(q.o.str().empty() == !(vb && !same[m]), "report of member " << m);
    PBT_CHECK(!h[0].one(h[1], m, vb) == !same[m], "usable under negation");
  }
}

// the free functions that the macros replace
PBT(is_binary_equal, 10000, 100000) {
  const int x = int(s.below(4)), y = s.flip() ? x : int(s.below(4));
  const bool nx = s.chance(1, 4), ny = s.chance(1, 4), want = nx == ny && (nx || x == y);
  if (!nx && !ny) s.nontrivial();
  PBT_NOTE(s, (nx ? -1 : x) << " and " << (ny ? -1 : y));
  int a = x, b = y;
  Inner i{1, x}, j{1, y};
  Plain c{x}, d{y};
  Quiet q;
  PBT_CHECK(sm::isBinaryEqual(nx ? nullptr : &a, ny ? nullptr : &b) == want, "pointers to numbers");
  PBT_CHECK(sm::isBinaryEqual(nx ? nullptr : &i, ny ? nullptr : &j) == want, "pointers to objects");
  PBT_CHECK(sm::isBinaryEqual(nx ? nullptr : &c, ny ? nullptr : &d) == want, "pointers to objects without isBinaryEqual");
  boost::shared_ptr<Inner> si, sj;
  boost::shared_ptr<int> sa, sb;
  if (!nx) { si = boost::make_shared<Inner>(i); sa = boost::make_shared<int>(a); }
  if (!ny) { sj = boost::make_shared<Inner>(j); sb = boost::make_shared<int>(b); }
  PBT_CHECK(sm::isBinaryEqual(si, sj) == want && sm::isBinaryEqual(sa, sb) == want, "shared pointers");
}
