// P33: histories of the geometric objects of the Python module against the same history in C++: equal class, value and covariance.
#include "pyembed.hpp"
#include "kin.hpp"
#include <cstdlib>
#include <map>
#include <memory>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/python/Id.hpp>
#include <sm/python/stl_converters.hpp>
#include <sm/Id.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/random.hpp>

PBT_PROPERTY("P33",
             "A case builds transformations, points and vectors with and without covariance through every constructor and applies products, sums, inverses, interpolation, "
             "setters, copies, pickling and files to them from Python and from C++. A case is non-trivial when an object with a covariance other than zero takes part, when a "
             "pair of different classes is combined, or when an object is written and read again.")
using namespace kin;
using namespace sm::kinematics;
namespace bp = boost::python;
typedef Eigen::Matrix<double, 6, 6> M66;

namespace {
bp::object mod() { return pyembed::module(); }
template <class M>
void sameTo(const M& got, const M& want, const std::string& what, double sc) {
  for (int i = 0; i < want.size(); ++i)
    if (std::isfinite(want.data()[i])) sc = std::max(sc, std::fabs(want.data()[i]));
  for (int i = 0; i < want.rows(); ++i)
    for (int j = 0; j < want.cols(); ++j) {
      const double a = got(i, j), b = want(i, j);
      const bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-11 * sc;
      PBT_CHECK(ok, what << " (" << i << "," << j << "): " << a << " instead of " << b);
    }
}
template <class M>
void same(const M& got, const M& want, const std::string& what) { sameTo(got, want, what, 1); }
// a covariance: to its own scale, however small
template <class M>
void sameCov(const M& got, const M& want, const std::string& what) { sameTo(got, want, what, 0); }
void sameCov(double got, double want, const std::string& what) { sameTo(Eigen::Matrix<double, 1, 1>::Constant(got).eval(), Eigen::Matrix<double, 1, 1>::Constant(want).eval(), what, 0); }
void same(double got, double want, const std::string& what) { same(Eigen::Matrix<double, 1, 1>::Constant(got).eval(), Eigen::Matrix<double, 1, 1>::Constant(want).eval(), what); }
template <class M>
M get(const bp::object& o, const char* name) {
  return pyembed::as<M>(pyembed::py([&] { return bp::object(o.attr(name)()); }), name);
}
enum Kind { TF, UTF, HP, UHP };
const char* const kClass[] = {"Transformation", "UncertainTransformation", "HomogeneousPoint", "UncertainHomogeneousPoint"};

struct Obj {
  Kind k;
  std::shared_ptr<Transformation> t;
  std::shared_ptr<UncertainTransformation> ut;
  std::shared_ptr<HomogeneousPoint> p;
  std::shared_ptr<UncertainHomogeneousPoint> up;
  bp::object o;
};
Obj mk(const Transformation& v) { Obj r; r.k = TF; r.t = std::allocate_shared<Transformation>(Eigen::aligned_allocator<Transformation>(), v); return r; }
Obj mk(const UncertainTransformation& v) { Obj r; r.k = UTF; r.ut = std::allocate_shared<UncertainTransformation>(Eigen::aligned_allocator<UncertainTransformation>(), v); return r; }
Obj mk(const HomogeneousPoint& v) { Obj r; r.k = HP; r.p = std::allocate_shared<HomogeneousPoint>(Eigen::aligned_allocator<HomogeneousPoint>(), v); return r; }
Obj mk(const UncertainHomogeneousPoint& v) { Obj r; r.k = UHP; r.up = std::allocate_shared<UncertainHomogeneousPoint>(Eigen::aligned_allocator<UncertainHomogeneousPoint>(), v); return r; }

void compare(const Obj& x, const std::string& what) {
  std::string c = pyembed::className(x.o);
  const size_t dot = c.rfind('.');
  if (dot != c.npos) c = c.substr(dot + 1);
  PBT_CHECK(c == kClass[x.k], what << " is a " << c << " instead of " << kClass[x.k]);
  if (x.k == TF || x.k == UTF) {
    const Transformation& t = x.k == TF ? *x.t : *x.ut;
    same(get<M4>(x.o, "T"), t.T(), what + " T");
    same(get<M3>(x.o, "C"), t.C(), what + " C");
    same(get<V3>(x.o, "t"), t.t(), what + " t");
    same(get<V4>(x.o, "q"), t.q(), what + " q");
    same(get<Eigen::Matrix<double, 3, 4>>(x.o, "T3x4"), t.T3x4(), what + " T3x4");
    same(get<M66>(x.o, "S"), t.S(), what + " S");
    if (x.k == UTF) sameCov(get<M66>(x.o, "U"), x.ut->U(), what + " U");
    pyembed::py([&] { x.o.attr("checkTransformationIsValid")(); return 0; });
  } else {
    const HomogeneousPoint& p = x.k == HP ? *x.p : *x.up;
    same(get<V4>(x.o, "toHomogeneous"), p.toHomogeneous(), what + " toHomogeneous");
    if (p.toHomogeneous()[3] != 0) same(get<V3>(x.o, "toEuclidean"), p.toEuclidean(), what + " toEuclidean");
    if (x.k == UHP) {
      sameCov(get<M4>(x.o, "U4"), x.up->U4(), what + " U4");
      if (p.toHomogeneous()[3] != 0) {
        sameCov(get<M3>(x.o, "U3"), x.up->U3(), what + " U3");
        M3 av;
        bool threw = false;
        try { av = x.up->U_av_form(); } catch (const std::exception&) { threw = true; }
        if (threw) PBT_CHECK(pyembed::raised([&] { x.o.attr("U_av_form")(); }) == "RuntimeError", what << ": U_av_form of a point off the unit sphere");
        else sameCov(get<M3>(x.o, "U_av_form"), av, what + " U_av_form");
      }
    }
  }
}

V3 pos(pbt::Source& s) { return V3(s.uniform(-5, 5), s.uniform(-5, 5), s.uniform(-5, 5)); }
V4 hom(pbt::Source& s) { return V4(s.uniform(-5, 5), s.uniform(-5, 5), s.uniform(-5, 5), s.flip() ? s.uniform(0.5, 3) : s.uniform(-3, -0.5)); }
template <int N> Eigen::Matrix<double, N, N> cov(pbt::Source& s) {
  Eigen::Matrix<double, N, N> m = psd(s, N, 0.1);
  return m;
}
M4 mat(const V4& q, const V3& t) { M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = quat2r(q); T.topRightCorner<3, 1>() = t; return T; }

Obj make(pbt::Source& s) {
  pyembed::module();
  const int k = int(s.below(4));
  auto n = [&](const char* c) { return mod().attr(c); };
  Obj r;
  if (k == TF) {
    const V4 q = quat(s);
    const V3 t = pos(s);
    switch (s.below(3)) {
      case 0: r = mk(Transformation()); r.o = n("Transformation")(); break;
      case 1: r = mk(Transformation(q, t)); r.o = pyembed::py([&] { return bp::object(n("Transformation")(q, t)); }); break;
      case 2: { const M4 T = mat(q, t); r = mk(Transformation(T)); r.o = pyembed::py([&] { return bp::object(n("Transformation")(T)); }); break; }
    }
  } else if (k == UTF) {
    const V4 q = quat(s);
    const V3 t = pos(s);
    const M4 T = mat(q, t);
    const M66 U = cov<6>(s);
    const double a = s.uniform(0, 1), b = s.uniform(0, 1);
    const Transformation tf(q, t);
    s.nontrivial();
    pyembed::py([&] {
      bp::object c = n("UncertainTransformation"), ptf = n("Transformation")(q, t);
      switch (s.below(10)) {
        case 0: r = mk(UncertainTransformation()); r.o = c(); break;
        case 1: r = mk(UncertainTransformation(T, U)); r.o = c(T, U); break;
        case 2: r = mk(UncertainTransformation(T, a, b)); r.o = c(T, a, b); break;
        case 3: r = mk(UncertainTransformation(q, t, U)); r.o = c(q, t, U); break;
        case 4: r = mk(UncertainTransformation(q, t, a, b)); r.o = c(q, t, a, b); break;
        case 5: r = mk(UncertainTransformation(tf, U)); r.o = c(ptf, U); break;
        case 6: r = mk(UncertainTransformation(tf, a, b)); r.o = c(ptf, a, b); break;
        case 7: r = mk(UncertainTransformation(tf)); r.o = c(ptf); break;
        case 8: r = mk(UncertainTransformation(T)); r.o = c(T); break;
        case 9: r = mk(UncertainTransformation(q, t)); r.o = c(q, t); break;
      }
      return 0;
    });
  } else if (k == HP) {
    const V4 h = hom(s);
    const V3 e = pos(s);
    pyembed::py([&] {
      bp::object c = n("HomogeneousPoint");
      switch (s.below(3)) {
        case 0: r = mk(HomogeneousPoint()); r.o = c(); break;
        case 1: r = mk(HomogeneousPoint(e)); r.o = c(e); break;
        case 2: r = mk(HomogeneousPoint(h)); r.o = c(h); break;
      }
      return 0;
    });
  } else {
    V4 h = hom(s);
    if (s.flip()) h.normalize();
    const bool unit = std::fabs(h.norm() - 1) < 1e-9;
    const V3 e = pos(s);
    const M3 U3 = cov<3>(s);
    const M4 U4 = cov<4>(s);
    const HomogeneousPoint hp(h);
    s.nontrivial();
    pyembed::py([&] {
      bp::object c = n("UncertainHomogeneousPoint"), php = n("HomogeneousPoint")(h);
      switch (s.below(unit ? 9 : 7)) {
        case 0: r = mk(UncertainHomogeneousPoint()); r.o = c(); break;
        case 1: r = mk(UncertainHomogeneousPoint(e)); r.o = c(e); break;
        case 2: r = mk(UncertainHomogeneousPoint(h)); r.o = c(h); break;
        case 3: r = mk(UncertainHomogeneousPoint(hp)); r.o = c(php); break;
        case 4: r = mk(UncertainHomogeneousPoint(e, U3)); r.o = c(e, U3); break;
        case 5: r = mk(UncertainHomogeneousPoint(h, U4)); r.o = c(h, U4); break;
        case 6: r = mk(UncertainHomogeneousPoint(hp, U4)); r.o = c(php, U4); break;
        case 7: r = mk(UncertainHomogeneousPoint(h, U3)); r.o = c(h, U3); break;
        case 8: r = mk(UncertainHomogeneousPoint(hp, U3)); r.o = c(php, U3); break;
      }
      return 0;
    });
  }
  PBT_NOTE(s, kClass[r.k]);
  compare(r, std::string("constructed ") + kClass[r.k]);
  return r;
}
bool isT(const Obj& x) { return x.k == TF || x.k == UTF; }
const Transformation& tf(const Obj& x) { return x.k == TF ? *x.t : *x.ut; }

Obj product(const Obj& a, const Obj& b) {
  Obj r;
  if (a.k == TF) {
    if (b.k == TF) r = mk(*a.t * *b.t);
    if (b.k == UTF) r = mk(*a.t * *b.ut);
    if (b.k == HP) r = mk(*a.t * *b.p);
    if (b.k == UHP) r = mk(*a.t * *b.up);
  } else {
    if (b.k == TF) r = mk(*a.ut * *b.t);
    if (b.k == UTF) r = mk(*a.ut * *b.ut);
    if (b.k == HP) r = mk(*a.ut * *b.p);
    if (b.k == UHP) r = mk(*a.ut * *b.up);
  }
  r.o = pyembed::py([&] { return bp::object(a.o * b.o); });
  return r;
}
Obj sum(const Obj& a, const Obj& b, bool minus) {
  Obj r;
  if (a.k == HP) {
    if (b.k == HP) r = mk(minus ? *a.p - *b.p : *a.p + *b.p);
    if (b.k == UHP) r = mk(minus ? *a.p - *b.up : *a.p + *b.up);
  } else {
    if (b.k == HP) r = mk(minus ? *a.up - *b.p : *a.up + *b.p);
    if (b.k == UHP) r = mk(minus ? *a.up - *b.up : *a.up + *b.up);
  }
  r.o = pyembed::py([&] { return bp::object(minus ? a.o - b.o : a.o + b.o); });
  return r;
}
Obj again(const Obj& x) {
  Obj r = x.k == TF ? mk(*x.t) : x.k == UTF ? mk(*x.ut) : x.k == HP ? mk(*x.p) : mk(*x.up);
  return r;
}
bool bad(const Obj& x) {
  if (isT(x)) return !(tf(x).T().array().abs() < 1e6).all() || (x.k == UTF && !(x.ut->U().array().abs() < 1e9).all());
  const V4 h = x.k == HP ? x.p->toHomogeneous() : x.up->toHomogeneous();
  return !(h.array().abs() < 1e6).all() || std::fabs(h[3]) < 1e-6 || (x.k == UHP && !(x.up->U4().array().abs() < 1e9).all());
}
}  // namespace

PBT(histories, 20000, 400000) {
  std::vector<Obj> pool;
  const size_t n = s.size(2, 5);
  for (size_t i = 0; i < n; ++i) pool.push_back(make(s));
  int steps = 0;
  do {
    Obj& a = pool[s.below(pool.size())];
    Obj& b = pool[s.below(pool.size())];
    Obj r;
    std::string what;
    const int op = int(s.below(10));
    if (op <= 2 && isT(a)) {
      if (a.k != b.k) s.nontrivial();
      r = product(a, b);
      what = std::string(kClass[a.k]) + " * " + kClass[b.k];
    } else if (op <= 2 && !isT(b)) {
      if (a.k != b.k) s.nontrivial();
      const bool minus = s.flip();
      r = sum(a, b, minus);
      what = std::string(kClass[a.k]) + (minus ? " - " : " + ") + kClass[b.k];
    } else if (op == 3 && isT(a)) {
      r = a.k == TF ? mk(a.t->inverse()) : mk(a.ut->inverse());
      r.o = pyembed::py([&] { return bp::object(a.o.attr("inverse")()); });
      what = std::string("inverse of ") + kClass[a.k];
    } else if (op == 4 && a.k == UTF) {
      const M66 U = cov<6>(s);
      const bool oplus = s.flip();
      if (oplus) a.ut->setUOplus(U); else a.ut->setU(U);
      pyembed::py([&] { a.o.attr(oplus ? "setUOplus" : "setU")(U); return 0; });
      what = oplus ? "after setUOplus" : "after setU";
    } else if (op == 4 && a.k == UHP) {
      const M4 U = cov<4>(s);
      const M3 U3 = cov<3>(s);
      const bool oplus = s.flip();
      bool threw = false;
      try { if (oplus) a.up->setUOplus(U3); else a.up->setU(U); } catch (const std::exception&) { threw = true; }
      if (threw) PBT_CHECK(pyembed::raised([&] { a.o.attr("setUOplus")(U3); }) == "RuntimeError", "setUOplus of a point off the unit sphere");
      else pyembed::py([&] { if (oplus) a.o.attr("setUOplus")(U3); else a.o.attr("setU")(U); return 0; });
      what = oplus ? "after setUOplus" : "after setU";
    } else if (op == 5) {
      s.nontrivial();
      const int seed = int(s.below(1000));
      const bool two = isT(a) && s.flip();
      const double tm = s.uniform(0.1, 5), rm = s.uniform(0.1, 3);
      auto reseed = [&] { std::srand(seed); sm::random::seed(seed); };
      reseed();
      if (a.k == TF) { if (two) a.t->setRandom(tm, rm); else a.t->setRandom(); }
      if (a.k == UTF) { if (two) a.ut->setRandom(tm, rm); else a.ut->setRandom(); }
      if (a.k == HP) a.p->setRandom();
      if (a.k == UHP) a.up->setRandom();
      reseed();
      pyembed::py([&] { if (two) a.o.attr("setRandom")(tm, rm); else a.o.attr("setRandom")(); return 0; });
      what = std::string("setRandom of ") + kClass[a.k];
    } else if (op == 6) {
      if (isT(a)) {
        if (a.k == TF) a.t->setIdentity(); else a.ut->setIdentity();
        pyembed::py([&] { a.o.attr("setIdentity")(); return 0; });
        what = std::string("setIdentity of ") + kClass[a.k];
      } else {
        if (a.k == HP) a.p->normalize(); else a.up->normalize();
        pyembed::py([&] { a.o.attr("normalize")(); return 0; });
        what = std::string("normalize of ") + kClass[a.k];
      }
    } else if (op == 7 && isT(a) && isT(b)) {
      const double t = s.uniform(-0.2, 1.2);
      const bool slerp = s.flip();
      r = mk(slerp ? slerpTransformations(tf(a), tf(b), t) : interpolateTransformations(tf(a), 0.25, tf(b), 1.75, 0.25 + t));
      r.o = pyembed::py([&] { return bp::object(slerp ? mod().attr("slerpTransformations")(a.o, b.o, t) : mod().attr("interpolateTransformations")(a.o, 0.25, b.o, 1.75, 0.25 + t)); });
      what = slerp ? "slerpTransformations" : "interpolateTransformations";
    } else if (op == 8 && isT(a)) {
      s.nontrivial();
      r = again(a);
      const int how = int(s.below(3));
      const std::string file = pbt::scratch() + "/object.ba";
      r.o = pyembed::py([&]() -> bp::object {
        if (how == 0) {
          bp::object pickle = bp::import("pickle");
          const int proto = int(s.range(2, 5));
          return pickle.attr("loads")(pickle.attr("dumps")(a.o, proto));
        }
        if (how == 1) return bp::import("copy").attr("deepcopy")(a.o);
        a.o.attr("save")(file);
        bp::object o = mod().attr(kClass[a.k])();
        o.attr("load")(file);
        return o;
      });
      s.label(how == 0 ? "pickled" : how == 1 ? "deep copy" : "file");
      what = std::string(how == 0 ? "pickled " : how == 1 ? "deep copy of " : "saved and loaded ") + kClass[a.k];
    } else if (op == 9 && a.k != TF && a.k != HP) {
      s.nontrivial();
      r = again(a);
      r.o = pyembed::py([&] { return bp::object(mod().attr(kClass[a.k])(a.o)); });
      what = std::string(kClass[a.k]) + " constructed from " + kClass[a.k];
    } else {
      continue;
    }
    PBT_NOTE(s, what);
    if (!r.o.is_none()) {
      if (bad(r)) continue;
      compare(r, what);
      compare(a, "left operand of " + what);
      compare(b, "right operand of " + what);
      if (pool.size() < 8) pool.push_back(r); else pool[s.below(pool.size())] = r;
    } else if (!what.empty()) {
      if (bad(a)) s.discard();
      compare(a, what);
    }
  } while (s.more(8) && ++steps < 25);
}

PBT(transform_a_vector, 3000, 60000) {
  pyembed::module();
  const V4 q = quat(s);
  const V3 t = pos(s), v = pos(s);
  s.nontrivial();
  const Transformation T(q, t);
  bp::object r = pyembed::py([&] { return bp::object(bp::object(mod().attr("Transformation")(q, t)) * bp::object(v)); });
  same(pyembed::as<V3>(r, "T * v"), V3(T * v), "T * v");
}

namespace {
template <int D> struct UV {
  typedef UncertainVector<D> U;
  typedef typename U::value_t V;
  typedef typename U::covariance_t E;
  typedef std::integral_constant<bool, D == 1> is1;
  static void check(const bp::object& o, const U& u, const char* what) {
    same(get<V>(o, "mean"), u.mean(), std::string(what) + " mean");
    same(get<V>(o, "v"), u.v(), std::string(what) + " v");
    sameCov(get<E>(o, "E"), u.E(), std::string(what) + " E");
    sameCov(get<E>(o, "covariance"), u.covariance(), std::string(what) + " covariance");
  }
  static double val(pbt::Source& s, std::integral_constant<bool, true>) { return s.uniform(0.1, 5); }
  static double co(pbt::Source& s, std::integral_constant<bool, true>) { return s.uniform(0, 2); }
  static V val(pbt::Source& s, std::integral_constant<bool, false>) { V v; for (int i = 0; i < D; ++i) { v[i] = s.uniform(-5, 5); if (std::fabs(v[i]) < 0.1) v[i] = 1; } return v; }
  static E co(pbt::Source& s, std::integral_constant<bool, false>) { E e = psd(s, D, 0.2); return e; }
  static void special(pbt::Source& s, const bp::object& x, U a, const std::string&, std::integral_constant<bool, false>) {
    const double k = s.uniform(-3, 3);
    const double one = s.uniform(-2, 2), var = s.uniform(0, 1);
    const UncertainVector<1> us(one, var);
    check(pyembed::py([&] { return bp::object(x * k); }), a * k, "x * double");
    check(pyembed::py([&] { return bp::object(x * bp::object(mod().attr("UncertainScalar")(one, var))); }), a * us, "x * UncertainScalar");
    check(pyembed::py([&] { return bp::object(x.attr("normalized")()); }), a.normalized(), "normalized");
    pyembed::py([&] { x.attr("normalize")(); return 0; });
    a.normalize();
    check(x, a, "normalize");
  }
  static void special(pbt::Source& s, const bp::object& x, U a, const std::string&, std::integral_constant<bool, true>) {
    const double c = s.uniform(0.5, 2), var = s.uniform(0, 1);
    const U us(c, var);
    bp::object o = pyembed::py([&] { return bp::object(mod().attr("UncertainScalar")(c, var)); });
    check(pyembed::py([&] { return bp::object(x * o); }), a * us, "x * UncertainScalar");
    UncertainVector<1> q = a / us;
    check(pyembed::py([&] { return bp::object(bp::import("operator").attr("truediv")(x, o)); }), q, "x / UncertainScalar");
    check(pyembed::py([&] { return bp::object(x * bp::object(c)); }), a * c, "x * scalar");
    check(pyembed::py([&] { return bp::object(bp::import("operator").attr("truediv")(x, c)); }), a / c, "x / scalar");
  }
  static void go(pbt::Source& s) {
    const std::string name = D == 1 ? "UncertainScalar" : "UncertainVector" + std::to_string(D);
    const V v = val(s, is1()), w = val(s, is1());
    const E e = co(s, is1()), f = co(s, is1());
    s.label(name);
    U a(v, e), b(w, f);
    bp::object x = pyembed::py([&] { return bp::object(mod().attr(name.c_str())(v, e)); });
    bp::object y = pyembed::py([&] { return bp::object(mod().attr(name.c_str())(w, f)); });
    check(x, a, "constructed");
    check(pyembed::py([&] { return bp::object(mod().attr(name.c_str())(v)); }), U(v), "constructed without covariance");
    check(pyembed::py([&] { return bp::object(x + y); }), a + b, "sum");
    check(pyembed::py([&] { return bp::object(x - y); }), a - b, "difference");
    check(pyembed::py([&] { return bp::object(x + bp::object(w)); }), a + w, "sum with a vector");
    check(pyembed::py([&] { return bp::object(x - bp::object(w)); }), a - w, "difference with a vector");
    UV<1>::check(pyembed::py([&] { return bp::object(x.attr("dot")(y)); }), a.dot(b), "dot");
    UV<1>::check(pyembed::py([&] { return bp::object(x.attr("dotV")(w)); }), a.dot(w), "dotV");
    pyembed::py([&] { x.attr("setMean")(w); x.attr("setCovariance")(f); return 0; });
    a.setMean(w);
    a.setCovariance(f);
    check(x, a, "set");
    special(s, x, a, name, is1());
  }
};
}  // namespace
PBT(uncertain_vectors, 6000, 120000) {
  pyembed::module();
  s.nontrivial();
  switch (s.below(6)) {
    case 0: UV<1>::go(s); break;
    case 1: UV<2>::go(s); break;
    case 2: UV<3>::go(s); break;
    case 3: UV<4>::go(s); break;
    case 4: UV<5>::go(s); break;
    case 5: UV<6>::go(s); break;
  }
}

namespace {
SM_DEFINE_ID(PyTestId);
}
/// an Id becomes the integer with its value and comes back; integers that no Id holds are refused
PBT(ids, 4000, 60000) {
  pyembed::module();
  static bool once = (sm::python::Id_python_converter<PyTestId>::register_converter(), sm::python::Id_python_converter<PyTestId>::register_converter(), true);
  (void)once;
  const uint64_t v = s.chance(1, 2) ? s.bits64() : uint64_t(s.anyInt(INT64_MIN, INT64_MAX));
  PBT_NOTE(s, v);
  if (v >> 63) s.nontrivial();
  bp::object o = pyembed::py([&] { return bp::object(PyTestId(v)); });
  bp::object n(bp::handle<>(PyLong_FromUnsignedLongLong(v)));
  PBT_CHECK(PyObject_RichCompareBool(o.ptr(), n.ptr(), Py_EQ) == 1, "the integer of the Id is " << pyembed::as<std::string>(bp::object(bp::str(o)), "str"));
  bp::extract<PyTestId> x(n);
  PBT_CHECK(x.check(), "an integer is convertible");
  PBT_CHECK(x() == PyTestId(v), "the Id of the integer");
  bp::object outside = s.flip() ? n + bp::eval("2**64") : n - bp::eval("2**64");
  s.label("outside");
  const std::string e = pyembed::raised([&] { bp::extract<PyTestId> y(outside); if (y.check()) (void)y(); else { PyErr_SetString(PyExc_TypeError, "no"); bp::throw_error_already_set(); } });
  PBT_CHECK(e != "", "an integer outside the range of Ids was converted");
  PBT_CHECK(!PyErr_Occurred(), "an exception is left behind");
  bp::extract<PyTestId> z(bp::object(1.5)), w(bp::object("7"));
  PBT_CHECK(!z.check() && !w.check(), "only integers are Ids");
}

PBT(containers, 3000, 40000) {
  pyembed::module();
  std::vector<int> v;
  std::map<std::string, double> m;
  while (s.more(5) && v.size() < 30) { v.push_back(int(s.anyInt(INT32_MIN, INT32_MAX))); m[s.str("abc", 3)] = s.real(100); }
  if (v.size() > 1) s.nontrivial();
  bp::list l;
  if (s.flip()) l.append("before");
  const long base = bp::len(l);
  bp::dict d;
  pyembed::py([&] { sm::python::stlToList(v.begin(), v.end(), l); sm::python::stlToDict(m.begin(), m.end(), d); return 0; });
  PBT_EQ(long(bp::len(l)), base + long(v.size()), "length of the list");
  for (size_t i = 0; i < v.size(); ++i) PBT_EQ(int(bp::extract<int>(l[base + long(i)])), v[i], "list");
  PBT_EQ(size_t(bp::len(d)), m.size(), "length of the dict");
  for (auto& e : m) PBT_EQ(double(bp::extract<double>(d[e.first])), e.second, "dict");
}
