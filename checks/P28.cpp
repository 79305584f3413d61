// P28: assertion macros, approximate comparison, rounding, quadratic solver.
#include "pbt.hpp"
#include "P28_macros.hpp"
#include <sm/maths.hpp>
#include <sm/numerical_comparisons.hpp>
#include <sm/round.hpp>

PBT_PROPERTY("P28",
             "Every macro is called with operands of type double, float and long drawn from ordinary values, equal pairs, neighbouring "
             "doubles, signed zeros, infinities and NaN, in builds without NDEBUG, with NDEBUG, and with NDEBUG and SM_ALWAYS_ASSERT. "
             "Comparisons use numbers at the decision threshold, rounding uses half-way cases and their neighbours, the solver coefficients "
             "with exact, near-double and integer discriminants. Non-trivial: operands equal, adjacent or special, near a threshold or half.")

using p28::Call;

template <typename T> struct Gen;
template <> struct Gen<double> {
  static double get(pbt::Source& s) {
    switch (s.below(4)) {
      case 0: return s.pick({0.0, -0.0, 1.0, -1.0, 2.0, std::nan(""), double(INFINITY), -double(INFINITY), 5e-324, -5e-324});
      case 1: return s.anyDouble();
      case 2: return double(s.range(-3, 3));
      default: return s.real(10);
    }
  }
  static double near(pbt::Source& s, double v) {
    switch (s.below(4)) {
      case 0: return v;
      case 1: return std::nextafter(v, INFINITY);
      case 2: return std::nextafter(v, -INFINITY);
      default: return -v;
    }
  }
};
template <> struct Gen<float> {
  static float get(pbt::Source& s) { return float(Gen<double>::get(s)); }
  static float near(pbt::Source& s, float v) {
    switch (s.below(4)) {
      case 0: return v;
      case 1: return std::nextafterf(v, INFINITY);
      case 2: return std::nextafterf(v, -INFINITY);
      default: return -v;
    }
  }
};
template <> struct Gen<long> {
  static long get(pbt::Source& s) { return long(s.anyInt(-(int64_t(1) << 40), int64_t(1) << 40)); }
  static long near(pbt::Source& s, long v) { return v + s.range(-1, 1); }
};
static bool isNan(double v) { return v != v; }
static bool isNan(float v) { return v != v; }
static bool isNan(long) { return false; }

template <typename T>
static bool relation(const Call<T>& c) {
  const T a = c.a, b = c.b, d = c.d;
  switch (c.macro % 100) {
    case 0: return a < b;
    case 1: return a <= b;
    case 2: return a > b;
    case 3: return a >= b;
    case 4: return a == b;
    case 5: return a != b;
    case 6: return a > 0;
    case 7: return a >= 0;
    case 8: return a < 0;
    case 9: return a <= 0;
    case 10: return a == 0;
    case 11: return b <= a && a < d;
    case 12: return b < a && a <= d;
    case 13: return b <= a && a <= d;
    case 14: return std::fabs(b - a) <= std::fabs(d);
    case 15: return std::isfinite(double(a)) && std::isfinite(float(1));
    case 16: return !isNan(a);
    case 17: return c.p != nullptr;
    case 18: return c.p == nullptr;
    case 19: return a < b;
    default: return !(a < b);
  }
}

template <typename T>
static void macroCase(pbt::Source& s) {
  static const int g[] = {0};
  Call<T> c;
  int k = int(s.below(21 + 20));
  c.macro = k < 21 ? k : 100 + (k - 21 >= 18 ? k - 21 + 1 : k - 21);
  c.a = Gen<T>::get(s);
  c.b = s.flip() ? Gen<T>::near(s, c.a) : Gen<T>::get(s);
  c.d = s.flip() ? Gen<T>::near(s, s.flip() ? c.a : c.b) : Gen<T>::get(s);
  if (c.macro % 100 == 14 && s.flip()) c.d = c.b - c.a;
  c.p = s.flip() ? g : nullptr;
  c.tag = s.str("abc%d{}", 5);
  int build = int(s.below(3));
  c.na = c.nb = c.nd = 0;
  c.threw = false;
  const T a = c.a, b = c.b;
  if (isNan(a) || isNan(b) || a == b) s.nontrivial();
  PBT_NOTE(s, "macro " << c.macro << " a " << +a << " b " << +b << " d " << +c.d << " build " << build);
  if (build == 0) plain::run(c); else if (build == 1) ndebug::run(c); else alwaysassert::run(c);
  PBT_CHECK(c.macro >= 0, "harness: unknown macro");
  bool dbg = c.macro >= 100, active = !dbg || build != 1;
  bool rel = relation(c);
  if (!active) {
    s.label("debug macro off");
    PBT_CHECK(!c.threw && c.na == 0 && c.nb == 0 && c.nd == 0, "a disabled debug assertion has no effect");
    return;
  }
  s.label(rel ? "holds" : "fails");
  PBT_EQ(c.threw, !rel, "macro " << c.macro << " a " << +a << " b " << +b << " d " << +c.d << " build " << build);
  if (!rel) {
    PBT_CHECK(c.what.find("msg " + c.tag) != std::string::npos, "message is part of " << pbt::show(c.what));
    PBT_CHECK(c.what.find("P28_macros.inc:" + std::to_string(c.line)) != std::string::npos, "location " << c.line << " is part of " << pbt::show(c.what));
  } else {
    int m = c.macro % 100;
    if (m <= 5 || m == 19 || m == 20) PBT_CHECK(c.na == 1 && c.nb == 1, "operands evaluated once, not " << c.na << "," << c.nb);
    if ((m >= 6 && m <= 10) || m == 15 || m == 16) PBT_CHECK(c.na == 1, "operand evaluated once, not " << c.na);
    if (m == 14) PBT_CHECK(c.na == 1 && c.nb == 1 && c.nd == 1, "operands evaluated once");
  }
}
PBT(macros_double, 150000, 2000000) { macroCase<double>(s); }
PBT(macros_float, 80000, 1000000) { macroCase<float>(s); }
PBT(macros_long, 80000, 1000000) { macroCase<long>(s); }

PBT(macro_matrix_finite, 20000, 300000) {
  int r = int(s.range(0, 5)), c = int(s.range(0, 5));
  Eigen::MatrixXd m(r, c);
  bool finite = true;
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) {
      m(i, j) = s.chance(1, 10) ? s.pick({std::nan(""), double(INFINITY), -double(INFINITY)}) : s.anyFinite();
      finite &= std::isfinite(m(i, j));
    }
  if (!finite) s.nontrivial();
  std::string w;
  PBT_EQ(plain::matFinite(m, false, w), finite, "SM_ASSERT_MAT_IS_FINITE");
  if (!finite) PBT_CHECK(w.find("mat message") != std::string::npos && w.find("P28_macros.inc:") != std::string::npos, w);
  w.clear();
  PBT_EQ(plain::matFinite(m, true, w), finite, "SM_ASSERT_MAT_IS_FINITE_DBG");
  if (!finite) PBT_CHECK(w.find("mat message") != std::string::npos, w);
  PBT_EQ(ndebug::matFinite(m, false, w), finite, "with NDEBUG");
  PBT_CHECK(ndebug::matFinite(m, true, w), "disabled with NDEBUG");
}

PBT(throw_macros, 5000, 50000) {
  std::string m = s.str("abc %s", 12);
  int k = int(s.below(5)), build = int(s.below(3)), line = -1;
  s.nontrivial();
  bool threw = false;
  std::string what;
  try {
    if (build == 0) plain::always(k, m, line); else if (build == 1) ndebug::always(k, m, line); else alwaysassert::always(k, m, line);
  } catch (const p28::Boom& e) { threw = true; what = e.what(); }
  bool want = k != 3 && !(k == 4 && build == 1);
  PBT_EQ(threw, want, "kind " << k << " build " << build);
  if (threw) {
    PBT_CHECK(what.find(m + "1") != std::string::npos, what);
    PBT_CHECK(what.find(":" + std::to_string(line)) != std::string::npos, "line " << line << " in " << what);
  }
}

template <typename T>
static void compare(pbt::Source& s) {
  T eps;
  switch (s.below(3)) {
    case 0: eps = std::numeric_limits<T>::epsilon(); break;
    case 1: eps = T(s.logUniform(1e-12, 10)); break;
    default: eps = T(s.real(1)); break;
  }
  if (!(eps > 0)) {
    s.label("bad epsilon");
    s.nontrivial();
    PBT_THROWS(sm::approximatelyEqual<T>(1, 1, eps), std::invalid_argument, "eps " << eps);
    PBT_THROWS(sm::definitelyLessThan<T>(1, 1, eps), std::invalid_argument, "eps " << eps);
    PBT_THROWS(sm::definitelyGreaterThan<T>(1, 1, eps), std::invalid_argument, "eps " << eps);
    return;
  }
  T a = T(s.flip() ? s.anyFinite() : s.real(1000));
  if (!std::isfinite(a)) a = std::numeric_limits<T>::max();
  T b;
  switch (s.below(4)) {
    case 0: b = a; break;
    case 1: b = T(a * (1 + T(s.uniform(-2, 2)) * eps)); s.nontrivial(); break;
    case 2: { b = a * (1 - eps); int n = int(s.range(0, 3)); for (int i = 0; i < n; ++i) b = std::nextafter(b, T(s.flip() ? INFINITY : -INFINITY)); s.nontrivial(); break; }
    default: b = T(s.flip() ? s.anyFinite() : s.real(1000)); break;
  }
  if (!std::isfinite(b)) b = a;
  if (s.chance(1, 12)) {  // tiny numbers, of which the smallest are evenly spaced
    auto tiny = [&] { return T(s.range(-200, 200)) * (s.flip() ? std::numeric_limits<T>::denorm_min() : std::numeric_limits<T>::min() / 16); };
    a = tiny();
    b = s.flip() ? a + T(s.range(-3, 3)) * std::numeric_limits<T>::denorm_min() : tiny();
    s.nontrivial();
  }
  PBT_NOTE(s, a << " " << b << " eps " << eps);
  bool e = sm::approximatelyEqual(a, b, eps), l = sm::definitelyLessThan(a, b, eps), g = sm::definitelyGreaterThan(a, b, eps);
  PBT_EQ(int(e) + int(l) + int(g), 1, "trichotomy of " << a << " and " << b << " eps " << eps);
  PBT_EQ(sm::approximatelyEqual(b, a, eps), e, "symmetry");
  PBT_EQ(sm::definitelyGreaterThan(b, a, eps), l, "mirror");
  PBT_EQ(sm::definitelyLessThan(b, a, eps), g, "mirror");
  if (l) PBT_CHECK(a < b, "less");
  if (g) PBT_CHECK(a > b, "greater");
  if (a == b) PBT_CHECK(e, "equal numbers are approximately equal");
  long double d = std::fabs((long double)a - (long double)b), t = std::max(std::fabs((long double)a), std::fabs((long double)b)) * (long double)eps;
  long double u = std::numeric_limits<T>::epsilon();
  if (t > (long double)std::numeric_limits<T>::min() * 4 && t < (long double)std::numeric_limits<T>::max()) {
    if (d < t * (1 - 4 * u)) PBT_CHECK(e, "difference " << double(d) << " is below the threshold " << double(t));
    if (d > t * (1 + 4 * u)) PBT_CHECK(!e, "difference " << double(d) << " is above the threshold " << double(t));
  } else if (t < (long double)std::numeric_limits<T>::max()) {  // the spacing of the smallest numbers is coarse
    const long double q = 2 * (long double)std::numeric_limits<T>::denorm_min() + 4 * u * t;
    if (d + q < t) PBT_CHECK(e, "difference " << double(d) << " is below the tiny threshold " << double(t));
    if (d > t + q) PBT_CHECK(!e, "difference " << double(d) << " is above the tiny threshold " << double(t));
  }
  if (eps == std::numeric_limits<T>::epsilon()) {
    PBT_EQ(sm::approximatelyEqual(a, b), e, "default epsilon");
    PBT_EQ(sm::definitelyLessThan(a, b), l, "default epsilon");
    PBT_EQ(sm::definitelyGreaterThan(a, b), g, "default epsilon");
  }
}
PBT(compare_double, 100000, 1500000) { compare<double>(s); }
PBT(compare_float, 100000, 1500000) { compare<float>(s); }

PBT(rounding, 100000, 1500000) {
  double v;
  switch (s.below(4)) {
    case 0: v = double(s.anyInt(-(int64_t(1) << 53), int64_t(1) << 53)) + 0.5; s.nontrivial(); break;
    case 1: { v = double(s.range(-5, 5)) + 0.5; v = s.flip() ? std::nextafter(v, INFINITY) : std::nextafter(v, -INFINITY); s.nontrivial(); break; }
    case 2: v = double(s.anyInt(-(int64_t(1) << 62), int64_t(1) << 62)); break;
    default: v = s.real(1e10); break;
  }
  PBT_NOTE(s, v);
  long double x = v, fl = std::floor(x), diff = x - fl;
  long double e = diff < 0.5L ? fl : diff > 0.5L ? fl + 1 : (v < 0 ? fl : fl + 1);
  PBT_EQ(sm::round(v), double(e), "round(" << v << ")");
  PBT_EQ(sm::lrint(v), (long)e, "lrint(" << v << ")");
  if (std::fabs(v) < 2147483000.0) PBT_EQ(sm::rint(v), int(e), "rint(" << v << ")");
  float f = float(v);
  x = f; fl = std::floor(x); diff = x - fl;
  e = diff < 0.5L ? fl : diff > 0.5L ? fl + 1 : (f < 0 ? fl : fl + 1);
  PBT_EQ(sm::round(f), float(e), "float round(" << f << ")");
  PBT_EQ(sm::lrint(f), (long)e, "float lrint(" << f << ")");
  if (std::fabs(f) < 2147483000.0f) PBT_EQ(sm::rint(f), int(e), "float rint(" << f << ")");
}

PBT(signum, 20000, 200000) {
  double v = Gen<double>::get(s);
  if (v == 0) s.nontrivial();
  PBT_EQ(sm::sgn(v), v > 0 ? 1 : v < 0 ? -1 : 0, v);
  int64_t i = s.anyInt(INT64_MIN, INT64_MAX);
  PBT_EQ(sm::sgn(i), i > 0 ? 1 : i < 0 ? -1 : 0, i);
}

PBT(quadratic, 150000, 2000000) {
  double a, b, c;
  bool exact = false, real = true;
  switch (s.below(4)) {
    case 0: {  // small integers: the sign of the discriminant is known exactly
      int64_t x = s.range(-20, 20), y = s.range(-20, 20), z = s.range(-20, 20);
      if (x == 0) x = 7;
      a = double(x); b = double(y); c = double(z);
      exact = true;
      real = y * y - 4 * x * z >= 0;
      break;
    }
    case 1: {  // from roots, possibly double or zero
      int64_t r1 = s.range(-1000, 1000), r2 = s.chance(1, 3) ? r1 : s.range(-1000, 1000), k = s.range(1, 100) * (s.flip() ? -1 : 1);
      a = double(k); b = -double(k * (r1 + r2)); c = double(k * r1 * r2);
      exact = true;
      s.label(r1 == r2 ? "double root" : "integer roots");
      break;
    }
    case 2: a = s.signedLog(1e-60, 1e60); b = s.signedLog(1e-60, 1e60); c = s.signedLog(1e-60, 1e60); break;
    default: {
      a = s.signedLog(1e-3, 1e3); b = s.signedLog(1e-6, 1e6);
      c = s.flip() ? b * b / (4 * a) * (1 + s.uniform(-1e-9, 1e-9)) : s.real(10);
      if (s.chance(1, 8)) b = 0;
      if (s.chance(1, 8)) c = 0;
    }
  }
  PBT_NOTE(s, a << " " << b << " " << c);
  long double D = (long double)b * b - 4.0L * a * c, scale = (long double)b * b + std::fabs(4.0L * a * c);
  if (!exact) {
    if (std::fabs(D) <= scale * 1e-15L && D != 0) s.discard();  // the sign is not decided in double arithmetic
    real = D >= 0;
  }
  if (!real) {
    s.label("no real root");
    PBT_THROWS(sm::solveQuadratic(a, b, c), std::runtime_error, a << " " << b << " " << c);
    return;
  }
  s.nontrivial();
  std::pair<double, double> r = sm::solveQuadratic(a, b, c);
  for (double x : {r.first, r.second}) {
    PBT_CHECK(std::isfinite(x), "root " << x << " of " << a << " " << b << " " << c);
    long double res = ((long double)a * x + b) * x + c, mag = std::fabs((long double)a * x * x) + std::fabs((long double)b * x) + std::fabs((long double)c);
    PBT_CHECK(std::fabs(res) <= mag * 1e-14L, "residual " << double(res) << " of root " << x << " (" << a << " " << b << " " << c << ")");
  }
  // both roots are reported: they multiply to c/a and add to -b/a
  long double sum = (long double)r.first + r.second, prod = (long double)r.first * r.second;
  PBT_CHECK(std::fabs(sum + (long double)b / a) <= 1e-7L * (std::fabs((long double)b / a) + std::fabs((long double)r.first) + std::fabs((long double)r.second)), "sum of roots " << r.first << " " << r.second);
  PBT_CHECK(std::fabs(prod - (long double)c / a) <= 1e-7L * std::fabs((long double)c / a), "product of roots " << r.first << " " << r.second);
}
