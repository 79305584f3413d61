// P39: aligned storage and the small helpers of sm_common, sm_boost and sm_eigen.
#include "locales.hpp"
#include "pbt.hpp"
#include <cstdlib>
#include <new>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/shared_ptr.hpp>
#include <deque>
#include <set>
#include <iomanip>
#include <list>
#include <sm/aligned_allocation.h>
#include <sm/boost/null_deleter.hpp>
#include <sm/eigen/traits.hpp>
#include <sm/progress_info.hpp>
#include <sm/source_file_pos.hpp>
#include <sm/typetraits.hpp>
#undef EIGEN_STATIC_ASSERT
namespace { bool g_holds; }
#define EIGEN_STATIC_ASSERT(X, MSG) g_holds = bool(X);
#include <sm/eigen/static_assert.hpp>
PBT_PROPERTY("P39",
             "A case is a history of insertions and removals on an aligned container next to the standard one, a chain of owners of an aligned or borrowed object, a sequence of progress reports on a "
             "stream with a format of its own, a source position, or a pair of types. A case is non-trivial when a container reallocates or erases, an object outlives its first owner, or a report is of "
             "neither end.")
// The default allocator promises 16 byte and here gives no more, whatever the C library or a sanitizer would give: what asks it for aligned memory is found out.
static void* give(size_t n) {
  char* raw = static_cast<char*>(std::malloc(n + 96));
  if (!raw) throw std::bad_alloc();
  char* p = raw + 16;
  while (reinterpret_cast<uintptr_t>(p) % 64 != 16) ++p;
  reinterpret_cast<void**>(p)[-1] = raw;
  return p;
}
static void take(void* p) noexcept { if (p) std::free(static_cast<void**>(p)[-1]); }
void* operator new(size_t n) { return give(n); }
void* operator new[](size_t n) { return give(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return give(n); } catch (const std::bad_alloc&) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return give(n); } catch (const std::bad_alloc&) { return nullptr; } }
void operator delete(void* p) noexcept { take(p); }
void operator delete[](void* p) noexcept { take(p); }
void operator delete(void* p, size_t) noexcept { take(p); }
void operator delete[](void* p, size_t) noexcept { take(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { take(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { take(p); }

namespace {
// more strictly aligned than what malloc gives (the check is compiled with Eigen's alignment raised)
typedef Eigen::Matrix<double, 4, 1> V4;
typedef Eigen::Matrix<float, 4, 4> M4;
struct Own {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  static int alive;
  char tag;
  V4 v;
  explicit Own(double x = 0, char c = 'x') : tag(c), v(V4::Constant(x)) { ++alive; }
  Own(const Own& o) : tag(o.tag), v(o.v) { ++alive; }
  Own& operator=(const Own&) = default;
  ~Own() { --alive; }
};
int Own::alive = 0;
struct Taker {  // notes how its arguments were passed
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  V4 v;
  std::string how;
  const void* from[3];
  template <class T> static char kind() { return std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? 'c' : 'l') : 'r'; }
  template <class A, class B, class C> Taker(A&& a, B&& b, C&& c) : v(V4::Zero()), how{kind<A>(), kind<B>(), kind<C>()}, from{&a, &b, &c} {}
};
static_assert(alignof(Taker) >= 32, "the alignment of this type is beyond malloc's");
static_assert(alignof(V4) >= 32 && alignof(M4) >= 32 && alignof(Own) >= 32, "the alignment of these types is beyond malloc's");
V4 make(double x, const V4*) { return V4::Constant(x); }
M4 make(double x, const M4*) { return M4::Constant(float(x)); }
Own make(double x, const Own*) { return Own(x); }
double value(const V4& v) { for (int i = 1; i < 4; ++i) if (v[i] != v[0]) return -1; return v[0]; }
double value(const M4& m) { for (int i = 1; i < 16; ++i) if (m.data()[i] != m.data()[0]) return -1; return m.data()[0]; }
double value(const Own& o) { return value(o.v); }
template <class T> bool aligned(const T& t) { return reinterpret_cast<uintptr_t>(&t) % alignof(T) == 0; }
template <class C> void sequence(pbt::Source& s, const char* name) {
  typedef typename C::value_type T;
  C c;
  std::vector<double> m;
  for (size_t k = s.size(1, 40); k; --k) {
    const double x = double(s.below(1000));
    const size_t i = m.empty() ? 0 : s.below(m.size());
    switch (s.below(6)) {
      case 0: case 1: c.push_back(make(x, static_cast<T*>(nullptr))); m.push_back(x); break;
      case 2: { const size_t n = s.below(4); c.insert(std::next(c.begin(), long(i)), n, make(x, static_cast<T*>(nullptr))); m.insert(m.begin() + long(i), n, x); break; }
      case 3: if (m.empty()) break; c.erase(std::next(c.begin(), long(i))); m.erase(m.begin() + long(i)); s.nontrivial(); break;
      case 4: { const size_t n = s.below(12); c.resize(n, make(x, static_cast<T*>(nullptr))); m.resize(n, x); s.nontrivial(); break; }
      case 5: { C d(c); c = C(); c.swap(d); break; }
    }
    PBT_EQ(c.size(), m.size(), name << ": size");
    size_t j = 0;
    for (const T& t : c) {
      PBT_CHECK(aligned(t), name << ": element " << j << " of " << m.size() << " is not aligned");
      PBT_EQ(value(t), m[j], name << ": element " << j);
      ++j;
    }
  }
}
template <class C> void mapping(pbt::Source& s, const char* name, bool sorted) {
  typedef typename C::mapped_type T;
  C c;
  std::map<int, double> m;
  for (size_t k = s.size(1, 40); k; --k) {
    const int key = int(s.range(-6, 6));
    const double x = double(s.below(1000));
    switch (s.below(5)) {
      case 0: c[key] = make(x, static_cast<T*>(nullptr)); m[key] = x; break;
      case 1: PBT_EQ(c.insert(std::make_pair(key, make(x, static_cast<T*>(nullptr)))).second, m.insert(std::make_pair(key, x)).second, name << ": insert"); break;
      case 2: if (m.count(key)) s.nontrivial(); PBT_EQ(c.erase(key), m.erase(key), name << ": erase"); break;
      case 3: { C d(c); c = C(); c.swap(d); break; }
      case 4: PBT_EQ(c.find(key) == c.end(), m.find(key) == m.end(), name << ": find"); break;
    }
    PBT_EQ(c.size(), m.size(), name << ": size");
    std::vector<int> keys;
    for (auto& e : c) {
      keys.push_back(e.first);
      PBT_CHECK(aligned(e.second), name << ": the value of " << e.first << " is not aligned");
      PBT_CHECK(m.count(e.first) && value(e.second) == m[e.first], name << ": value of " << e.first);
    }
    if (sorted) PBT_CHECK(std::is_sorted(keys.begin(), keys.end()), name << ": the keys are not in order");
  }
}
}  // namespace

PBT(aligned_containers, 100000, 1500000) {
  switch (s.below(11)) {
    case 0: sequence<Aligned<std::vector, V4>::type>(s, "Aligned<vector, V4>"); break;
    case 1: sequence<Aligned<std::vector, M4>::type>(s, "Aligned<vector, M4>"); break;
    case 2: sequence<Aligned<std::deque, V4>::type>(s, "Aligned<deque, V4>"); break;
    case 3: sequence<Aligned<std::list, V4>::type>(s, "Aligned<list, V4>"); break;
    case 4: sequence<sm::eigen::Traits<V4>::vector_t>(s, "Traits<V4>::vector_t"); break;
    case 5: sequence<sm::eigen::Traits<M4>::vector_t>(s, "Traits<M4>::vector_t"); break;
    case 6: mapping<AlignedMap<int, V4>::type>(s, "AlignedMap<int, V4>", true); break;
    case 7: mapping<AlignedMap<int, Own>::type>(s, "AlignedMap<int, Own>", true); break;
    case 8: mapping<AlignedUnorderedMap<int, V4>::type>(s, "AlignedUnorderedMap<int, V4>", false); break;
    case 9: mapping<sm::eigen::MapTraits<int, V4>::map_t>(s, "MapTraits<int, V4>", true); break;
    case 10: sequence<Aligned<std::vector, Own>::type>(s, "Aligned<vector, Own>"); break;
  }
  PBT_EQ(Own::alive, 0, "objects that outlive their container");
}

PBT(owners, 100000, 1500000) {
  std::vector<std::shared_ptr<Own>> a;
  std::vector<std::shared_ptr<const Own>> ca;
  std::map<const Own*, double> m;
  {
    Own local(77);
    std::vector<boost::shared_ptr<Own>> b;
    std::vector<std::shared_ptr<const Own>> cb;
    for (size_t k = s.size(1, 20); k; --k) {
      const double x = double(s.below(1000));
      switch (s.below(8)) {
        case 7: {  // each argument is handed on as it was given: as the caller's own, as a constant, or to be moved from
          std::string u[3];
          const std::string& k = u[1];
          const int w = int(s.below(4));
          auto t = w == 0 ? aligned_shared<Taker>(u[0], k, std::move(u[2])) : w == 1 ? aligned_shared<Taker>(std::move(u[0]), u[1], k) : w == 2 ? aligned_shared<Taker>(k, std::move(u[1]), u[2]) : aligned_shared<Taker>(u[0], u[1], u[2]);
          static const char* const want[] = {"lcr", "rlc", "crl", "lll"};
          PBT_EQ(t->how, want[w], "how aligned_shared hands on what was given as " << want[w]);
          for (int i = 0; i < 3; ++i) PBT_CHECK(t->from[i] == (want[w][i] == 'c' ? &u[1] : &u[i]), "aligned_shared hands on a copy of argument " << i);
          PBT_CHECK(aligned(*t), "the object made by aligned_shared is not aligned");
          break;
        }
        case 0: { const char t = char('a' + s.below(26)); a.push_back(aligned_shared<Own>(x, t)); PBT_CHECK(a.back()->tag == t, "aligned_shared passes another second argument"); m[a.back().get()] = x; break; }
        case 1: ca.push_back(aligned_shared<const Own>(x)); m[ca.back().get()] = x; break;
        case 2: { Own o(x); a.push_back(aligned_shared<Own>(o)); m[a.back().get()] = x; break; }
        case 3: if (!a.empty()) { a.push_back(a[s.below(a.size())]); s.nontrivial(); } break;
        case 4: if (!a.empty()) { a.erase(a.begin() + long(s.below(a.size()))); s.nontrivial(); } break;
        case 5: b.push_back(boost::shared_ptr<Own>(&local, sm::null_deleter())); cb.push_back(std::shared_ptr<const Own>(&local, sm::null_deleter())); break;
        case 6: if (!b.empty()) { b.pop_back(); cb.pop_back(); s.nontrivial(); } break;
      }
      std::set<const Own*> live;
      for (auto& p : a) live.insert(p.get());
      for (auto& p : ca) live.insert(p.get());
      for (auto p : live) PBT_CHECK(aligned(*p) && value(*p) == m[p], "the object made by aligned_shared is not aligned, or another one");
      PBT_EQ(Own::alive, int(live.size()) + 1, "objects alive");
      PBT_CHECK(value(local) == 77, "a borrowed object was touched");
    }
    b.clear();
    cb.clear();
    PBT_CHECK(value(local) == 77 && local.tag == 'x', "a borrowed object was destroyed by the pointers to it");
  }
  a.clear();
  ca.clear();
  PBT_EQ(Own::alive, 0, "objects alive at the end");
}

namespace {
template <class A, class B> bool report(A done, B all) { try { sm::showProgress(done, all); return true; } catch (const std::runtime_error&) { return false; } }
}  // namespace

PBT(progress, 100000, 1000000) {
  std::ostringstream out, ref;
  const int prec = int(s.below(20));
  const bool fixed = s.flip(), sci = !fixed && s.flip(), point = s.flip();
  for (auto o : {&out, &ref}) { o->precision(prec); if (fixed) *o << std::fixed; if (sci) *o << std::scientific; if (point) *o << std::showpoint; }
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  struct Back { std::streambuf* b; std::ios f{nullptr}; Back(std::streambuf* b) : b(b) { f.copyfmt(std::cout); } ~Back() { std::cout.rdbuf(b); std::cout.copyfmt(f); } } back(old);
  std::cout.copyfmt(out);
  for (size_t k = s.size(1, 8); k; --k) {
    double p = 0;
    bool ok = true, got = true;
    const int64_t all = s.range(-1, 1000), done = s.range(0, 1000);
    switch (s.below(7)) {
      case 0: p = double(s.below(1001)) / 1000; got = [&] { try { sm::showProgress(p); return true; } catch (const std::runtime_error&) { return false; } }(); break;
      case 1: p = s.unit(); got = [&] { try { sm::showProgress(p); return true; } catch (const std::runtime_error&) { return false; } }(); break;
      case 2: got = report(int(done), int(all)); p = double(done) / double(all); break;
      case 3: got = report(size_t(done), size_t(std::max<int64_t>(all, 0))); p = double(done) / double(std::max<int64_t>(all, 0)); break;
      case 4: got = report(double(done), double(all)); p = double(done) / double(all); break;
      case 5: got = report(done * (int64_t(1) << 40), all * (int64_t(1) << 40)); p = double(done) / double(all); break;
      case 6: got = report((unsigned char)(done % 200), (unsigned char)(std::max<int64_t>(all, 0) % 200)); p = double(done % 200) / double(std::max<int64_t>(all, 0) % 200); break;
    }
    ok = p >= 0 && p <= 1 && std::isfinite(p) && !(std::signbit(p));
    PBT_EQ(got, ok, "progress of " << p << " is reported");
    if (got) {
      char b[64];
      if (p >= 1) ref << "\rComplete!             \n";
      else { std::snprintf(b, sizeof b, "\r%.2f%% complete ", 100 * p); ref << b; if (p > 0) s.nontrivial(); }
    }
    PBT_EQ(out.str(), ref.str(), "what is printed");
    const double x = 0.1 + s.unit() * 100;
    std::cout << x << "|";
    ref << x << "|";
    PBT_EQ(out.str(), ref.str(), "a number printed after the progress");
  }
}

PBT(source_positions, 20000, 100000) {
  const size_t most = s.chance(1, 4) ? 1200 : 30;
  const std::string file = s.str("abc/. \\%", most), fn = s.str("fgh<>:", most);
  const int line = int(s.anyInt(-2147483648LL, 2147483647LL));
  sm::source_file_pos p(fn, file, line);
  const std::string want = file + ":" + std::to_string(line) + ": " + fn + "()";
  if (line > 9) s.nontrivial();
  {
    const OtherLocale locale(s.chance(1, 3));
    PBT_EQ(p.toString(), want, "toString");
    PBT_EQ(std::string(p), want, "conversion to a string");
    std::string said;
    try { SM_THROW_SFP(std::runtime_error, p, "a message"); } catch (const std::runtime_error& e) { said = e.what(); }
    PBT_EQ(said, "[std::runtime_error] " + want + " a message", "the message of an exception thrown for the position");
  }
  std::ostringstream o;
  o << std::setw(3) << "" << p << "|";
  PBT_EQ(o.str(), "   " + want + "|", "stream");
  PBT_CHECK(p.file == file && p.function == fn && p.line == line, "members");
  const sm::source_file_pos here = SM_SOURCE_FILE_POS; const int l = __LINE__;
  PBT_CHECK(here.line == l && here.function == __FUNCTION__ && here.file == __FILE__, "the macro names " << here.toString());
}

namespace {
struct Named { const char* what; bool holds; };
#define SAME(A, B) Named{#A " is " #B, std::is_same<A, B>::value}
template <class T> void traits(std::vector<Named>& v) {
  using namespace sm::common;
  typedef const T CT; typedef T& R; typedef const T& CR; typedef T* P; typedef const T* CP;
  for (Named n : {SAME(typename StripReference<T>::result_t, T), SAME(typename StripReference<R>::result_t, T), SAME(typename StripReference<CT>::result_t, CT), SAME(typename StripReference<CR>::result_t, CT),
                  SAME(typename StripConstReference<T>::result_t, T), SAME(typename StripConstReference<R>::result_t, T), SAME(typename StripConstReference<CT>::result_t, T), SAME(typename StripConstReference<CR>::result_t, T),
                  SAME(typename StripConstPtr<T>::result_t, T), SAME(typename StripConstPtr<P>::result_t, T), SAME(typename StripConstPtr<CT>::result_t, T), SAME(typename StripConstPtr<CP>::result_t, T),
                  SAME(typename AddReference<T>::result_t, R), SAME(typename AddReference<R>::result_t, R), SAME(typename AddReference<CT>::result_t, CR), SAME(typename AddReference<CR>::result_t, CR),
                  SAME(typename AddConstReference<T>::result_t, CR), SAME(typename AddConstReference<R>::result_t, CR), SAME(typename AddConstReference<CT>::result_t, CR), SAME(typename AddConstReference<CR>::result_t, CR),
                  SAME(typename AddPtr<T>::result_t, P), SAME(typename AddPtr<P>::result_t, P), SAME(typename AddPtr<CT>::result_t, CP), SAME(typename AddPtr<CP>::result_t, CP),
                  SAME(typename AddConstPtr<T>::result_t, CP), SAME(typename AddConstPtr<P>::result_t, CP), SAME(typename AddConstPtr<CT>::result_t, CP), SAME(typename AddConstPtr<CP>::result_t, CP),
                  Named{"IsReferenceType", !IsReferenceType<T>::value && !IsReferenceType<CT>::value && !IsReferenceType<P>::value && IsReferenceType<R>::value && IsReferenceType<CR>::value},
                  Named{"IsPointerType", !IsPointerType<T>::value && !IsPointerType<CT>::value && !IsPointerType<R>::value && IsPointerType<P>::value && IsPointerType<CP>::value},
                  Named{"SameType of the same", SameType<T, T>::value && SameType<CR, CR>::value && SameType<CP, CP>::value},
                  Named{"SameType of others", !SameType<T, CT>::value && !SameType<T, R>::value && !SameType<P, CP>::value && !SameType<T, Own>::value && !SameType<R, CR>::value}})
    v.push_back(n);
}
struct Shape { int rows, cols, wantRows, wantCols; bool matrix, got; };
template <int R, int C, int WR, int WC> void shape(std::vector<Shape>& v) {
  typedef Eigen::Matrix<double, R, C, (R == 1 && C != 1) ? Eigen::RowMajor : Eigen::ColMajor> T;
  g_holds = false;
  EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE_OR_DYNAMIC(T, WR, WC);
  v.push_back(Shape{R, C, WR, WC, true, g_holds});
  g_holds = false;
  EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE_OR_DYNAMIC(T, WR);
  v.push_back(Shape{R, C, WR, 0, false, g_holds});
}
template <int R, int C> void shapes(std::vector<Shape>& v) { shape<R, C, 1, 1>(v); shape<R, C, 2, 3>(v); shape<R, C, 3, 2>(v); shape<R, C, 3, 3>(v); shape<R, C, 1, 3>(v); shape<R, C, 3, 1>(v); }
template <int R> void rows(std::vector<Shape>& v) { shapes<R, 1>(v); shapes<R, 2>(v); shapes<R, 3>(v); shapes<R, Eigen::Dynamic>(v); }
}  // namespace

PBT(types, 20000, 50000) {
  static std::vector<Named> t;
  static std::vector<Shape> v;
  if (t.empty()) {
    traits<int>(t); traits<std::string>(t); traits<V4>(t);
    rows<1>(v); rows<2>(v); rows<3>(v); rows<Eigen::Dynamic>(v);
  }
  const size_t i = s.below(t.size() + v.size());
  if (i < t.size()) { PBT_CHECK(t[i].holds, "not so: " << t[i].what); return; }
  const Shape& q = v[i - t.size()];
  const bool vec = q.rows == 1 || q.cols == 1;
  const int size = q.rows < 0 || q.cols < 0 ? -1 : q.rows * q.cols;
  const bool want = q.matrix ? (q.rows < 0 || q.rows == q.wantRows) && (q.cols < 0 || q.cols == q.wantCols) : vec && (size < 0 || size == q.wantRows);
  if (q.rows < 0 || q.cols < 0) s.nontrivial();
  PBT_EQ(q.got, want, "a matrix of " << q.rows << " by " << q.cols << (q.matrix ? " as one of " : " as a vector of ") << q.wantRows << " by " << q.wantCols);
}
