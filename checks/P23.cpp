// P23: one-way timestamp correction against an exact lower convex hull of the whole history.
#include <cmath>
#include <iostream>
#include <memory>
#include <vector>

#include <algorithm>
#include <sm/timing/TimestampCorrector.hpp>
#include "pbt.hpp"

PBT_PROPERTY("P23", "a case is non-trivial when some history held at least four stamps and a hull of at least three points, or the corrector switched")

namespace {
typedef __int128 I;
typedef long double L;
struct Pt { int64_t x, y; };
I cross(const Pt& a, const Pt& b, const Pt& p) {
  return I(b.x - a.x) * I(p.y - a.y) - I(b.y - a.y) * I(p.x - a.x);
}
I mag(I v) { return v < 0 ? -v : v; }

/// what a corrector that was fed these stamps must answer
struct Model {
  std::vector<Pt> all, inc;  ///< the history; the lower hull kept incrementally, with points on its edges
  bool unsure = false;       ///< a decision was closer than the arithmetic of the stamps resolves
  void add(Pt p, L band) {
    auto above = [&](const Pt& a, const Pt& b, const Pt& q) {
      const I d = cross(a, b, q);
      const L B = L(mag(I(b.x - a.x) * I(q.y - a.y))) + L(mag(I(b.y - a.y) * I(q.x - a.x)));
      if (d != 0 && L(mag(d)) <= band * B) unsure = true;
      return d >= 0;
    };
    all.push_back(p);
    if (inc.size() >= 2 && !above(inc[inc.size() - 2], inc.back(), p))
      while (inc.size() >= 2 && above(inc[inc.size() - 2], p, inc.back())) inc.pop_back();
    inc.push_back(p);
  }
  int64_t span() const { return inc.size() > 2 ? inc.back().y - inc[0].y : 0; }
  /// strict lower hull of the history, from scratch
  std::vector<Pt> hull() const {
    std::vector<Pt> h;
    for (const Pt& p : all) {
      while (h.size() >= 2 && cross(h[h.size() - 2], h.back(), p) <= 0) h.pop_back();
      h.push_back(p);
    }
    return h;
  }
  void clear() { *this = Model(); }
};

template <typename T> struct Unit;
template <> struct Unit<int64_t> {
  static const bool integer = true;
  static int64_t to(int64_t v, int) { return v; }
  static L from(int64_t v, int) { return L(v); }
  static const char* name() { return "int64"; }
};
template <> struct Unit<double> {
  static const bool integer = false;
  static double to(int64_t v, int k) { return std::ldexp(double(v), -k); }
  static L from(double v, int k) { return std::ldexp(L(v), k); }
  static const char* name() { return "double"; }
};

template <typename T>
struct Tester {
  typedef sm::timing::TimestampCorrector<T> TC;
  typedef Unit<T> U;
  pbt::Source& s;
  int k;  ///< a double stamp is an integer times 2^-k
  L band = U::integer ? 1e-17L : 1e-15L;
  bool nontrivial = false;
  struct One {
    TC tc;
    Model m;
    std::shared_ptr<Model> pending;
  };
  Tester(pbt::Source& src, int shift) : s(src), k(shift) {}

  static std::string text(const Model& m) {
    std::ostringstream os;
    for (const Pt& p : m.all) os << "(" << p.x << "," << p.y << ") ";
    return os.str();
  }
  /// v lies on one of the lines that span the middle of the history, up to the resolution of T
  bool onLine(const Model& m, int64_t x, L v, std::string& why) {
    const std::vector<Pt> h = m.hull();
    const I mid2 = I(h[0].x) + I(h.back().x);
    bool ok = false;
    std::ostringstream os;
    for (size_t i = 0; i + 1 < h.size(); ++i) {
      if (I(2) * h[i].x > mid2 + 2 || I(2) * h[i + 1].x < mid2 - 2) continue;
      const I num = I(h[i + 1].y - h[i].y) * I(x - h[i].x), den = I(h[i + 1].x - h[i].x);
      const I q = num / den;
      const L rise = L(q) + L(num - q * den) / L(den);
      // the difference to the stamp at the beginning of the line is what has to be accurate
      L tol = std::fabs(rise) * 1e-14L;
      // a line through inner points of this edge may be used
      const L far = std::fabs(L(x - h[i].x)), sl = std::fabs(L(h[i + 1].y - h[i].y)) / L(den);
      tol += (far + L(den)) * sl * 1e-14L;
      if (U::integer) tol += 2;
      else tol += (std::fabs(L(h[i].y)) + std::fabs(rise)) * 1e-15L + 1e-12L;
      const L got = U::integer ? (v - L(h[i].y)) - rise : v - L(h[i].y) - rise;
      if (std::fabs(got) <= tol) ok = true;
      os << " off by " << double(got) << " units (tolerance " << double(tol) << ") from the line (" << h[i].x << "," << h[i].y << ")-(" << h[i + 1].x << "," << h[i + 1].y << ")";
    }
    why = os.str();
    return ok;
  }
  void queries(One& o) {
    const TC& tc = o.tc;
    const std::string h = text(o.m);
    if (o.m.unsure) return;
    if (o.m.all.size() < 2) {
      PBT_THROWS(tc.getLocalTime(U::to(5, k)), typename TC::NotInitializedException, h);
      PBT_THROWS(tc.getSlope(), typename TC::NotInitializedException, h);
      PBT_THROWS(tc.getOffset(), typename TC::NotInitializedException, h);
      PBT_CHECK(tc.span() == T(0), h);
      PBT_EQ(tc.convexHullSize(), o.m.all.size(), h);
      return;
    }
    const std::vector<Pt> hull = o.m.hull();
    PBT_CHECK(tc.convexHullSize() >= hull.size() && tc.convexHullSize() <= o.m.inc.size(), "the hull has " << tc.convexHullSize() << " points: " << h);
    PBT_CHECK(U::from(tc.span(), k) == L(tc.convexHullSize() > 2 ? o.m.all.back().y - o.m.all[0].y : 0), "span " << tc.span() << ": " << h);
    const int64_t lo = o.m.all[0].x, hi = o.m.all.back().x, w = hi - lo;
    const size_t n = s.size(0, 3);
    std::string why;
    for (size_t i = 0; i < n; ++i) {
      int64_t x;
      switch (s.below(4)) {
        case 0: x = s.range(lo, hi); break;
        case 1: x = hi + s.range(0, w); break;
        case 2: x = lo - s.range(0, w); break;
        default: x = o.m.all[s.below(o.m.all.size())].x; break;
      }
      const T got = tc.getLocalTime(U::to(x, k));
      PBT_CHECK(onLine(o.m, x, U::from(got, k), why), "local time of " << x << " is " << got << why << " history " << h);
      PBT_CHECK(tc.getLocalTime(U::to(x, k)) == got, "a query changed the state: " << h);
    }
    if (s.chance(1, 3)) {
      // slope and offset describe the same line
      const L slope = tc.getSlope(), offset = std::ldexp(L(tc.getOffset()), U::integer ? 0 : k);
      const int64_t x = lo + w / 2;
      const L v = U::from(tc.getLocalTime(U::to(x, k)), k);
      const L tol = (std::fabs(slope) * (std::fabs(L(x)) + std::fabs(L(lo)) + L(w) * 4) + std::fabs(v) + std::fabs(offset)) * 4e-15L + (U::integer ? 2 : 1e-12L);
      PBT_CHECK(std::fabs(slope * L(x) + offset - v) <= tol, "slope " << double(slope) << " offset " << double(offset) << " at " << x << " give another local time than " << double(v) << ": " << h);
      const L v2 = U::from(tc.getLocalTime(U::to(hi, k)), k);
      const L t2 = (std::fabs(slope) * L(w) * 4 + std::fabs(v) + std::fabs(v2)) * (U::integer ? 1e-14L : 1e-14L) + (U::integer ? 4 : 1e-12L);
      PBT_CHECK(std::fabs(slope * L(hi - x) - (v2 - v)) <= t2, "slope " << double(slope) << " is not that of the line: " << h);
    }
  }
  /// period < 0: the plain corrector
  void feed(One& o, Pt p, int64_t period) {
    const T got = period < 0 ? o.tc.correctTimestamp(U::to(p.x, k), U::to(p.y, k)) : o.tc.correctTimestamp(U::to(p.x, k), U::to(p.y, k), U::to(period, k));
    o.m.add(p, band);
    const std::string h = text(o.m);
    if (!o.m.unsure) {
      const L v = U::from(got, k);
      std::string why;
      if (o.m.all.size() == 1) PBT_CHECK(got == U::to(p.y, k), "the first stamp is corrected to " << got);
      else PBT_CHECK(onLine(o.m, p.x, v, why), "the corrected time of the last stamp is " << got << why << " history " << h);
      if (o.m.all.size() >= 4 && o.m.hull().size() >= 3) nontrivial = true;
    }
    if (period < 0) return;
    // every half period at the earliest another corrector begins; it takes over when the first one spans the period
    if (!o.pending && 2 * o.m.span() > (U::integer ? period / 2 * 2 : period)) o.pending.reset(new Model());
    if (o.pending) o.pending->add(p, band);
    if (o.m.span() > period) {
      const bool unsure = o.m.unsure;
      o.m = *o.pending;
      o.m.unsure = o.m.unsure || unsure;
      o.pending.reset(new Model());
      o.pending->unsure = o.m.unsure;
      nontrivial = true;
      s.label("switched");
    } else if (o.pending && o.m.unsure) {
      o.pending->unsure = true;
    }
  }
};

template <typename T>
void history(pbt::Source& s, bool periodic, bool large) {
  typedef Unit<T> U;
  typedef sm::timing::TimestampCorrector<T> TC;
  // ints: up to epochs in ns; doubles: integers times 2^-k below 2^53 are exact
  const int k = U::integer ? 0 : s.pick({0, 22, 10, 30});
  Tester<T> t(s, k);
  const int64_t limit = U::integer ? (int64_t(1) << 62) : (int64_t(1) << 52);
  const int64_t epoch = U::integer ? 1700000000000000000LL : int64_t(1700000000) << 21;
  const int64_t x0 = s.pick({int64_t(0), int64_t(1000), -int64_t(100000), epoch});
  const int64_t y0 = s.pick({int64_t(0), x0, epoch, -int64_t(500)});
  const unsigned stepBits = large ? unsigned(s.range(20, U::integer ? 44 : 34)) : unsigned(s.range(0, 18));
  const int64_t unit = int64_t(1) << stepBits;
  const int64_t den = s.pick({int64_t(1), int64_t(1000000), int64_t(7)});
  const int64_t num = s.pick({den, den + (den > 100 ? s.range(-100, 100) : int64_t(0)), int64_t(1), 2 * den, int64_t(0)});
  const int64_t period = periodic ? s.pick({unit * 10, unit * 40, unit * 3, int64_t(1), int64_t(0)}) : -1;
  PBT_NOTE(s, U::name() << (U::integer ? std::string() : " times 2^-" + std::to_string(k)) << " rate " << num << "/" << den << (periodic ? " period " + std::to_string(period) : std::string()));
  std::vector<std::unique_ptr<typename Tester<T>::One>> cs;
  cs.emplace_back(new typename Tester<T>::One());
  int64_t x = x0, sinceFloor = unit * 8;
  const bool longRun = s.chance(1, 10);
  const size_t most = longRun ? 400 : 60;
  for (size_t n = 0; n < most && s.more(longRun ? 200 : 14); ++n) {
    const size_t which = s.below(cs.size());
    typename Tester<T>::One& o = *cs[which];
    const uint64_t op = s.below(24);
    if (op >= 22 && cs.size() < 3 && s.flip()) {
      PBT_NOTE(s, "copy " << which);
      cs.emplace_back(new typename Tester<T>::One(o));
      if (o.pending) cs.back()->pending.reset(new Model(*o.pending));
      continue;
    }
    if (op == 23 && cs.size() > 1) {
      const size_t from = s.below(cs.size());
      PBT_NOTE(s, which << " = " << from);
      o.tc = cs[from]->tc;
      o.m = cs[from]->m;
      std::shared_ptr<Model> p(cs[from]->pending ? new Model(*cs[from]->pending) : nullptr);
      o.pending = p;
      t.queries(o);
      continue;
    }
    if (op == 22) {
      PBT_NOTE(s, which << " reset");
      o.tc.reset();
      o.m.clear();
      o.pending.reset();
      // a fresh history may begin anywhere
      if (s.flip()) x = x0 - s.range(0, unit);
      t.queries(o);
      continue;
    }
    if (op == 21 && !o.m.all.empty()) {
      const int64_t back = o.m.all.back().x - s.pick({int64_t(0), int64_t(1), unit});
      PBT_NOTE(s, which << " backwards to " << back);
      if (period < 0) PBT_THROWS(o.tc.correctTimestamp(U::to(back, k), U::to(y0, k)), typename TC::TimeWentBackwardsException, t.text(o.m));
      else PBT_THROWS(o.tc.correctTimestamp(U::to(back, k), U::to(y0, k), U::to(period, k)), typename TC::TimeWentBackwardsException, t.text(o.m));
      t.queries(o);
      continue;
    }
    int64_t step;
    switch (s.below(5)) {
      default: step = unit; break;
      case 1: step = s.range(1, unit); break;
      case 2: step = 1; break;
      case 3: step = s.range(1, 8) * unit; break;
    }
    x = std::max(x, o.m.all.empty() ? x : o.m.all.back().x) + step;
    int64_t delay;
    switch (s.below(8)) {
      default: delay = s.range(0, unit); break;
      case 0: delay = 0; break;
      case 1: delay = unit; break;
      case 2: delay = s.range(0, 16) * unit; break;
      case 3: delay = (sinceFloor -= s.range(0, unit)); break;      // ever better: the hull collapses
      case 4: delay = s.range(-4, 4); break;
    }
    int64_t y = y0 + int64_t(I(x - x0) * num / den) + delay;
    if (s.chance(1, 16) && !o.m.all.empty()) y = o.m.all.back().y;  // repeated local stamp
    if (x > limit || y > limit || y < -limit || x < -limit) break;
    PBT_NOTE(s, which << " (" << x << "," << y << ")");
    t.feed(o, Pt{x, y}, period);
    if (s.chance(1, 4)) t.queries(o);
  }
  for (auto& c : cs) t.queries(*c);
  if (t.nontrivial) s.nontrivial();
  for (auto& c : cs)
    if (c->m.unsure) { s.label("beyond resolution"); break; }
}
pbt::Options opt() {
  pbt::Options o;
  o.fuzz = true;
  return o;
}
}  // namespace

PBT(nanoseconds, 40000, 1000000, opt()) { history<int64_t>(s, false, s.flip()); }
PBT(seconds, 40000, 1000000, opt()) { history<double>(s, false, s.chance(1, 4)); }
PBT(switching_nanoseconds, 30000, 600000, opt()) { history<int64_t>(s, true, s.flip()); }
PBT(switching_seconds, 30000, 600000, opt()) { history<double>(s, true, s.chance(1, 4)); }
