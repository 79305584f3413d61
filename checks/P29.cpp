// P29: random number helpers.
#include "pbt.hpp"
#include "selfrun.hpp"
#include <algorithm>
#include <set>
#include <sm/eigen/random.hpp>
#include <sm/random.hpp>

PBT_PROPERTY("P29",
             "Seeds from edges and uniform 64-bit values; programs of up to 60 calls over all generators with reseeding in between; bounds "
             "from ordinary, tiny, adjacent-double, huge and integer-extreme ranges; samples of 4000 to 20000 draws for the distribution. "
             "Non-trivial: a program mixes at least two generators or reseeds, a range is not [0,1), a distribution sample was tested.")

using namespace sm::random;

struct Call { int k; double lo, hi; int ilo, ihi; };
static double call(const Call& c) {
  switch (c.k) {
    case 0: return normal();
    case 1: return randn();
    case 2: return uniform();
    case 3: return sm::random::rand();
    case 4: return randLU(c.lo, c.hi);
    case 5: return double(randLUi(c.ilo, c.ihi));
    default: { Eigen::VectorXd v = sm::eigen::randn(3); return v[0] + 7 * v[1] + 31 * v[2]; }
  }
}
static uint64_t seedOf(pbt::Source& s) { return s.flip() ? s.below(100) : s.flip() ? s.bits64() : s.below(uint64_t(1) << 32); }

PBT(reproducible, 6000, 60000) {
  uint64_t sd = seedOf(s);
  std::vector<Call> pr;
  size_t n = s.size(1, 60);
  std::set<int> kinds;
  for (size_t i = 0; i < n; ++i) {
    Call c;
    c.k = int(s.below(7));
    c.lo = s.real(100);
    c.hi = c.lo + s.logUniform(1e-3, 1e3);
    c.ilo = int(s.range(-100, 100));
    c.ihi = c.ilo + int(s.range(1, 1000));
    pr.push_back(c);
    kinds.insert(c.k);
  }
  if (kinds.size() > 1) s.nontrivial();
  PBT_NOTE(s, "seed " << sd << ", " << n << " calls of " << kinds.size() << " kinds");
  auto runAll = [&]() { std::vector<double> r; for (auto& c : pr) r.push_back(call(c)); return r; };
  seed(sd);
  std::vector<double> a = runAll();
  size_t extra = s.size(0, 5);  // whatever was drawn since must not matter
  for (size_t i = 0; i < extra; ++i) call(pr[s.below(pr.size())]);
  seed(sd);
  std::vector<double> b = runAll();
  for (size_t i = 0; i < n; ++i) PBT_CHECK(pbt::sameBits(a[i], b[i]), "call " << i << " of kind " << pr[i].k << " differs after reseeding: " << a[i] << " " << b[i]);
  seed(sd);
  size_t cut = s.size(0, n);
  for (size_t i = 0; i < cut; ++i) call(pr[i]);
  seed(sd);
  b = runAll();
  for (size_t i = 0; i < n; ++i) PBT_CHECK(pbt::sameBits(a[i], b[i]), "after an interrupted run call " << i << " differs");
}

// the same seed gives the same sequence in every run of the program
static void draw(uint64_t sd, unsigned kinds, std::vector<std::string>& out) {
  seed(sd);
  for (unsigned i = 0; i < 24; ++i) {
    Call c;
    c.k = int((kinds >> (i % 8 * 3) & 7) % 7);
    c.lo = -3; c.hi = 1000; c.ilo = -1000000; c.ihi = 1000000;
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", call(c));
    out.push_back(b);
  }
}
static OtherRun drawsOfARun("P29_SEED", [](const char* v) {
  unsigned long long sd = 0;
  unsigned kinds = 0;
  std::sscanf(v, "%llu %u", &sd, &kinds);
  std::vector<std::string> l;
  draw(sd, kinds, l);
  for (const auto& x : l) std::printf("%s\n", x.c_str());
});
PBT(across_runs, 15, 100, (pbt::Options{60, false, 2})) {
  const uint64_t sd = seedOf(s);
  const unsigned kinds = unsigned(s.bits64());
  PBT_NOTE(s, "seed " << sd << " calls " << kinds);
  s.nontrivial();
  std::vector<std::string> here, a, b;
  if (s.flip()) draw(s.bits64(), kinds, a), a.clear();
  draw(sd, kinds, here);
  const std::string v = std::to_string(sd) + " " + std::to_string(kinds);
  if (!OtherRun::lines("P29_SEED", v, a) || !OtherRun::lines("P29_SEED", v, b)) s.discard();
  PBT_CHECK(a == b, "two runs draw the same");
  PBT_CHECK(a == here, "another run draws the same as this one");
}

PBT(seeds_differ, 6000, 60000) {
  uint64_t x = s.below(uint64_t(1) << 32), y = s.flip() ? x ^ (uint64_t(1) << s.below(32)) : s.below(uint64_t(1) << 32);
  if (x == y) s.discard();
  s.nontrivial();
  int k = int(s.below(4));
  Call c{k, 0, 0, 0, 0};
  seed(x);
  std::vector<double> a, b;
  for (int i = 0; i < 8; ++i) a.push_back(call(c));
  seed(y);
  for (int i = 0; i < 8; ++i) b.push_back(call(c));
  PBT_CHECK(a != b, "seeds " << x << " and " << y << " give the same sequence");
}

PBT(streams_agree, 4000, 40000) {  // synonyms draw from the same stream
  uint64_t sd = seedOf(s);
  s.nontrivial();
  seed(sd);
  double u1 = uniform(), n1 = normal(), u2 = uniform(), n2 = normal();
  seed(sd);
  double v1 = sm::random::rand(), m1 = randn(), v2 = sm::random::rand(), m2 = randn();
  PBT_CHECK(u1 == v1 && u2 == v2 && n1 == m1 && n2 == m2, "rand/randn are uniform/normal");
  unsigned dim = unsigned(s.range(0, 12));
  seed(sd);
  Eigen::VectorXd e = sm::eigen::randn(dim);
  PBT_EQ(e.size(), long(dim), "dimension");
  seed(sd);
  for (unsigned i = 0; i < dim; ++i) PBT_EQ(e[i], normal(), "element " << i);
}

PBT(ranges, 60000, 900000) {
  seed(seedOf(s));
  double lo, hi;
  switch (s.below(5)) {
    case 0: lo = s.real(1000); hi = lo + s.logUniform(1e-9, 1e6); break;
    case 1: { lo = s.signedLog(1e-5, 1e18); hi = lo; int k = int(s.range(1, 4)); for (int i = 0; i < k; ++i) hi = std::nextafter(hi, INFINITY); s.label("adjacent"); break; }
    case 2: lo = s.signedLog(1e-300, 1e300); hi = s.signedLog(1e-300, 1e300); if (lo > hi) std::swap(lo, hi); break;
    case 3: lo = -s.logUniform(1e-300, 1e-290); hi = s.logUniform(1e-300, 1e-290); break;
    default: lo = double(s.anyInt(-(int64_t(1) << 53), int64_t(1) << 53)); hi = lo + double(s.range(1, 5)); break;
  }
  if (!(lo < hi)) s.discard();
  int ilo = int(s.anyInt(INT32_MIN, INT32_MAX - 1)), ihi = int(s.anyInt(int64_t(ilo) + 1, INT32_MAX));
  PBT_NOTE(s, "[" << lo << "," << hi << ") [" << ilo << "," << ihi << ")");
  s.nontrivial();
  bool wide = int64_t(ihi) - ilo > INT32_MAX;
  if (wide) s.label("wider than INT_MAX");
  for (int i = 0; i < 20; ++i) {
    double u = i & 1 ? uniform() : sm::random::rand();
    PBT_CHECK(u >= 0 && u < 1, "uniform " << u);
    double v = randLU(lo, hi);
    PBT_CHECK(v >= lo && v < hi, "randLU(" << lo << "," << hi << ") = " << v);
    int k = randLUi(ilo, ihi);
    PBT_CHECK(k >= ilo && k < ihi, "randLUi(" << ilo << "," << ihi << ") = " << k);
    double g = normal();
    PBT_CHECK(std::isfinite(g) && std::fabs(g) < 12, "normal " << g);
  }
}

PBT(integers_attainable, 1500, 10000) {
  seed(seedOf(s));
  int w = int(s.range(1, 16)), lo = int(s.anyInt(INT32_MIN, INT32_MAX - 16));
  s.nontrivial();
  std::vector<int> n(size_t(w), 0);
  int N = 1200;
  for (int i = 0; i < N; ++i) {
    int v = randLUi(lo, lo + w);
    PBT_CHECK(v >= lo && v < lo + w, "out of range");
    ++n[size_t(v - lo)];
  }
  double chi = 0, e = double(N) / w;
  for (int i = 0; i < w; ++i) {
    PBT_CHECK(n[size_t(i)] > 0, "value " << lo + i << " of [" << lo << "," << lo + w << ") was never drawn in " << N << " draws");
    chi += (n[size_t(i)] - e) * (n[size_t(i)] - e) / e;
  }
  PBT_CHECK(chi < 90, "chi square " << chi << " over " << w << " values");
}

static void law(std::vector<double> v, double (*cdf)(double), const char* what) {
  size_t n = v.size();
  double mean = 0;
  for (double x : v) mean += cdf(x);
  mean /= double(n);
  double c1 = 0, var = 0;
  for (size_t i = 0; i + 1 < n; ++i) c1 += (cdf(v[i]) - 0.5) * (cdf(v[i + 1]) - 0.5);
  for (double x : v) var += (cdf(x) - 0.5) * (cdf(x) - 0.5);
  double r = c1 / var * std::sqrt(double(n));
  PBT_CHECK(std::fabs(r) < 7, what << ": serial correlation " << r << " sigma");
  std::sort(v.begin(), v.end());
  double D = 0;
  for (size_t i = 0; i < n; ++i) {
    double f = cdf(v[i]);
    D = std::max(D, std::max(double(i + 1) / double(n) - f, f - double(i) / double(n)));
  }
  PBT_CHECK(D * std::sqrt(double(n)) < 3.6, what << ": Kolmogorov-Smirnov statistic " << D * std::sqrt(double(n)) << " for " << n << " draws");
}
static double uCdf(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double nCdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }

PBT(distributions, 200, 2500) {
  uint64_t sd = seedOf(s);
  s.nontrivial();
  size_t n = s.size(4000, 20000);
  PBT_NOTE(s, "seed " << sd << " n " << n);
  seed(sd);
  std::vector<double> u, g, l, m;
  double lo = s.real(100), w = s.logUniform(1e-3, 1e6);
  int ilo = int(s.range(-1000000, 1000000)), iw = int(s.logUniform(1e6, 3e9 < INT32_MAX ? 3e9 : 2e9));
  iw = std::min(iw, INT32_MAX - 1000001);
  for (size_t i = 0; i < n; ++i) {
    u.push_back(uniform());
    g.push_back(normal());
    l.push_back((randLU(lo, lo + w) - lo) / w);
    m.push_back((double(randLUi(ilo, ilo + iw)) - ilo + 0.5) / iw);
  }
  law(u, uCdf, "uniform");
  law(g, nCdf, "normal");
  law(l, uCdf, "randLU");
  law(m, uCdf, "randLUi");
}
