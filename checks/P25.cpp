// P25: time conversions, and the printed form of durations.
#include <cmath>
#include <cstdlib>
#include <ctime>
#include <limits>

#include <boost/date_time/posix_time/posix_time.hpp>
#include <sm/boost/ptime.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/Timer.hpp>
#include "pbt.hpp"

PBT_PROPERTY("P25", "a case is non-trivial when the instant or duration is not a whole number of seconds, or, for validity, when it is drawn near the reserved value")

namespace st = sm::timing;
namespace {
typedef long double L;
typedef std::chrono::system_clock Clock;
const int64_t MIN = std::numeric_limits<int64_t>::min(), MAX = std::numeric_limits<int64_t>::max();

int64_t instant(pbt::Source& s) {
  const int64_t second = 1000000000;
  switch (s.below(6)) {
    case 0: return s.anyInt(MIN, MAX);
    case 1: return s.range(-1000, 1000);
    case 2: return 1700000000 * second + s.range(-second, second);
    case 3: return s.range(-4000000000LL, 4000000000LL) * second + s.pick({int64_t(0), int64_t(1), int64_t(-1), second / 2, second - 1});
    case 4: return s.range(-(int64_t(1) << 52), int64_t(1) << 52);
    default: return s.range(0, second) * s.pick({int64_t(1), int64_t(10), int64_t(1000), int64_t(1000000)});
  }
}

// The instants these conversions speak of do not depend on the time zone of the machine.
struct Zone {
  std::string name;
  explicit Zone(pbt::Source& s) : name(s.pick({"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "LINT-14"})) {
    setenv("TZ", name.c_str(), 1);
    tzset();
  }
};
}  // namespace

PBT(chrono, 200000, 4000000) {
  const int64_t n = instant(s);
  PBT_NOTE(s, "ns " << n);
  if (n % 1000000000) s.nontrivial();
  const Clock::time_point t = st::nsecToChrono(n);
  PBT_CHECK(t.time_since_epoch() == std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(n)), n);
  if (std::is_same<Clock::period, std::nano>::value) {
    PBT_EQ(st::chronoToNsec(t), n, "");
  } else {
    PBT_CHECK(st::nsecToChrono(st::chronoToNsec(t)) == t, n);
  }
  PBT_EQ(std::chrono::nanoseconds(t.time_since_epoch()).count(), st::chronoToNsec(t), "");
  const int64_t m = instant(s);
  PBT_EQ(n < m, st::nsecToChrono(n) < st::nsecToChrono(m), n << " and " << m);
}

PBT(seconds, 200000, 4000000) {
  const int64_t n = instant(s);
  PBT_NOTE(s, "ns " << n);
  if (n % 1000000000) s.nontrivial();
  const double sec = st::nsecToSec(n);
  const L want = L(n) * 1e-9L;
  PBT_CHECK(std::fabs(L(sec) - want) <= std::fabs(want) * 4e-16L, n << " ns are " << sec << " s");
  const int64_t m = s.flip() ? instant(s) : (n == MAX ? n : n + 1);
  PBT_CHECK(n <= m ? sec <= st::nsecToSec(m) : sec >= st::nsecToSec(m), "not monotone: " << n << " and " << m);
  const L limit = 9.2e18L;  // beyond, the nearest double may be out of range of the integers
  if (std::fabs(L(n)) <= limit) {
    const int64_t back = st::secToNsec(sec);
    const L tol = std::fabs(L(n)) <= L(int64_t(1) << 50) ? 0 : std::fabs(L(n)) * 6e-16L + 1;
    PBT_CHECK(std::fabs(L(back) - L(n)) <= tol, n << " ns are " << sec << " s, which are " << back << " ns");
    PBT_NEAR(st::nsecToSec(back), sec, std::fabs(sec) * 5e-16, "seconds and back");
  }
}

PBT(from_seconds, 200000, 4000000) {
  double v;
  switch (s.below(4)) {
    case 0: v = s.uniform(-10, 10); break;
    case 1: v = double(s.range(-1000000, 1000000)) / s.pick({10.0, 100.0, 1000.0, 1e6}); break;  // decimal literals
    case 2: v = 1.7e9 + s.uniform(-1e6, 1e6); break;
    default: v = s.signedLog(1e-9, 9e9); break;
  }
  PBT_NOTE(s, "s " << v);
  if (v != std::floor(v)) s.nontrivial();
  const int64_t n = st::secToNsec(v);
  const L want = L(v) * 1e9L;
  // cut off or rounded, to a nanosecond
  PBT_CHECK(std::fabs(L(n) - want) <= 1.0L + std::fabs(want) * 3e-16L, v << " s are " << n << " ns");
  const double w = s.flip() ? std::nextafter(v, 1e300) : v + s.unit();
  PBT_CHECK(n <= st::secToNsec(w), "not monotone: " << v << " and " << w);
}

PBT(validity, 100000, 1000000) {
  const int64_t invalid = st::getInvalidTime();
  int64_t n;
  switch (s.below(4)) {
    case 0: n = invalid; break;
    case 1: n = invalid == MIN ? MIN + s.range(0, 10) : invalid + s.range(-5, 5); break;
    case 2: n = s.pick({MIN, MAX, int64_t(0), int64_t(-1), int64_t(1)}); break;
    default: n = instant(s); break;
  }
  PBT_NOTE(s, "ns " << n);
  if (std::fabs(L(n) - L(invalid)) < 100) s.nontrivial();
  PBT_EQ(st::isValid(n), n != invalid, n);
  PBT_EQ(invalid, MIN, "the documented reserved value");
}

PBT(now, 20000, 200000) {
  const Zone zone(s);
  s.nontrivial();
  PBT_NOTE(s, "zone " << zone.name);
  for (int attempt = 0;; ++attempt) {
    const int64_t a = st::chronoToNsec(Clock::now());
    const int64_t n = st::nsecNow();
    const int64_t b = st::chronoToNsec(Clock::now());
    if (a <= n && n <= b) break;
    PBT_CHECK(attempt < 5, "now is " << n << " between " << a << " and " << b);  // the clock may have been set meanwhile
  }
  PBT_CHECK(st::isValid(st::nsecNow()), "");
}

PBT(time_strings, 300000, 6000000) {
  double v;
  const double around = s.pick({60.0, 3600.0, 86400.0, 1.0, 36000.0});
  switch (s.below(6)) {
    case 0: v = s.uniform(0, 200); break;
    case 1: v = around * double(s.range(0, 2000)) + s.pick({0.0, -1e-9, -4e-7, -5e-7, -6e-7, -1e-6, 1e-6, 4e-7, 6e-7}); break;
    case 2: v = std::nextafter(around * double(s.range(0, 100000)), s.flip() ? 0.0 : 1e300); break;
    case 3: v = s.logUniform(1e-9, 1e12); break;
    case 4: v = double(s.range(0, 100000000)) * 1e-6; break;
    default: v = double(s.range(0, int64_t(1) << 40)); break;
  }
  if (v < 0) v = 0;
  PBT_NOTE(s, "s " << v);
  if (v != std::floor(v)) s.nontrivial();
  const std::string t = st::Timing::secondsToTimeString(v);
  // digits+ : two digits : two digits . six digits
  const size_t c = t.find(':');
  bool ok = c != std::string::npos && c >= 2 && t.size() == c + 1 + 2 + 1 + 9 && t[c + 3] == ':' && t[c + 6] == '.';
  for (size_t i = 0; ok && i < t.size(); ++i) ok = i == c || i == c + 3 || i == c + 6 || (t[i] >= '0' && t[i] <= '9');
  PBT_CHECK(ok, v << " s are printed as " << pbt::show(t));
  const L h = std::strtold(t.substr(0, c).c_str(), nullptr), m = std::atoi(t.substr(c + 1, 2).c_str()), sec = std::strtold(t.substr(c + 4).c_str(), nullptr);
  PBT_CHECK(m < 60 && sec < 60, v << " s are printed as " << t);
  const L back = h * 3600 + m * 60 + sec;
  PBT_CHECK(std::fabs(back - L(v)) <= 0.5e-6L + 1e-12L + 1e-18L * L(v), v << " s are printed as " << t << ", off by " << double(back - L(v)));
}

PBT(civil_time, 100000, 2000000) {
  const Zone zone(s);
  namespace pt = boost::posix_time;
  namespace gr = boost::gregorian;
  const pt::ptime epoch(gr::date(1970, 1, 1));
  const int64_t lo = -(int64_t(1) << 33), hi = int64_t(1) << 37;  // years 1697 to 6325
  const int64_t sec = s.flip() ? s.range(lo, hi) : s.pick({int64_t(0), int64_t(-1), int64_t(2147483647), int64_t(2147483648LL), int64_t(1), int64_t(-2147483648LL), int64_t(1700000000), int64_t(4294967296LL)});
  const int64_t us = s.flip() ? s.range(0, 999999) : s.pick({0, 1, 999999, 500000});
  PBT_NOTE(s, sec << " s " << us << " us in zone " << zone.name);
  if (us) s.nontrivial();
  const pt::ptime t = epoch + pt::hours(long(sec / 3600)) + pt::seconds(long(sec % 3600)) + pt::microseconds(us);
  const timeval tv = sm::ptimeToTimeval(t);
  PBT_EQ(int64_t(tv.tv_sec), sec, to_simple_string(t));
  PBT_EQ(int64_t(tv.tv_usec), us, to_simple_string(t));
}
