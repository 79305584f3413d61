// P24: timers and their registry, on a virtual clock, from one or several threads under generated schedules.
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

#include <boost/bind.hpp>
#include <boost/thread.hpp>

#include <sm/timing/Timer.hpp>
#include "pbt.hpp"
#include "sched.hpp"

PBT_PROPERTY("P24", "a case is non-trivial when at least three samples were recorded and, with several threads, one was preempted or had to wait")

using sm::timing::Timer;
using sm::timing::TimerException;
using sm::timing::Timing;
namespace {
typedef long double L;
enum What { New, Start, Stop, Destroy, Advance, Reset, Query, Handle, Unknown, Print, NewTag, Dummy, Yield, Burst };
struct Op {
  What what = Yield;
  int tag = 0, timer = 0, how = 0;
  int64_t ns = 0;
};
struct Case {
  std::vector<std::string> tags;  ///< first the shared ones, then one per thread
  int shared = 0;
  int64_t epoch = 0, tick = 0;
  std::string tz;
  std::vector<std::vector<Op>> threads;
};
struct Sample { int64_t lo, hi; };  ///< microseconds
struct Tag {
  std::vector<Sample> samples;
  int begun = 0, done = 0, handle = -1;
};
struct World {
  const Case* c = nullptr;
  std::vector<Tag> tags;
  std::map<size_t, std::string> handles;
  std::map<std::string, size_t> byName;
  int recorded = 0, extra = 0;
  bool alone = true;
} W;
void bad(const std::string& m) { sched::bad(m); }
#define WANT(COND, MSG)                                                     \
  do {                                                                      \
    if (!(COND)) {                                                          \
      std::ostringstream os_;                                               \
      os_.precision(17);                                                    \
      os_ << #COND << ": " << MSG;                                          \
      bad(os_.str());                                                       \
    }                                                                       \
  } while (0)

struct Mine {  ///< a timer of a thread
  std::unique_ptr<Timer> t;
  int tag = 0;
  bool running = false;
  int64_t from = 0, to = 0;
};
int64_t us(int64_t ns) { return ns / 1000; }

size_t handleOf(const std::string& name) {
  const size_t h = Timing::getHandle(name);
  sched::Quiet q;
  auto n = W.byName.find(name);
  if (n != W.byName.end()) WANT(n->second == h, "the handle of " << pbt::show(name) << " changed from " << n->second << " to " << h);
  auto o = W.handles.find(h);
  if (o != W.handles.end()) WANT(o->second == name, "handle " << h << " stands for " << pbt::show(o->second) << " and " << pbt::show(name));
  W.byName[name] = h;
  W.handles[h] = name;
  return h;
}
void recordBegin(const Mine& m) {
  sched::Quiet q;
  ++W.tags[size_t(m.tag)].begun;
}
void recordEnd(Mine& m, int64_t b0) {
  sched::Quiet q;
  const int64_t b1 = sched::clockNs();
  Tag& t = W.tags[size_t(m.tag)];
  ++t.done;
  ++W.recorded;
  t.samples.push_back(Sample{us(b0) - us(m.to), us(b1) - us(m.from)});
  m.running = false;
}

struct Stats {
  size_t n = 0;
  L totalLo = 0, totalHi = 0, minLo = 0, minHi = 0, maxLo = 0, maxHi = 0, recentLo = 0, recentHi = 0, mean = 0, var = 0, dev = 0;
  bool exact = true;
};
Stats stats(const std::vector<Sample>& v) {
  Stats r;
  r.n = v.size();
  for (size_t i = 0; i < v.size(); ++i) {
    const L lo = L(v[i].lo) * 1e-6L, hi = L(v[i].hi) * 1e-6L;
    r.totalLo += lo;
    r.totalHi += hi;
    if (i == 0 || lo < r.minLo) r.minLo = lo;
    if (i == 0 || hi < r.minHi) r.minHi = hi;
    if (i == 0 || lo > r.maxLo) r.maxLo = lo;
    if (i == 0 || hi > r.maxHi) r.maxHi = hi;
    if (i + 50 >= v.size()) {
      r.recentLo += lo;
      r.recentHi += hi;
    }
    r.exact = r.exact && v[i].lo == v[i].hi;
  }
  if (v.empty()) return r;
  const L k = L(std::min<size_t>(v.size(), 50));
  r.recentLo /= k;
  r.recentHi /= k;
  r.mean = r.totalLo / L(v.size());
  for (auto& x : v) {
    const L d = L(x.lo) * 1e-6L - r.mean;
    r.var += d * d / L(v.size());
    r.dev = std::max(r.dev, std::fabs(d));
  }
  return r;
}
bool within(double v, L lo, L hi, L slack) { return L(v) >= lo - slack && L(v) <= hi + slack; }

/// everything the registry says about a tag that no other thread uses
/// ordered: in the order in which they were recorded
void compare(const std::string& name, const std::vector<Sample>& samples, int how, bool ordered = true) {
  Stats s;
  {
    sched::Quiet q;
    s = stats(samples);
  }
  std::ostringstream what;
  what << "tag " << pbt::show(name) << " samples [us] ";
  for (size_t i = 0; i < samples.size() && i < 60; ++i) what << samples[i].lo << ".." << samples[i].hi << " ";
  const std::string h = what.str();
  const bool byTag = how & 1;
  const size_t k = handleOf(name);
  WANT((byTag ? Timing::getNumSamples(name) : Timing::getNumSamples(k)) == s.n, h << " got " << Timing::getNumSamples(k));
  const L eps = 1e-15L, slack = eps * L(s.n + 4) * std::fabs(s.totalHi) + 1e-18L;
  const double total = byTag ? Timing::getTotalSeconds(name) : Timing::getTotalSeconds(k);
  WANT(within(total, s.totalLo, s.totalHi, slack), "total " << total << ": " << h);
  if (!s.n) return;
  const double mean = byTag ? Timing::getMeanSeconds(name) : Timing::getMeanSeconds(k);
  WANT(within(mean, s.totalLo / L(s.n), s.totalHi / L(s.n), slack), "mean " << mean << ": " << h);
  const double mi = byTag ? Timing::getMinSeconds(name) : Timing::getMinSeconds(k);
  WANT(within(mi, s.minLo, s.minHi, std::fabs(s.minHi) * eps), "min " << mi << ": " << h);
  const double ma = byTag ? Timing::getMaxSeconds(name) : Timing::getMaxSeconds(k);
  WANT(within(ma, s.maxLo, s.maxHi, std::fabs(s.maxHi) * eps), "max " << ma << ": " << h);
  const double hz = byTag ? Timing::getHz(name) : Timing::getHz(k);
  const double period = std::isfinite(hz) ? 1.0 / hz : 0.0;
  WANT((!ordered && s.n > 50) || (!std::isnan(hz) && within(period, s.recentLo, s.recentHi, slack)), "rate " << hz << " expected one in " << double(s.recentLo) << ".." << double(s.recentHi) << ": " << h);
  if (s.exact) {
    const double var = byTag ? Timing::getVarianceSeconds(name) : Timing::getVarianceSeconds(k);
    const L m = std::fabs(s.mean) * L(s.n) * eps * 4, tol = s.var * 1e-12L + 4 * m * s.dev + m * m;
    WANT(var >= 0 && within(var, s.var, s.var, tol), "variance " << var << " expected " << double(s.var) << " within " << double(tol) << ": " << h);
  }
}

bool parseTime(const std::string& t, L& v) {
  int h, m;
  double s;
  char rest;
  if (std::sscanf(t.c_str(), "%d:%d:%lf%c", &h, &m, &s, &rest) != 3) return false;
  if (m >= 60 || s >= 60) return false;
  v = L(h) * 3600 + L(m) * 60 + L(s);
  return true;
}
bool near(L a, L b) { return std::fabs(a - b) <= 0.6e-6L + 1e-14L * std::fabs(b); }

/// the printed table names every tag once with what was recorded
void checkPrint(int how) {
  static const sm::timing::SortType kSorts[] = {sm::timing::SORT_BY_TOTAL, sm::timing::SORT_BY_MEAN, sm::timing::SORT_BY_STD,
                                                sm::timing::SORT_BY_MIN, sm::timing::SORT_BY_MAX, sm::timing::SORT_BY_NUM_SAMPLES};
  std::map<std::string, size_t> before;
  {
    sched::Quiet q;
    before = W.byName;
  }
  const std::string text = how < 6 ? Timing::print(kSorts[how]) : Timing::print();
  sched::Quiet q;
  std::istringstream in(text);
  std::string line;
  std::map<std::string, int> seen;
  WANT(std::getline(in, line) && line == "SM Timing" && std::getline(in, line), text);
  L previous = 0;
  bool first = true;
  size_t width = 0;
  while (std::getline(in, line)) {
    std::vector<std::string> cols(1);
    for (char c : line) {
      if (c == '\t') cols.emplace_back();
      else cols.back() += c;
    }
    WANT(cols.size() >= 2, "row " << pbt::show(line) << " in " << text);
    std::string name = cols[0];
    WANT(!W.alone || width == 0 || name.size() == width, "the columns do not line up: " << text);
    width = name.size();
    while (!name.empty() && name.back() == ' ') name.pop_back();
    WANT(W.byName.count(name) || !W.alone, "the table names an unknown tag " << pbt::show(name) << ": " << text);
    ++seen[name];
    if (!W.alone) continue;
    const Tag* t = nullptr;
    for (size_t i = 0; i < W.tags.size(); ++i)
      if (W.c->tags[i] == name) t = &W.tags[i];
    const Stats s = stats(t ? t->samples : std::vector<Sample>());
    WANT(std::strtoul(cols[1].c_str(), nullptr, 10) == s.n, "number of samples in row " << pbt::show(line) << " expected " << s.n);
    if (!s.n) continue;
    WANT(cols.size() == 5, "row " << pbt::show(line));
    L total, mean, dev, mi, ma;
    const std::string &p = cols[3], &r = cols[4];
    const size_t pm = p.find(" +- "), comma = r.find(',');
    WANT(pm != std::string::npos && comma != std::string::npos && p[0] == '(' && p.back() == ')' && r[0] == '[' && r.back() == ']', "row " << pbt::show(line));
    WANT(parseTime(cols[2], total) && parseTime(p.substr(1, pm - 1), mean) && parseTime(p.substr(pm + 4, p.size() - pm - 5), dev) &&
             parseTime(r.substr(1, comma - 1), mi) && parseTime(r.substr(comma + 1, r.size() - comma - 2), ma),
         "a time in row " << pbt::show(line) << " cannot be read");
    if (!s.exact) continue;
    WANT(near(total, s.totalLo) && near(mean, s.mean) && near(mi, s.minLo) && near(ma, s.maxLo), "row " << pbt::show(line) << " total " << double(s.totalLo) << " mean " << double(s.mean));
    WANT(std::fabs(dev - std::sqrt(s.var)) <= 0.6e-6L + 1e-12L * s.dev + 1e-14L * L(s.n) * s.mean, "row " << pbt::show(line) << " standard deviation " << double(std::sqrt(s.var)));
    const L keys[] = {s.totalLo, s.mean, std::sqrt(s.var), s.minLo, s.maxLo, L(s.n)};
    if (how < 6) {
      const L key = keys[how];
      WANT(first || key <= previous * (1 + 1e-12L) + 1e-9L * s.dev + 1e-14L * L(s.n) * s.mean, "rows are not sorted: " << text);
      previous = key;
      first = false;
    }
  }
  for (auto& b : before) WANT(seen[b.first] == 1, "tag " << pbt::show(b.first) << " appears " << seen[b.first] << " times: " << text);
}

void perform(const Op& o, int thread, std::vector<Mine>& mine) {
  const int own = W.c->shared + thread;
  // 0: the thread's own tag, else one of the shared ones; a thread that is alone owns all
  const int tag = W.alone ? o.tag % int(W.c->tags.size()) : (o.tag % 2 && W.c->shared ? (o.tag / 2) % W.c->shared : own);
  const std::string& name = W.c->tags[size_t(tag)];
  const bool exclusive = W.alone || tag == own;
  switch (o.what) {
    case New: {
      if (mine.size() >= 5) break;
      mine.emplace_back();
      Mine& m = mine.back();
      m.tag = tag;
      const bool stopped = o.how & 1;
      const size_t h = (o.how & 2) ? handleOf(name) : 0;
      m.from = sched::clockNs();
      if (o.how & 2) m.t.reset(stopped ? new Timer(h, true) : new Timer(h));
      else m.t.reset(stopped ? new Timer(name, true) : new Timer(name));
      m.to = sched::clockNs();
      m.running = !stopped;
      handleOf(name);
      WANT(m.t->isTiming() == m.running, "a new timer");
      break;
    }
    case Start: case Stop: {
      if (mine.empty()) break;
      Mine& m = mine[size_t(o.timer) % mine.size()];
      WANT(m.t->isTiming() == m.running, "before an operation");
      bool threw = false;
      const bool expect = (o.what == Start) == m.running;
      const int64_t b0 = sched::clockNs();
      if (!expect && o.what == Stop) recordBegin(m);
      try {
        if (o.what == Start) m.t->start();
        else m.t->stop();
      } catch (const TimerException& e) {
        threw = true;
      }
      WANT(threw == expect, (o.what == Start ? "start" : "stop") << " of a timer that is " << (m.running ? "running" : "stopped"));
      if (!threw && o.what == Start) {
        m.from = b0;
        m.to = sched::clockNs();
        m.running = true;
      } else if (!threw) {
        recordEnd(m, b0);
      }
      WANT(m.t->isTiming() == m.running, "after an operation");
      break;
    }
    case Destroy: {
      if (mine.empty()) break;
      const size_t k = size_t(o.timer) % mine.size();
      Mine& m = mine[k];
      const bool records = m.running;
      if (records) recordBegin(m);
      const int64_t b0 = sched::clockNs();
      if (o.how % 4 == 1) {  // by an exception that leaves the timed scope
        try {
          std::unique_ptr<Timer> t(std::move(m.t));
          throw 1;
        } catch (int) {
        }
      } else {
        m.t.reset();
      }
      if (records) recordEnd(m, b0);
      mine.erase(mine.begin() + long(k));
      break;
    }
    case Advance: sched::advance(o.ns); break;
    case Burst: {  // more samples than the rate looks back
      Mine m;
      m.tag = tag;
      m.t.reset(new Timer(name, true));
      handleOf(name);
      for (int64_t i = 0, n = 20 + o.ns % 60; i < n; ++i) {
        m.from = sched::clockNs();
        m.t->start();
        m.to = sched::clockNs();
        sched::advance((o.ns * (i + 1)) % 5000000);
        recordBegin(m);
        const int64_t b0 = sched::clockNs();
        m.t->stop();
        recordEnd(m, b0);
      }
      break;
    }
    case Reset:
      if (!exclusive) break;
      if (o.how & 1) Timing::reset(name);
      else Timing::reset(handleOf(name));
      handleOf(name);
      W.tags[size_t(tag)].samples.clear();
      if (o.how & 2) compare(name, W.tags[size_t(tag)].samples, o.how);
      break;
    case Query:
      if (exclusive) {
        const std::vector<Sample> v = W.tags[size_t(tag)].samples;
        compare(name, v, o.how);
      } else {
        const int least = W.tags[size_t(tag)].done;
        const size_t n = o.how & 1 ? Timing::getNumSamples(name) : Timing::getNumSamples(handleOf(name));
        const int most = W.tags[size_t(tag)].begun;
        WANT(int(n) >= least && int(n) <= most, "a shared tag has " << n << " samples, expected " << least << ".." << most);
        const double t = Timing::getTotalSeconds(name);
        WANT(t >= 0, "a total of " << t);
      }
      handleOf(name);
      break;
    case Handle: {
      const size_t h = handleOf(name);
      const std::string got = Timing::getTag(h);
      WANT(got == name, "the tag of handle " << h << " is " << pbt::show(got) << " instead of " << pbt::show(name));
      break;
    }
    case Unknown: {
      size_t h = 1000000 + size_t(o.how);
      if (W.alone) {
        h = W.byName.size() + size_t(o.how % 3);
        if (o.how == 7) h = size_t(-1);
        if (W.handles.count(h)) break;
      }
      int rejected = 0;
      auto rejects = [&](const char* what, const std::function<void()>& f) {
        try {
          f();
        } catch (const TimerException&) {
          ++rejected;
          return;
        }
        bad(std::string(what) + " accepts unknown handle " + std::to_string(h));
      };
      rejects("Timer", [&] { Timer t(h); });
      rejects("Timer", [&] { Timer t(h, true); });
      rejects("getTag", [&] { Timing::getTag(h); });
      rejects("getTotalSeconds", [&] { Timing::getTotalSeconds(h); });
      rejects("getMeanSeconds", [&] { Timing::getMeanSeconds(h); });
      rejects("getNumSamples", [&] { Timing::getNumSamples(h); });
      rejects("getVarianceSeconds", [&] { Timing::getVarianceSeconds(h); });
      rejects("getMinSeconds", [&] { Timing::getMinSeconds(h); });
      rejects("getMaxSeconds", [&] { Timing::getMaxSeconds(h); });
      rejects("getHz", [&] { Timing::getHz(h); });
      rejects("reset", [&] { Timing::reset(h); });
      break;
    }
    case Print: checkPrint(o.how); break;
    case NewTag: {
      std::string n;
      {
        sched::Quiet q;
        n = "extra " + std::to_string(W.extra++) + std::string(size_t(o.how) * 5, 'x');
      }
      handleOf(n);
      break;
    }
    case Dummy: {
      typedef sm::timing::DummyTimer D;
      D a(name), b(name, true), c(size_t(12345)), d(size_t(12345), false);
      a.start();
      a.start();
      b.stop();
      c.stop();
      d.start();
      WANT(!a.isTiming() && !b.isTiming() && !c.isTiming() && !d.isTiming(), "a dummy timer is timing");
      break;
    }
    default: sched::point(); break;
  }
}
void runOps(int thread) {
  std::vector<Mine> mine;
  for (const Op& o : W.c->threads[size_t(thread)]) perform(o, thread, mine);
  while (!mine.empty()) {
    Op o;
    o.what = Destroy;
    perform(o, thread, mine);
  }
}

struct Result { bool nontrivial, preempted; };
Result execute(const Case& c, const sched::Plan& plan) {
  W = World();
  W.c = &c;
  W.tags.resize(c.tags.size());
  W.alone = c.threads.size() == 1;
  setenv("TZ", c.tz.c_str(), 1);
  tzset();
  sched::Stats st = sched::run(plan, [&]() {
    sched::tick(c.tick);
    sched::advance(c.epoch - sched::clockNs());
    std::vector<std::unique_ptr<boost::thread>> ts;
    for (size_t k = 1; k < c.threads.size(); ++k) ts.emplace_back(new boost::thread(boost::bind(&runOps, int(k))));
    runOps(0);
    for (auto& t : ts) t->join();
    W.alone = true;
    for (size_t i = 0; i < c.tags.size(); ++i) {
      Op o;
      o.tag = int(i);
      o.what = Handle;
      std::vector<Mine> none;
      perform(o, 0, none);
      compare(c.tags[i], W.tags[i].samples, int(i), c.threads.size() == 1 || int(i) >= c.shared);
    }
    checkPrint(6);
  });
  return Result{W.recorded >= 3 && (c.threads.size() == 1 || st.preempted + st.blocked > 0), st.preempted > 0};
}

const char* const kWhat[] = {"timer", "start", "stop", "destroy", "advance", "reset", "query", "handle", "unknown", "print", "extra", "dummy", "yield", "burst"};
std::string text(const std::vector<Op>& v) {
  std::ostringstream os;
  for (const Op& o : v) {
    os << kWhat[o.what];
    if (o.what == Advance) os << " " << o.ns << " ns";
    else if (o.what <= Destroy && o.what != New) os << " #" << o.timer;
    else os << " tag " << o.tag << " how " << o.how;
    if (o.what == Burst) os << " ns " << o.ns;
    os << ", ";
  }
  return os.str();
}

std::vector<Op> ops(pbt::Source& s, unsigned avg, size_t most, bool calm) {
  std::vector<Op> v;
  {
    Op o;
    o.what = New;
    o.tag = int(s.below(8));
    o.how = int(s.below(8));
    v.push_back(o);
  }
  while (v.size() < most && s.more(avg)) {
    Op o;
    switch (s.below(20)) {
      case 0: case 1: o.what = New; break;
      case 2: case 3: case 4: o.what = Start; break;
      case 5: case 6: case 7: case 8: o.what = Stop; break;
      case 9: o.what = Destroy; break;
      default: o.what = Advance; break;
      case 13: o.what = Reset; break;
      case 14: o.what = Query; break;
      case 15: o.what = Handle; break;
      case 16: o.what = Unknown; break;
      case 17: o.what = Print; break;
      case 18: o.what = NewTag; break;
      case 19: o.what = s.pick({Yield, Dummy, Burst}); break;
    }
    o.tag = int(s.below(8));
    o.timer = int(s.below(4));
    o.how = int(s.below(8));
    if (o.what == Burst) o.ns = s.range(0, 100000);
    if (o.what == Advance) {
      const int64_t us = 1000, second = 1000000000;
      switch (s.below(calm ? 4 : 8)) {
        case 0: o.ns = s.range(0, 100) * us; break;
        case 1: o.ns = s.range(0, 5000000); break;
        case 2: o.ns = s.range(0, 100) * second; break;
        case 3: o.ns = 0; break;
        case 4: o.ns = s.range(0, 1000000) * second; break;
        case 5: o.ns = s.range(59999990, 60000010) * us; break;
        case 6: o.ns = 3600 * second - s.range(-5, 5) * us; break;
        case 7: o.ns = 1000 * second + s.range(0, 3) * us; break;
      }
    }
    v.push_back(o);
  }
  return v;
}

void runCase(pbt::Source& s, size_t threads) {
  Case c;
  c.tags = {"shared", "", "a longer tag than the others", "own 0", "own 1", "own 2", "own 3"};
  c.shared = 3;
  c.tags.resize(3 + threads);
  c.tz = s.pick({"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"});
  const int64_t second = 1000000000;
  c.epoch = s.pick({int64_t(1000000000), int64_t(1711846800) - 30, int64_t(1729990800) - 30, int64_t(0), int64_t(4000000000)}) * second;
  if (s.flip()) c.epoch += s.range(0, 40000000) * second + s.range(0, 999999999);
  c.tick = threads == 1 ? s.pick({0, 1000, 100}) : s.pick({0, 0, 1000});
  for (size_t k = 0; k < threads; ++k) c.threads.push_back(ops(s, threads == 1 ? 50 : 14, threads == 1 ? 250 : 30, threads > 1));
  const sched::Plan plan = threads == 1 ? sched::Plan() : sched::draw(s, 120);
  PBT_NOTE(s, "zone " << c.tz << " epoch " << c.epoch << " tick " << c.tick);
  for (auto& t : c.threads) PBT_NOTE(s, "thread: " << text(t));
  if (threads > 1) PBT_NOTE(s, plan.text());
  // the registry is global: a process per case
  int fd[2];
  if (pipe(fd)) PBT_FAIL("pipe");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) PBT_FAIL("fork");
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    const Result r = execute(c, plan);
    fflush(nullptr);
    _exit(100 + (r.nontrivial ? 1 : 0) + (r.preempted ? 2 : 0));  // not a code a sanitizer uses
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  ssize_t m;
  while ((m = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, size_t(m));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  if (!WIFEXITED(status) || WEXITSTATUS(status) < 100 || WEXITSTATUS(status) > 103) {
    const size_t at = got.find("SCHED:");
    PBT_FAIL((at == std::string::npos ? "the process died, wait status " + std::to_string(status) + ": " + got.substr(0, 3000) : got.substr(at, 3000)));
  }
  if ((WEXITSTATUS(status) - 100) & 1) s.nontrivial();
  if ((WEXITSTATUS(status) - 100) & 2) s.label("preempted");
}
}  // namespace

PBT(one_thread, 16000, 250000) { runCase(s, 1); }
PBT(several_threads, 16000, 250000) { runCase(s, s.size(2, 4)); }
