// P22: concurrent logging and reconfiguration, under generated schedules and faults.
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <stdexcept>
#include <vector>

#include <boost/bind.hpp>
#include <boost/thread.hpp>

#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
#include "pbt.hpp"
#include "sched.hpp"

PBT_PROPERTY("P22", "a case is non-trivial when at least two threads ran, a thread was preempted or had to wait, and a message was delivered")

namespace sml = sm::logging;
namespace {
enum What { Log, SetLevel, Enable, Disable, SetLogger, Query, Yield };
enum LoggerDoes { Nothing, Points, LogsItself, ThrowsStd, ThrowsInt, ThrowsOther, SetsLevel, EnablesStream, SetsLogger, AsksClock };
struct Op {
  What what = Log;
  int site = 0, level = 7, stream = 0;
  size_t length = 0;
  LoggerDoes logger = Nothing;
  bool nested = false;  // the arguments of the statement log, too
};
const char* const kStreams[] = {"sm", "sm.a", "sm.b", "sm.never"};
struct Write { int from, to, value; };
struct Statement {
  int site, level, stream, from = -1, to = -1, delivered = 0, logger = -1;
  size_t length;
  LoggerDoes does;
  bool settled = true, expect = false;
};

struct World {
  int clock = 0, inside = 0, configuring = 0, configs = 0, threadsSeen = 0;
  std::vector<Write> levels, loggers;
  std::vector<Write> streams[4];
  std::vector<Statement> st;
  std::map<int, int> onceDelivered, onceCalls;
  int loggersMade = 0, minLevel = 7, maxLevel = 7;
  std::string error;
} W;
void bad(const std::string& m) { sched::bad(m); }

std::string body(size_t k) {
  const Statement& s = W.st[k];
  std::string t = "[" + std::to_string(k) + "]";
  for (size_t i = 0; i < s.length; ++i) t += char('A' + (k * 7 + i) % 50);
  return t;
}
void setLogger();
size_t begin(std::vector<Write>& v, int value);
void end(std::vector<Write>& v, size_t k);
struct Strange {};

class Rec : public sml::Logger {
 public:
  explicit Rec(int id) : id_(id), canary_(new int(id)) {}
  ~Rec() override { delete canary_; }

 protected:
  Time currentTimeImplementation() const override {
    if (*canary_ != id_) bad("a destroyed logger is used");
    return Time(std::chrono::duration_cast<Duration>(std::chrono::seconds(100)));
  }
  void logImplementation(const sml::LoggingEvent& e) override {
    LoggerDoes does = Nothing;
    {
      sched::Quiet q;
      if (++W.inside > 1) bad(std::string("a second call is inside the logger: ") + e.message);
      const std::string m(e.message);
      size_t k = std::string::npos;
      if (m.size() > 1 && m[0] == '[') k = size_t(std::atoi(m.c_str() + 1));
      if (m.find("recursive") == 0) bad("a statement made by the logger was delivered to it recursively");
      if (k >= W.st.size()) bad("a message that was never logged was delivered: " + pbt::show(m.substr(0, 100)));
      Statement& s = W.st[k];
      const std::string want = body(k);
      if (m != want) bad("the text of a message is not intact: got " + pbt::show(m.substr(0, 100)) + " (" + std::to_string(m.size()) + " bytes) expected " + pbt::show(want.substr(0, 100)));
      if (e.level != s.level || std::string(e.streamName) != kStreams[s.stream]) bad("a message carries the level or stream of another statement: " + pbt::show(m.substr(0, 100)));
      ++s.delivered;
      s.logger = id_;
      does = s.does;
    }
    struct Out { ~Out() { --W.inside; } } out;
    switch (does) {
      case Nothing: break;
      case Points: sched::point(); break;
      case LogsItself: SM_FATAL("recursive %d", 1); SM_FATAL_STREAM("recursive"); break;
      case ThrowsStd:
        switch (std::strlen(e.message) % 4) {
          case 0: throw std::runtime_error("logger");
          case 1: throw std::out_of_range("logger");
          case 2: throw std::bad_alloc();
          default: throw std::exception();
        }
      case ThrowsInt: throw 3;
      case ThrowsOther: throw Strange();
      case SetsLevel: {
        const int level = int(sml::getLevel());
        const size_t k = begin(W.levels, level);
        sml::setLevel(sml::Level(level));
        end(W.levels, k);
        break;
      }
      case EnablesStream: {
        const size_t k = begin(W.streams[0], 1);
        sml::enableNamedStream("sm");
        end(W.streams[0], k);
        break;
      }
      case SetsLogger: setLogger(); break;
      case AsksClock: currentTimeString(); break;
    }
    if (*canary_ != id_) bad("a logger is destroyed while it logs");
  }

 private:
  int id_;
  int* canary_;
};

/// whether a stream was enabled all along
bool always(const std::vector<Write>& v) {
  for (const Write& w : v)
    if (!w.value) return false;
  return true;
}
size_t begin(std::vector<Write>& v, int value) {
  sched::Quiet q;
  ++W.configuring;
  ++W.configs;
  v.push_back(Write{W.clock++, 1 << 30, value});
  return v.size() - 1;
}
void end(std::vector<Write>& v, size_t k) {
  sched::Quiet q;
  v[k].to = W.clock++;
  --W.configuring;
  ++W.configs;
}
void setLogger() {
  int id;
  boost::shared_ptr<sml::Logger> l;
  {
    sched::Quiet q;
    id = W.loggersMade++;
    l.reset(new Rec(id));
  }
  const size_t k = begin(W.loggers, id);
  sml::setLogger(l);
  l.reset();
  end(W.loggers, k);
}
/// values that may be in force in [from, to]: written before the end and not certainly overwritten before the beginning
std::vector<int> candidates(const std::vector<Write>& v, int from, int to) {
  std::vector<int> r;
  for (const Write& w : v) {
    if (w.from > to) continue;
    bool over = false;
    for (const Write& o : v) over = over || (w.to < o.from && o.to < from);
    if (!over) r.push_back(w.value);
  }
  return r;
}

// the call sites; nested is true when evaluating the argument logs as well
struct Arg {
  std::string text;
  int nested = -1;
};
void statement(const Op& o, bool nestedAllowed);
const char* use(const Arg& a) {
  if (a.nested >= 0) {
    Op o;
    o.site = a.nested;
    o.length = 3;
    statement(o, false);
  }
  return a.text.c_str();
}
#define SITE(ID, CALL) void site##ID(const Arg& a) { CALL; }
SITE(0, SM_FATAL("%s", use(a)))
SITE(1, SM_FATAL_STREAM(use(a)))
SITE(2, SM_INFO("%s", use(a)))
SITE(3, SM_INFO_STREAM(use(a)))
SITE(4, SM_WARN_NAMED("a", "%s", use(a)))
SITE(5, SM_DEBUG_STREAM_NAMED("a", use(a)))
SITE(6, SM_ERROR_COND_NAMED(true, "b", "%s", use(a)))
SITE(7, SM_WARN_STREAM_COND(true, use(a)))
SITE(8, SM_FATAL_NAMED("never", "%s", use(a)))
SITE(9, SM_INFO_STREAM_NAMED("b", use(a)))
SITE(10, SM_FATAL_ONCE("%s", use(a)))
SITE(11, SM_FATAL_STREAM_ONCE(use(a)))
SITE(12, SM_FATAL_THROTTLE(10, "%s", use(a)))
SITE(13, SM_FATAL_STREAM_THROTTLE(10, use(a)))
const struct { void (*run)(const Arg&); int level, stream; bool once; } kSites[] = {
    {site0, 10, 0, false}, {site1, 10, 0, false}, {site2, 7, 0, false}, {site3, 7, 0, false}, {site4, 8, 1, false},
    {site5, 6, 1, false},  {site6, 9, 2, false},  {site7, 8, 0, false}, {site8, 10, 3, false}, {site9, 7, 2, false},
    {site10, 10, 0, true}, {site11, 10, 0, true}, {site12, 10, 0, true}, {site13, 10, 0, true}};
const int kNSites = int(sizeof kSites / sizeof *kSites);

void statement(const Op& o, bool nestedAllowed) {
  size_t k;
  int configs;
  Arg a;
  {
    sched::Quiet q;
    Statement s;
    s.settled = W.configuring == 0;
    configs = W.configs;
    // what the configuration says at this moment (this may have to wait for another thread)
    s.expect = kSites[o.site].level >= int(sml::getLevel()) && sml::g_logging_globals.isNamedStreamEnabled(kStreams[kSites[o.site].stream]);
    k = W.st.size();
    s.site = o.site;
    s.level = kSites[o.site].level;
    s.stream = kSites[o.site].stream;
    s.length = o.length;
    s.does = o.logger;
    s.from = W.clock++;
    W.st.push_back(s);
    a.text = body(k);
    if (nestedAllowed && o.nested) a.nested = (o.site + 3) % 10;
  }
  bool threw = false;
  try {
    kSites[o.site].run(a);
  } catch (int) {
    threw = true;
  } catch (const Strange&) {
    threw = true;
  }
  sched::Quiet q;
  Statement& s = W.st[k];
  s.to = W.clock++;
  if (W.configs != configs) s.settled = false;
  if (threw && s.does != ThrowsInt && s.does != ThrowsOther) bad("an exception thrown for another statement came out of this one");
  if (s.delivered > 1) bad("statement " + std::to_string(k) + " was delivered " + std::to_string(s.delivered) + " times");
  if (kSites[o.site].once) {
    ++W.onceCalls[o.site];
    W.onceDelivered[o.site] += s.delivered;
    if (W.onceDelivered[o.site] > 1) bad("a statement that is to appear once was delivered " + std::to_string(W.onceDelivered[o.site]) + " times");
    return;
  }
  // no reconfiguration overlaps: exactly the configuration decides; otherwise only what holds for every configuration of the case
  bool must, mustNot;
  if (s.settled) {
    must = s.expect;
    mustNot = !s.expect;
  } else {
    must = s.level >= W.maxLevel && always(W.streams[s.stream]);
    mustNot = s.level < W.minLevel || s.stream == 3;
  }
  if (must && !s.delivered) bad("statement " + std::to_string(k) + " at site " + std::to_string(o.site) + " is enabled but was not delivered");
  if (mustNot && s.delivered) bad("statement " + std::to_string(k) + " at site " + std::to_string(o.site) + " is suppressed but was delivered");
  if (s.delivered) {
    bool ok = false;
    for (int id : candidates(W.loggers, s.from, s.to)) ok = ok || id == s.logger;
    if (!ok) bad("statement " + std::to_string(k) + " was delivered to a logger that is not installed");
  }
}

void perform(const Op& o) {
  switch (o.what) {
    case Log: statement(o, true); break;
    case SetLevel: {
      const size_t k = begin(W.levels, o.level);
      sml::setLevel(sml::Level(o.level));
      end(W.levels, k);
      break;
    }
    case Enable: case Disable: {
      const size_t k = begin(W.streams[o.stream], o.what == Enable);
      if (o.what == Enable) sml::enableNamedStream(kStreams[o.stream]);
      else sml::disableNamedStream(kStreams[o.stream]);
      end(W.streams[o.stream], k);
      break;
    }
    case SetLogger: setLogger(); break;
    case Query: {
      sml::getLevel();
      sml::isNamedStreamEnabled("a");
      boost::shared_ptr<sml::Logger> l = sml::getLogger();
      if (!l) bad("there is no logger");
      l->currentTimeString();
      break;
    }
    case Yield: sched::point(); break;
  }
}
void runOps(const std::vector<Op>* ops) {
  for (const Op& o : *ops) perform(o);
}
bool among(const std::vector<int>& v, int x) {
  for (int y : v) if (x == y) return true;
  return false;
}

struct Result { bool nontrivial, preempted; };

Result execute(const std::vector<std::vector<Op>>& threads, const std::vector<Op>& before, const sched::Plan& plan) {
  W = World();
  W.levels.push_back(Write{-2, -1, 7});
  for (int k = 0; k < 4; ++k) W.streams[k].push_back(Write{-2, -1, k == 0});
  auto range = [&](const std::vector<Op>& v) {
    for (const Op& o : v)
      if (o.what == SetLevel) { W.minLevel = std::min(W.minLevel, o.level); W.maxLevel = std::max(W.maxLevel, o.level); }
  };
  range(before);
  for (auto& t : threads) range(t);
  int delivered = 0;
  sched::Stats st = sched::run(plan, [&]() {
    setLogger();
    for (const Op& o : before) perform(o);
    std::vector<std::unique_ptr<boost::thread>> ts;
    for (size_t k = 1; k < threads.size(); ++k) ts.emplace_back(new boost::thread(boost::bind(&runOps, &threads[k])));
    runOps(&threads[0]);
    for (auto& t : ts) t->join();
    sched::Quiet q;
    // the configuration that remains is one of those that can be last, and every call site follows it
    const int now = W.clock++;
    if (!among(candidates(W.levels, now, now), int(sml::getLevel()))) bad("the global level is none of those set last");
    for (int k = 0; k < 4; ++k)
      if (!among(candidates(W.streams[k], now, now), int(sml::g_logging_globals.isNamedStreamEnabled(kStreams[k]))))
        bad(std::string("stream ") + kStreams[k] + " is not in the state set last");
    for (int site = 0; site < kNSites; ++site) {
      Op o;
      o.site = site;
      o.length = 2;
      statement(o, false);
      if (kSites[site].once && W.onceDelivered[site] != 1 && always(W.streams[0]) && W.maxLevel <= 10)
        bad("a statement that is to appear once never appeared");
    }
    for (const Statement& s : W.st) delivered += s.delivered;
    W.st.clear();
    sml::setLogger(boost::shared_ptr<sml::Logger>(new Rec(-1)));
  });
  return Result{st.threads >= 2 && st.preempted + st.blocked > 0 && delivered > 0, st.preempted > 0};
}

const char* const kWhat[] = {"log", "setLevel", "enable", "disable", "setLogger", "query", "yield"};
const char* const kDoes[] = {"", "yields", "logs itself", "throws std", "throws int", "throws other", "sets level", "enables stream", "sets logger", "asks clock"};
std::string text(const std::vector<Op>& v) {
  std::ostringstream os;
  for (const Op& o : v) {
    os << kWhat[o.what];
    if (o.what == Log) os << " site " << o.site << " length " << o.length << (o.nested ? " nested" : "") << (*kDoes[o.logger] ? " logger " : "") << kDoes[o.logger];
    if (o.what == SetLevel) os << " " << o.level;
    if (o.what == Enable || o.what == Disable) os << " " << kStreams[o.stream];
    os << ", ";
  }
  return os.str();
}

std::vector<Op> ops(pbt::Source& s, unsigned avg, size_t most, bool faults, bool touchDefault) {
  std::vector<Op> v;
  while (v.size() < most && s.more(avg)) {
    Op o;
    switch (s.below(12)) {
      default: o.what = Log; break;
      case 6: o.what = SetLevel; break;
      case 7: o.what = Enable; break;
      case 8: o.what = Disable; break;
      case 9: o.what = SetLogger; break;
      case 10: o.what = Query; break;
      case 11: o.what = Yield; break;
    }
    if (o.what == Log) {
      o.site = int(s.below(uint64_t(kNSites)));
      o.length = s.chance(1, 6) ? s.pick({size_t(4090), size_t(4096), size_t(5000), size_t(9000)}) : s.size(0, 12);
      o.nested = s.chance(1, 8);
      o.logger = s.chance(1, 2) ? Points : Nothing;
      if (faults && s.chance(1, 3)) o.logger = LoggerDoes(s.range(LogsItself, AsksClock));
    }
    o.level = s.pick({7, 6, 8, 9, 10, 0});
    // the default stream stays enabled in most cases, so that there is something that must be delivered
    o.stream = touchDefault ? int(s.below(3)) : 1 + int(s.below(2));
    v.push_back(o);
  }
  return v;
}

void runCase(pbt::Source& s, bool faults) {
  const bool touchDefault = s.chance(1, 4);
  std::vector<Op> before = ops(s, 2, 4, false, touchDefault);
  std::vector<std::vector<Op>> threads;
  const size_t n = s.size(2, 4);
  for (size_t k = 0; k < n; ++k) threads.push_back(ops(s, 4, 6, faults, touchDefault));
  const sched::Plan plan = sched::draw(s, 150);
  PBT_NOTE(s, "before: " << text(before));
  for (auto& t : threads) PBT_NOTE(s, "thread: " << text(t));
  PBT_NOTE(s, plan.text());
  // call sites and configuration are global: a process per case
  int fd[2];
  if (pipe(fd)) PBT_FAIL("pipe");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) PBT_FAIL("fork");
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    const Result r = execute(threads, before, plan);
    fflush(nullptr);
    _exit(100 + (r.nontrivial ? 1 : 0) + (r.preempted ? 2 : 0));  // not a code a sanitizer uses
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  ssize_t m;
  while ((m = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, size_t(m));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  if (!WIFEXITED(status) || WEXITSTATUS(status) < 100 || WEXITSTATUS(status) > 103) {
    const size_t at = got.find("SCHED:");
    PBT_FAIL((at == std::string::npos ? "the process died, wait status " + std::to_string(status) + ": " + got.substr(0, 3000) : got.substr(at, 3000)));
  }
  if ((WEXITSTATUS(status) - 100) & 1) s.nontrivial();
  if ((WEXITSTATUS(status) - 100) & 2) s.label("preempted");
}
}  // namespace

PBT(reconfiguration, 16000, 250000) { runCase(s, false); }

// loggers that throw, log, or reconfigure from inside
PBT(loggers_that_misbehave, 16000, 250000) { runCase(s, true); }
