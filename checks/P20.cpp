// P20: a log statement is emitted exactly when level and streams allow it.
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <map>
#include <set>

#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
#define P20_NS all
#define P20_LEVELS                                                                                                     \
  P20_LEVEL(ALL, 0) P20_LEVEL(FINEST, 1) P20_LEVEL(VERBOSE, 2) P20_LEVEL(FINER, 3) P20_LEVEL(TRACE, 4) P20_LEVEL(FINE, 5) \
  P20_LEVEL(DEBUG, 6) P20_LEVEL(INFO, 7) P20_LEVEL(WARN, 8) P20_LEVEL(ERROR, 9) P20_LEVEL(FATAL, 10)
#include "P20_sites.inc"
#include "pbt.hpp"

PBT_PROPERTY("P20", "a case is non-trivial when at least one statement was delivered and at least one was suppressed in it, "
                    "or (message_lengths) when a message longer than the initial 4096-byte buffer was delivered")

namespace sml = sm::logging;
typedef sml::Level Level;
namespace p20 {
Ctx ctx;
std::vector<Site>& sites() { static std::vector<Site> v; return v; }
}  // namespace p20

// statements whose level, or full stream name, is an expression
namespace {
using namespace p20;
inline Level lv() { return Level(p20::ctx.level); }
P20_DEF(gen_log, "SM_LOG", -1, Plain, false, true, 0, false, SM_LOG(lv(), nm(), "%s", argC()))
P20_DEF(gen_stream, "SM_LOG_STREAM", -1, Plain, false, true, 1, false, SM_LOG_STREAM(lv(), nm(), P20_STREAM))
P20_DEF(gen_name, "SM_LOG_STREAM_NAME", -1, Plain, false, true, 1, false, SM_LOG_STREAM_NAME(nm(), lv(), P20_STREAM))
P20_DEF(gen_cond, "SM_LOG_COND", -1, Cond, false, true, 1, false, SM_LOG_COND(cnd(), lv(), nm(), P20_FMT))
P20_DEF(gen_scond, "SM_LOG_STREAM_COND", -1, Cond, false, true, 0, false, SM_LOG_STREAM_COND(cnd(), lv(), nm(), argS()))
P20_DEF(gen_once, "SM_LOG_ONCE", -1, Once, false, true, 1, false, SM_LOG_ONCE(lv(), nm(), P20_FMT))
P20_DEF(gen_sonce, "SM_LOG_STREAM_ONCE", -1, Once, false, true, 0, false, SM_LOG_STREAM_ONCE(lv(), nm(), argS()))
P20_DEF(gen_thr, "SM_LOG_THROTTLE", -1, Throttle, false, true, 1, false, SM_LOG_THROTTLE(rt(), lv(), nm(), P20_FMT))
P20_DEF(gen_sthr, "SM_LOG_STREAM_THROTTLE", -1, Throttle, false, true, 0, false, SM_LOG_STREAM_THROTTLE(rt(), lv(), nm(), argS()))

// a statement instantiated in a template and one in a member function: each instantiation is a call site of its own
template <int N>
struct Tmpl {
  static void go() { P20_HERE; SM_INFO_STREAM_NAMED(nm(), P20_STREAM); }
};
Reg reg_t0(Site{"SM_INFO_STREAM_NAMED in Tmpl<0>", 7, Plain, true, false, 1, false, &Tmpl<0>::go});
Reg reg_t1(Site{"SM_INFO_STREAM_NAMED in Tmpl<1>", 7, Plain, true, false, 1, false, &Tmpl<1>::go});
const size_t kGeneric = 11;

enum OpKind { Log, SetLevel, Enable, Disable, RawEnable, RawDisable, SetLogger, Advance, Query, InitMacro, Shutdown, kOps };
const char* const kLevelNames[] = {"All", "Finest", "Verbose", "Finer", "Trace", "Fine", "Debug", "Info", "Warn", "Error", "Fatal", "Count"};

struct Op {
  OpKind kind;
  size_t site = 0;
  int level = 0;
  std::string name;
  std::string text;
  bool cond = true;
  double rate = 1;
  int logger = 0;
  int64_t eighths = 0;
};

struct Event {
  int logger;
  std::string stream, file, function, message, time;
  int level, line;
};
std::vector<Event> g_events;
int64_t g_eighths = 0;  // the clock, in multiples of 1/8 s

class Rec : public sml::Logger {
 public:
  explicit Rec(int id) : id_(id) {}

 protected:
  Time currentTimeImplementation() const override {
    return Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds(g_eighths * 125000)));
  }
  void logImplementation(const sml::LoggingEvent& e) override {
    g_events.push_back(Event{id_, e.streamName, e.file, e.function, e.message, e.timestring, int(e.level), e.line});
  }
  int id_;
};

std::string prefixed(const std::string& n) { return n == "sm" || n.compare(0, 3, "sm.") == 0 ? n : "sm." + n; }
std::string clockText(int64_t eighths) {
  char b[64];
  snprintf(b, sizeof b, "%lld.%03d000", (long long)(eighths / 8), int(eighths % 8) * 125);
  return b;
}

struct Outcome {
  std::string error;
  bool delivered = false, suppressed = false, longText = false;
};
#define P20_BAD(MSG)                                       \
  do {                                                     \
    std::ostringstream os_;                                \
    os_ << "operation " << i << " " << MSG;                \
    out.error = os_.str();                                 \
    return out;                                            \
  } while (0)

std::string cut(const std::string& m) {
  return m.size() < 200 ? pbt::show(m) : pbt::show(m.substr(0, 80)) + ".." + pbt::show(m.substr(m.size() - 80)) + " (" + std::to_string(m.size()) + " bytes)";
}

/// runs the script on the real library, in this (forked) process, next to the model
Outcome execute(const std::vector<Op>& script, int64_t start) {
  Outcome out;
  const std::vector<p20::Site>& ss = p20::sites();
  boost::shared_ptr<sml::Logger> loggers[2] = {boost::shared_ptr<sml::Logger>(new Rec(0)), boost::shared_ptr<sml::Logger>(new Rec(1))};
  g_eighths = start;
  int level = 7, cur = 0;
  std::set<std::string> on;
  on.insert("sm");
  struct SiteState { bool once = false; double last = 0; };
  std::map<size_t, SiteState> st;
  bool down = false;
  sml::setLogger(loggers[0]);
  for (size_t i = 0; i < script.size(); ++i) {
    const Op& o = script[i];
    switch (o.kind) {
      case Log: {
        const p20::Site& site = ss[o.site];
        p20::Ctx& c = p20::ctx;
        c = p20::Ctx();
        c.text = o.text;
        c.name = o.name;
        c.cond = o.cond;
        c.rate = o.rate;
        c.level = o.level;
        const int lvl = site.level < 0 ? o.level : site.level;
        const std::string stream = site.raw ? o.name : site.named ? "sm." + o.name : "sm";
        const bool enabled = !site.compiledOut && lvl >= level && (stream.empty() || on.count(stream));
        bool deliver = enabled;
        SiteState& s = st[o.site];
        const double now = double(g_eighths) / 8;
        if (site.family == p20::Cond) deliver = deliver && o.cond;
        if (site.family == p20::Once) deliver = deliver && !s.once;
        if (site.family == p20::Throttle) deliver = deliver && s.last + o.rate <= now;
        if (deliver) s.once = true, s.last = now;
        g_events.clear();
        site.run();
        const std::string what = std::string(site.macro) + " level " + kLevelNames[lvl] + " stream " + pbt::show(stream) +
                                 " (global level " + kLevelNames[level] + ", clock " + clockText(g_eighths) + ")";
        if (down) {
          if (!g_events.empty()) P20_BAD(what << ": delivered after shutdown");
          break;
        }
        if (deliver && g_events.empty()) P20_BAD(what << ": not delivered although it is enabled");
        if (!deliver && !g_events.empty()) P20_BAD(what << ": delivered although it is suppressed");
        if (g_events.size() > 1) P20_BAD(what << ": delivered " << g_events.size() << " times");
        if (c.argEvals != (deliver ? 1u : 0u)) P20_BAD(what << ": arguments evaluated " << c.argEvals << " times, delivered " << deliver);
        if (site.family == p20::Cond && c.condEvals != (enabled ? 1u : 0u))
          P20_BAD(what << ": condition evaluated " << c.condEvals << " times, enabled " << enabled);
        (deliver ? out.delivered : out.suppressed) = true;
        if (deliver) {
          const Event& e = g_events[0];
          const std::string msg = site.prefix ? "<7> " + o.text + "%" : o.text;
          if (msg.size() >= 4096) out.longText = true;
          if (e.message != msg) P20_BAD(what << ": message " << cut(e.message) << " instead of " << cut(msg));
          if (e.level != lvl) P20_BAD(what << ": event of level " << e.level);
          if (e.stream != stream) P20_BAD(what << ": event of stream " << pbt::show(e.stream));
          if (e.file != c.file || e.line != c.line || e.function != c.function)
            P20_BAD(what << ": location " << e.file << ":" << e.line << " " << e.function << " instead of " << c.file << ":" << c.line << " " << c.function);
          if (e.time != clockText(g_eighths)) P20_BAD(what << ": time " << e.time);
          if (e.logger != cur) P20_BAD(what << ": delivered to logger " << e.logger << " instead of the installed one");
        }
        break;
      }
      case SetLevel: sml::setLevel(Level(o.level)); level = o.level; break;
      case Enable: sml::enableNamedStream(o.name); on.insert(prefixed(o.name)); break;
      case Disable: sml::disableNamedStream(o.name); on.erase(prefixed(o.name)); break;
      case RawEnable: sml::g_logging_globals.enableNamedStream(o.name); on.insert(o.name); break;
      case RawDisable: sml::g_logging_globals.disableNamedStream(o.name); on.erase(o.name); break;
      case SetLogger:
        sml::setLogger(o.logger < 2 ? loggers[o.logger] : boost::shared_ptr<sml::Logger>());
        if (o.logger < 2) cur = o.logger;
        break;
      case Advance: g_eighths += o.eighths; break;
      case Query: {
        if (int(sml::getLevel()) != level) P20_BAD("getLevel is " << int(sml::getLevel()) << " instead of " << level);
        if (sml::getLogger() != loggers[cur]) P20_BAD("getLogger is not the installed logger");
        const bool got = sml::isNamedStreamEnabled(o.name), want = on.count(prefixed(o.name)) != 0;
        if (got != want) P20_BAD("isNamedStreamEnabled(" << o.name << ") is " << got);
        break;
      }
      case InitMacro: { SM_INIT_LOGGING(); on.insert("sm"); break; }
      case Shutdown: sml::g_logging_globals.shutdown(); down = true; break;
      case kOps: break;
    }
  }
  return out;
}

/// the logging configuration is global and call sites cache it: every case gets a process of its own
Outcome isolated(const std::vector<Op>& script, int64_t start) {
  int fd[2];
  if (pipe(fd)) PBT_FAIL("pipe");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) PBT_FAIL("fork");
  if (pid == 0) {
    close(fd[0]);
    Outcome o;
    try {
      o = execute(script, start);
    } catch (const std::exception& e) {
      o.error = std::string("exception out of a logging call: ") + e.what();
    }
    std::string w(1, char((o.delivered ? 1 : 0) | (o.suppressed ? 2 : 0) | (o.longText ? 4 : 0)));
    w += o.error.substr(0, 4000);
    (void)!write(fd[1], w.data(), w.size());
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, size_t(n));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  if (got.empty() || status != 0) PBT_FAIL("the process crashed while logging, wait status " << status);
  Outcome o;
  o.delivered = got[0] & 1;
  o.suppressed = got[0] & 2;
  o.longText = got[0] & 4;
  o.error = got.substr(1);
  if (!o.error.empty()) PBT_FAIL(o.error);
  return o;
}

const std::vector<std::string> kNames = {"a", "b", "a.b", "sm", "sm.a", "", "A", "sma", "sm.", "a.sm.b", "xsm.a", "s", "a ", "verylongstreamnamethatdoesnotfitintoashortstring"};

std::string text(pbt::Source& s, size_t maxLen) {
  switch (s.below(6)) {
    case 0: return "";
    case 1: return s.str("%dsn\n\t{}$\\\"x ", 12);
    case 2: {
      std::string b = s.bytes(20);
      for (char& c : b) if (!c) c = 1;
      return b;
    }
    case 3: return std::string(s.size(0, maxLen), 'x');
    default: return s.str("abcdefgh", 8);
  }
}

void describe(pbt::Source& s, const std::vector<Op>& script) {
  if (!s.describing()) return;
  const char* const names[] = {"log", "setLevel", "enable", "disable", "raw enable", "raw disable", "setLogger", "advance", "query", "SM_INIT_LOGGING", "shutdown"};
  for (const Op& o : script) {
    s.notes() << names[o.kind];
    if (o.kind == Log) {
      const p20::Site& t = p20::sites()[o.site];
      s.notes() << " " << t.macro << (t.compiledOut ? " (compiled out)" : "") << " name " << pbt::show(o.name) << " text " << cut(o.text);
      if (t.level < 0) s.notes() << " level " << kLevelNames[o.level];
      if (t.family == p20::Cond) s.notes() << " cond " << o.cond;
      if (t.family == p20::Throttle) s.notes() << " rate " << o.rate;
    }
    if (o.kind == SetLevel) s.notes() << " " << kLevelNames[o.level];
    if (o.kind >= Enable && o.kind <= RawDisable) s.notes() << " " << pbt::show(o.name);
    if (o.kind == SetLogger) s.notes() << " " << o.logger;
    if (o.kind == Advance) s.notes() << " " << double(o.eighths) / 8 << " s";
    s.notes() << "; ";
  }
}

std::vector<Op> generate(pbt::Source& s, size_t maxOps, size_t maxLen) {
  const std::vector<p20::Site>& ss = p20::sites();
  // a few call sites, visited again and again
  std::vector<size_t> mine;
  const size_t nSites = s.size(1, 7);
  std::map<size_t, std::string> siteName;
  // the full table comes first in link order or not: pick generic sites explicitly now and then
  static std::vector<size_t> generic, ordinary, minimal;
  if (generic.empty())
    for (size_t k = 0; k < ss.size(); ++k)
      (ss[k].level < 0 || std::string(ss[k].macro).find("Tmpl") != std::string::npos ? generic : ss[k].compiledOut ? minimal : ordinary).push_back(k);
  for (size_t k = 0; k < nSites; ++k) {
    const size_t which = s.below(8);
    const size_t site = s.pick(which < 5 ? ordinary : which < 7 ? generic : minimal);
    mine.push_back(site);
    if (!siteName.count(site)) siteName[site] = ss[site].raw && s.flip() ? s.pick({"", "sm", "sm.a", "other"}) : s.pick(kNames);
  }
  std::vector<std::string> used = {"sm"};
  for (auto& p : siteName) used.push_back(p.second);
  std::vector<Op> script;
  const size_t n = s.size(1, maxOps);
  for (size_t k = 0; k < n; ++k) {
    Op o;
    switch (s.below(16)) {
      default: o.kind = Log; break;
      case 9: case 10: o.kind = SetLevel; break;
      case 11: o.kind = Enable; break;
      case 12: o.kind = Disable; break;
      case 13: o.kind = Advance; break;
      case 14: o.kind = s.pick({SetLogger, Query, Query, InitMacro}); break;
      case 15: o.kind = s.pick({RawEnable, RawDisable, Advance}); break;
    }
    if (o.kind == Log) {
      o.site = s.pick(mine);
      o.name = siteName[o.site];
      o.text = text(s, maxLen);
      o.level = int(s.below(11));
      o.cond = s.chance(2, 3);
      o.rate = s.pick({1.0, 0.125, 0.5, 0.0, 2.0, 3.25, 10.0});
    } else if (o.kind == SetLevel) {
      // most changes lie at or next to the levels of the statements used
      const int l = ss[s.pick(mine)].level;
      if (l >= 0 && s.chance(2, 3)) o.level = std::max(0, std::min(11, l + int(s.range(-1, 1))));
      else o.level = int(s.below(12));
    } else if (o.kind == SetLogger) {
      o.logger = int(s.below(3));
    } else if (o.kind == Advance) {
      o.eighths = s.pick({1, 2, 4, 8, 16, 26, 80});
    } else {
      o.name = s.chance(3, 4) ? s.pick(used) : s.pick(kNames);
      if (o.kind == RawEnable || o.kind == RawDisable)
        if (s.flip()) o.name = prefixed(o.name);
    }
    script.push_back(o);
  }
  if (s.chance(1, 30)) {
    Op o;
    o.kind = Shutdown;
    script.push_back(o);
    Op l;
    l.kind = Log;
    l.site = s.pick(mine);
    l.name = siteName[l.site];
    script.push_back(l);
  }
  return script;
}
}  // namespace

PBT(histories, 30000, 300000) {
  const std::vector<Op> script = generate(s, 40, 30);
  const int64_t start = s.pick({int64_t(160), int64_t(8) * 1700000000, int64_t(1000)});
  describe(s, script);
  Outcome o = isolated(script, start);
  if (o.delivered && o.suppressed) s.nontrivial();
}

// every statement of the table is hit, enabled and suppressed, in a short history of its own
PBT(every_statement, 6000, 40000) {
  const std::vector<p20::Site>& ss = p20::sites();
  std::vector<Op> script;
  const size_t site = s.below(ss.size());
  const std::string name = s.pick(kNames);
  const int lvl = ss[site].level < 0 ? int(s.below(11)) : ss[site].level;
  auto add = [&](OpKind k, int level, const std::string& n) {
    Op o;
    o.kind = k;
    o.level = level;
    o.name = n;
    o.site = site;
    if (k == Log) { o.text = text(s, 20); o.level = lvl; o.cond = s.chance(3, 4); o.rate = 0.5; }
    script.push_back(o);
  };
  if (s.flip()) add(Log, 0, name);
  add(SetLevel, lvl + int(s.below(2)), "");
  add(RawEnable, 0, ss[site].raw ? name : prefixed(name));
  if (!ss[site].raw) add(RawEnable, 0, "sm." + name);
  add(Log, 0, name);
  Op adv;
  adv.kind = Advance;
  adv.eighths = s.pick({1, 4, 8});
  if (s.flip()) script.push_back(adv);
  add(SetLevel, lvl, "");
  add(Log, 0, name);
  if (s.flip()) script.push_back(adv);
  add(Log, 0, name);
  add(SetLevel, lvl + 1, "");
  add(Log, 0, name);
  describe(s, script);
  Outcome o = isolated(script, 800);
  if (o.suppressed) s.nontrivial();
}

// messages of any length, around the sizes at which the shared formatting buffer grows
PBT(message_lengths, 4000, 30000) {
  const std::vector<p20::Site>& ss = p20::sites();
  static std::vector<size_t> fmt;
  if (fmt.empty())
    for (size_t k = 0; k < ss.size(); ++k)
      if (!ss[k].compiledOut && (ss[k].family == p20::Plain || ss[k].family == p20::Cond) && ss[k].level >= 0) fmt.push_back(k);
  std::vector<Op> script;
  Op o;
  o.kind = SetLevel;
  o.level = 0;
  script.push_back(o);
  size_t biggest = 4096;
  const size_t n = s.size(1, 8);
  for (size_t k = 0; k < n; ++k) {
    Op l;
    l.kind = Log;
    l.site = s.pick(fmt);
    l.name = "a";
    Op e;
    e.kind = Enable;
    e.name = "a";
    script.push_back(e);
    size_t len;
    switch (s.below(5)) {
      case 0: len = size_t(std::max<int64_t>(0, int64_t(biggest) + s.range(-9, 9))); break;
      case 1: len = 4096 + size_t(s.range(0, 12)) - 8; break;
      case 2: len = s.size(0, 20); break;
      case 3: len = s.size(0, 20000); break;
      default: len = s.pick({8192u, 65536u, 100000u}) + size_t(s.range(0, 6)) - 3; break;
    }
    l.text.resize(len);
    const unsigned k0 = unsigned(s.below(255));
    for (size_t j = 0; j < len; ++j) l.text[j] = char(1 + (k0 + j * 7) % 255);
    const size_t total = len + (ss[l.site].prefix ? 5 : 0);
    if (total >= biggest) biggest = total + 2;
    script.push_back(l);
  }
  describe(s, script);
  Outcome out = isolated(script, 800);
  if (out.longText) s.nontrivial();
}
