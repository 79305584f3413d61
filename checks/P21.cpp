// P21: log formatting substitutes every token faithfully.
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>

#include <sm/logging.hpp>
#include <sm/logging/Formatter.hpp>
#include <sm/logging/StdOutLogger.hpp>
#include "locales.hpp"
#include "pbt.hpp"

PBT_PROPERTY("P21", "a case is non-trivial when its format string has at least one token and at least one other part, or "
                    "(level_names) when the name is not in the canonical spelling")

namespace sml = sm::logging;
namespace {
const char* const kSeverity[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"};
const char* const kKnown[] = {"severity", "message", "time", "thread", "file", "line", "function", "streamname"};

struct Ev {
  std::string stream, file, function, message, time;
  int level = 7, line = 0;
  sml::LoggingEvent event() const {
    return sml::LoggingEvent(stream.c_str(), sml::Level(level), file.c_str(), line, function.c_str(), message.c_str(), time);
  }
};
typedef std::map<std::string, std::string> Extra;

bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

/// the reference: a left-to-right scan; returns the number of tokens through n
std::string render(const std::string& fmt, const Ev& e, const Extra& extra, const std::string& thread, size_t& tokens, size_t& other) {
  std::string r;
  tokens = other = 0;
  for (size_t i = 0; i < fmt.size();) {
    if (fmt[i] == '$' && i + 1 < fmt.size() && fmt[i + 1] == '{') {
      size_t j = i + 2;
      while (j < fmt.size() && letter(fmt[j])) ++j;
      if (j > i + 2 && j < fmt.size() && fmt[j] == '}') {
        const std::string t = fmt.substr(i + 2, j - i - 2);
        ++tokens;
        if (t == "severity") r += e.level < 11 ? kSeverity[e.level] : "UNKNO";
        else if (t == "message") r += e.message;
        else if (t == "time") r += e.time;
        else if (t == "thread") r += thread;
        else if (t == "file") r += e.file;
        else if (t == "line") r += std::to_string(e.line);
        else if (t == "function") r += e.function;
        else if (t == "streamname") r += e.stream;
        else if (extra.count(t)) r += extra.at(t);
        else r += "${" + t + "}";
        i = j + 1;
        continue;
      }
    }
    ++other;
    r += fmt[i++];
  }
  return r;
}

std::string noNul(std::string b) {
  for (char& c : b) if (!c) c = 1;
  return b;
}
std::string anyText(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: return "";
    case 1: return noNul(s.bytes(30));
    case 2: return s.str("${}message\\%\n\033[0m", 30);
    case 3: return std::string("${") + s.pick({"message", "time", "x"}) + "}";
    case 4: return std::string(s.size(0, 5000), 'm');
    default: return s.str("abc xyz", 10);
  }
}
std::string tokenName(pbt::Source& s) {
  switch (s.below(5)) {
    case 0: case 1: return kKnown[s.below(8)];
    case 2: {  // near misses: other case, prefixes, extensions
      std::string t = kKnown[s.below(8)];
      switch (s.below(4)) {
        case 0: t[0] = char(t[0] - 32); break;
        case 1: t.pop_back(); break;
        case 2: t += s.pick({'s', 'A', 'z', 'Z'}); break;
        default: for (char& c : t) if (s.flip()) c = char(c - 32);
      }
      return t;
    }
    case 3: return s.pick({"x", "y", "host", "Host", "a", "Z"});
    default: return s.str("azAZmge", s.chance(1, 20) ? 300 : 6);
  }
}
std::string format(pbt::Source& s) {
  std::string f;
  while (s.more(5) && f.size() < 2000) {
    switch (s.below(9)) {
      case 0: case 1: case 2: f += "${" + tokenName(s) + "}"; break;
      case 3: f += s.str("${}", 4); break;
      case 4: f += s.str("${} a1", 6); break;
      case 5: f += "${" + tokenName(s) + s.pick({"", " }", "|}", "${", "1}", "}}", "$", "_}", "{}", "\n}"}); break;
      case 6: f += std::string(s.pick({"$", "{", "$$", "${", "${$", "{$", "}"})) + "{" + tokenName(s) + "}"; break;
      case 7: f += noNul(s.bytes(6)); break;
      case 8: if (s.chance(1, 30)) { f += std::string(s.size(100, 5000), '='); break; }  // fall through
      default: f += s.str("[]: abc\\^.*+?()|", 6); break;
    }
  }
  return f;
}
Ev event(pbt::Source& s) {
  Ev e;
  e.stream = s.pick({"sm", "sm.a", "", "${line}"});
  e.file = s.chance(1, 4) ? anyText(s) : s.pick({"/a/b.cpp", "C:\\x", "file name"});
  e.function = s.chance(1, 4) ? anyText(s) : s.pick({"void f()", "T g<T>(${x})", ""});
  e.message = anyText(s);
  e.time = s.chance(1, 4) ? s.bytes(10) : s.pick({"0.000000", "1700000000.123456", "-1.5"});
  e.level = int(s.below(12));
  e.line = int(s.anyInt(-2147483647 - 1, 2147483647));
  return e;
}
Extra extras(pbt::Source& s) {
  Extra x;
  while (s.more(2)) {
    std::string name = s.flip() ? s.pick({"x", "y", "host", "Host", "a", "Z"}) : s.str("azAZmge", 6);
    bool known = false;
    for (const char* k : kKnown) known = known || name == k;
    if (known) continue;
    x[name] = s.flip() ? s.bytes(12) : s.pick({"", "value", "${message}", "${x}", "a}b"});
  }
  return x;
}
void comparable(const std::string& got, const std::string& want, bool colour, const std::string& what) {
  std::string g = got;
  if (colour) {
    // exactly one escape sequence before and one after the text; which colour is a matter of taste
    auto sgr = [&](size_t at) -> size_t {
      if (g.compare(at, 2, "\033[") != 0) return 0;
      size_t j = at + 2;
      while (j < g.size() && (isdigit((unsigned char)g[j]) || g[j] == ';')) ++j;
      return j < g.size() && g[j] == 'm' ? j + 1 - at : 0;
    };
    const size_t a = sgr(0);
    PBT_CHECK(a, what << ": coloured output does not start with a colour code: " << pbt::show(g.substr(0, 40)));
    g.erase(0, a);
    const size_t at = want.size();
    PBT_CHECK(g.size() > at, what << ": got " << pbt::show(got) << " expected the text " << pbt::show(want));
    const size_t b = sgr(at);
    PBT_CHECK(b, what << ": coloured output does not end with a colour code after the text: got " << pbt::show(got) << " expected the text " << pbt::show(want));
    PBT_EQ(g.substr(at, b), std::string("\033[0m"), what << ": the colour is not reset");
    g.erase(at, b);
  }
  PBT_CHECK(g == want + "\n", what << ": got " << pbt::show(g) << " expected " << pbt::show(want + "\n"));
}
std::string threadText() {
  std::ostringstream os;
  os.imbue(std::locale::classic());
  os << boost::this_thread::get_id();
  return os.str();
}
}  // namespace

PBT(formats, 60000, 1500000, (pbt::Options{60, false, 0, true})) {
  const std::string fmt = format(s);
  const Extra x = extras(s);
  const unsigned how = unsigned(s.below(8));
  const bool colour = s.flip(), second = s.chance(1, 4), foreign = s.chance(1, 4);
  const OtherLocale locale(foreign);
  PBT_NOTE(s, "format " << pbt::show(fmt) << " how " << how << " colour " << colour << (foreign ? " in another locale" : ""));
  sml::Formatter f, g;
  sml::Formatter* p = &f;
  if (how != 1) f.extra_fixed_tokens_ = x;
  if (how == 2) f.init("${x}${message}${y}");
  f.init(fmt.c_str());
  if (how == 1) f.extra_fixed_tokens_ = x;  // set after parsing
  f.doColor_ = colour;
  std::unique_ptr<sml::Formatter> orig;
  if (how == 3) {  // a copy outlives its original
    orig.reset(new sml::Formatter(f));
    g = *orig;
    orig.reset();
    p = &g;
  }
  if (how == 4) {
    orig.reset(new sml::Formatter(f));
    f.extra_fixed_tokens_.clear();
    f.init("-");
    p = orig.get();
  }
  for (int k = 0; k < (second ? 2 : 1); ++k) {
    const Ev e = event(s);
    std::ostringstream os;
    size_t tokens, other;
    std::string thread;
    if (s.chance(1, 50)) {
      std::thread t([&] { thread = threadText(); p->print(e.event(), os); });
      t.join();
    } else {
      thread = threadText();
      p->print(e.event(), os);
    }
    const std::string want = render(fmt, e, x, thread, tokens, other);
    PBT_NOTE(s, "message " << pbt::show(e.message) << " level " << e.level << " line " << e.line);
    comparable(os.str(), want, colour, "format " + pbt::show(fmt));
    if (tokens && other) s.nontrivial();
  }
}

// the colour tells the level, whatever the event and the format, and the levels that ask for attention can be told apart
PBT(colours, 4000, 60000) {
  auto of = [&](const Ev& e, const std::string& fmt) {
    sml::Formatter f;
    f.init(fmt.c_str());
    f.doColor_ = true;
    std::ostringstream os;
    f.print(e.event(), os);
    const std::string g = os.str();
    PBT_CHECK(g.compare(0, 2, "\033[") == 0 && g.find('m') != std::string::npos, "coloured output starts with a colour code: " << pbt::show(g.substr(0, 40)));
    return g.substr(0, g.find('m') + 1);
  };
  Ev a = event(s), b = event(s);
  a.level %= 11;
  b.level %= 11;
  if (s.chance(1, 3)) b.level = a.level;
  if (s.flip()) a.level = int(s.size(6, 10)), b.level = int(s.size(6, 10));
  const std::string x = of(a, format(s)), y = of(b, format(s));
  PBT_NOTE(s, "levels " << a.level << " and " << b.level << ": " << pbt::show(x) << " " << pbt::show(y));
  s.nontrivial();
  if (a.level == b.level) PBT_EQ(x, y, "two events of one level");
  else if (std::min(a.level, b.level) >= int(sml::levels::Debug)) PBT_CHECK(x != y, "levels " << a.level << " and " << b.level << " have the same colour");
}

// the format comes from the environment when the formatter is made, otherwise it is the documented default
PBT(environment, 4000, 60000) {
  const bool set = s.chance(3, 4);
  const std::string fmt = format(s);
  if (set) setenv("SMCONSOLE_FORMAT", fmt.c_str(), 1);
  else unsetenv("SMCONSOLE_FORMAT");
  sml::Formatter f;
  unsetenv("SMCONSOLE_FORMAT");
  f.doColor_ = false;
  const Ev e = event(s);
  std::ostringstream os;
  f.print(e.event(), os);
  size_t tokens, other;
  const std::string used = set ? fmt : "[${severity}] [${time}]: ${message}";
  const std::string want = render(used, e, Extra(), threadText(), tokens, other);
  comparable(os.str(), want, false, "format " + pbt::show(used));
  if (tokens && other) s.nontrivial();
}

namespace {
class Std : public sml::StdOutLogger {
 protected:
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::milliseconds(1500))); }
};
struct CoutTo {
  std::ostringstream os;
  std::streambuf* old;
  CoutTo() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~CoutTo() { std::cout.rdbuf(old); }
};
class At : public sml::Logger {
 public:
  Time now;
  std::string time;

 protected:
  void logImplementation(const sml::LoggingEvent& e) override { time = e.timestring; }
  Time currentTimeImplementation() const override { return now; }
};
class Rec : public sml::Logger {
 public:
  std::vector<std::pair<int, std::string>> events;

 protected:
  void logImplementation(const sml::LoggingEvent& e) override { events.push_back(std::make_pair(int(e.level), std::string(e.message))); }
};
void logAt(int level, const std::string& m) {
  switch (level) {
    case 0: SM_ALL_STREAM(m); break;
    case 1: SM_FINEST_STREAM(m); break;
    case 2: SM_VERBOSE_STREAM(m); break;
    case 3: SM_FINER_STREAM(m); break;
    case 4: SM_TRACE_STREAM(m); break;
    case 5: SM_FINE_STREAM(m); break;
    case 6: SM_DEBUG_STREAM(m); break;
    case 7: SM_INFO_STREAM(m); break;
    case 8: SM_WARN_STREAM(m); break;
    case 9: SM_ERROR_STREAM(m); break;
    default: SM_FATAL_STREAM(m); break;
  }
}
}  // namespace

// the time of an event is that of the logger's clock to the microsecond, in seconds since the epoch, in any zone and locale
PBT(clock, 10000, 200000) {
  const int64_t us = s.flip() ? s.range(0, int64_t(1000000) << 33) : s.pick({int64_t(0), int64_t(1), int64_t(999999), int64_t(1000000), int64_t(1700000000123456LL), int64_t(2147483648000000LL)}) + s.range(0, 1000);
  const bool foreign = s.flip();
  const std::string zone = s.pick({"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"});
  PBT_NOTE(s, us << " us after the epoch in zone " << zone << (foreign ? " in another locale" : ""));
  setenv("TZ", zone.c_str(), 1);
  tzset();
  if (us % 1000000) s.nontrivial();
  boost::shared_ptr<At> l(new At());
  l->now = At::Time(std::chrono::duration_cast<At::Duration>(std::chrono::microseconds(us)));
  std::string own;
  double seconds;
  {
    const OtherLocale locale(foreign);
    sml::setLogger(l);
    sml::setLevel(sml::levels::All);
    SM_INFO("message");
    own = l->currentTimeString();
    seconds = l->currentTimeSecondsUtc();
  }
  char want[64];
  // up to 2^33 s the seconds are held by a double with an error of less than half a microsecond
  snprintf(want, sizeof want, "%lld.%06d", (long long)(us / 1000000), int(us % 1000000));
  PBT_CHECK(std::fabs(seconds - double(us) / 1e6) <= 1e-15 * double(us) / 1e6, "the clock says " << seconds << " s at " << us << " us");
  PBT_EQ(own, std::string(want), "the logger's time");
  PBT_EQ(l->time, std::string(want), "the event's time");
}

// the standard logger prints the formatted event on standard output
PBT(standard_output, 4000, 60000) {
  boost::shared_ptr<Std> l(new Std());
  l->formatter.doColor_ = s.flip();
  const std::string fmt = s.chance(1, 3) ? "" : format(s);
  const Extra x = extras(s);
  l->formatter.extra_fixed_tokens_ = x;
  if (!fmt.empty()) l->formatter.init(fmt.c_str());
  // the location is the library's business here; leave those tokens to the property above
  for (const char* t : {"${file}", "${line}", "${function}"})
    if (fmt.find(t) != std::string::npos) s.discard();
  const OtherLocale locale(s.chance(1, 4));
  sml::setLogger(l);
  sml::setLevel(sml::levels::All);
  Ev e;
  e.level = int(s.below(11));
  e.message = anyText(s);
  e.stream = "sm";
  e.time = "1.500000";
  std::string got;
  {
    CoutTo c;
    logAt(e.level, e.message);
    got = c.os.str();
  }
  size_t tokens, other;
  const std::string want = render(fmt.empty() ? "[${severity}] [${time}]: ${message}" : fmt, e, x, threadText(), tokens, other);
  comparable(got, want, l->formatter.doColor_, "format " + pbt::show(fmt));
  if (tokens && other) s.nontrivial();
}

PBT(level_names, 30000, 400000) {
  static const char* const names[] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};
  boost::shared_ptr<Rec> l(new Rec());
  sml::setLogger(l);
  sml::setLevel(sml::levels::All);
  int want = int(s.below(11));
  std::string n = names[want];
  for (char& c : n) if (s.flip()) c = char(c - 32);
  switch (s.below(4)) {
    case 0: break;
    case 1: {  // one edit away
      const size_t at = s.below(n.size() + 1);
      switch (s.below(3)) {
        case 0: n.insert(at, 1, char(s.below(256))); break;
        case 1: if (at < n.size()) n.erase(at, 1); break;
        default: if (at < n.size()) n[at] = char(s.below(256)); break;
      }
      break;
    }
    case 2: n = s.pick({"", "warning", "none", "count", "levels::Info", "7", "info ", " info", "fatalerror", "off"}); break;
    default: n = s.bytes(8);
  }
  std::string lower = n;
  for (char& c : lower) if (c >= 'A' && c <= 'Z') c = char(c + 32);
  want = -1;
  for (int k = 0; k < 11; ++k) if (lower == names[k]) want = k;
  PBT_NOTE(s, "name " << pbt::show(n));
  const int got = int(sml::levels::fromString(n));
  if (want >= 0) {
    PBT_EQ(got, want, "level of " << pbt::show(n));
    PBT_EQ(l->events.size(), size_t(0), "a valid name was reported: " << pbt::show(n));
  } else {
    PBT_EQ(got, 7, "level of the unknown name " << pbt::show(n));
    PBT_EQ(l->events.size(), size_t(1), "reports of the unknown name " << pbt::show(n));
    PBT_EQ(l->events[0].first, 9, "level of the report of an unknown name");
    std::string m = l->events[0].second;
    for (char& c : m) if (c >= 'A' && c <= 'Z') c = char(c + 32);
    const std::string shown = lower.substr(0, lower.find('\0'));
    PBT_CHECK(m.find(shown) != std::string::npos, "the report does not name " << pbt::show(n) << ": " << m);
  }
  if (want < 0 || n != names[want]) s.nontrivial();
}
