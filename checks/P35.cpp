// P35: the Python package: logging with the caller's place, setting of values by type, progress, drawn frames.
#include "pyembed.hpp"
#include <boost/make_shared.hpp>
#include <cmath>
#include <map>
#include <set>
#include <sm/logging.hpp>
#include <sm/logging/LoggingEvent.hpp>
#include <sm/value_store/ValueStore.hpp>

PBT_PROPERTY("P35",
             "A case is a history of calls to the functions of the package sm: log functions of every level and stream, called at known places of generated source files while "
             "threshold and streams change; values of every type set in stores; progress sampled on a clock of the case; frames drawn on a recording axis. A case is non-trivial "
             "when a log call is suppressed and another one delivered, when a value replaces one of another type, when at least two samples are printed, or a frame is rotated.")
namespace bp = boost::python;
using namespace sm::logging;
namespace {
struct Event { std::string stream, file, function, message, time; int level, line; };
struct Recorder : Logger {
  std::vector<Event> events;
  void logImplementation(const LoggingEvent& e) override {
    events.push_back(Event{e.streamName, e.file, e.function, e.message, e.timestring, int(e.level), e.line});
  }
};
boost::shared_ptr<Recorder> recorder() {
  static boost::shared_ptr<Recorder> r = boost::make_shared<Recorder>();
  r->events.clear();
  setLogger(r);
  return r;
}
std::string full(const std::string& n) { return n == "sm" || n.substr(0, 3) == "sm." ? n : "sm." + n; }
const std::vector<std::string> kStreams = {"a", "b", "sm", "sm.a", "sm.c", "", "smx", "a.b", "x y"};
void resetStreams() {
  setLevel(levels::Info);
  for (auto& n : kStreams) disableNamedStream(n);
  enableNamedStream("sm");
}
const char* const kNames[] = {"All", "Finest", "Verbose", "Finer", "Trace", "Fine", "Debug", "Info", "Warn", "Error", "Fatal"};
std::string message(pbt::Source& s) {
  switch (s.below(4)) {
    case 0: return s.pick({"", "%s%n%d", "100%", "a\nb", "\xc3\xa9\xe6\x97\xa5", "{}", "${message}", "\t"});
    case 1: return std::string(size_t(s.below(6000)), 'x');
    default: return s.str("abc XYZ%{}$", 20);
  }
}
}  // namespace

PBT(logging, 1500, 15000) {
  bp::object pkg = pyembed::py([&] { return pyembed::package(); });
  auto rec = recorder();
  resetStreams();
  std::set<std::string> on = {"sm"};
  int level = int(levels::Info);
  // source files with functions at known lines; each call is one line of its own
  struct Call { std::string fn, file, function, stream, msg; int line, lvl; bool named; };
  bp::dict ns;
  ns["sm"] = pkg;
  ns["__builtins__"] = bp::import("builtins");
  bp::object compile = bp::import("builtins").attr("compile"), exec = bp::import("builtins").attr("exec");
  std::vector<Call> calls;
  bp::list msgs;
  int nfile = int(s.size(1, 2));
  for (int f = 0; f < nfile; ++f) {
    const std::string file = s.pick({"gen/x.py", "other dir/\xc3\xa9.py", "<string>", "y"}) + std::to_string(f);
    std::string src;
    int line = 1;
    for (size_t k = s.size(1, 4); k; --k) {
      for (size_t b = s.below(4); b; --b) { src += "\n"; ++line; }
      Call c;
      c.file = file;
      c.fn = "call" + std::to_string(calls.size());
      c.msg = message(s);
      c.named = s.flip();
      c.lvl = c.named || s.chance(1, 3) ? int(s.below(11)) : 1 + int(s.below(10));
      c.stream = c.named ? s.pick(kStreams) : "sm";
      const std::string m = "msgs[" + std::to_string(calls.size()) + "]";
      msgs.append(c.msg);
      const std::string st = c.named ? "'" + c.stream + "', " : "";
      const char* lv = kNames[c.lvl];
      const int form = int(s.below(c.lvl == 0 ? 2 : 4));
      std::string call;
      int depth = 0;
      if (form == 0) call = std::string(c.named ? "sm.logNamed(" : "sm.log(") + st + "sm.LoggingLevel." + lv + ", " + m + ")";
      else if (form == 1) {  // a helper of the user's own that names its caller's place
        depth = 1 + int(s.below(2));
        call = std::string(c.named ? "sm.logNamed(" : "sm.log(") + st + "sm.LoggingLevel." + lv + ", " + m + ", stackdepth=" + std::to_string(depth + 1) + ")";
      } else call = std::string("sm.log") + lv + (c.named ? "Named(" : "(") + st + m + ")";
      if (depth) {
        for (int d = 0; d < depth; ++d) {
          src += "def helper" + c.fn + std::to_string(d) + "():\n    " + (d == 0 ? call : "helper" + c.fn + std::to_string(d - 1) + "()") + "\n";
          line += 2;
        }
        call = "helper" + c.fn + std::to_string(depth - 1) + "()";
      }
      const int shape = int(s.below(3));
      if (shape == 0) { src += "def " + c.fn + "():\n    " + call + "\n"; c.function = c.fn; c.line = line + 1; line += 2; }
      else if (shape == 1) { src += "class K" + c.fn + ":\n  def method_" + c.fn + "(self):\n    x = 1\n    " + call + "\ndef " + c.fn + "():\n  K" + c.fn + "().method_" + c.fn + "()\n"; c.function = "method_" + c.fn; c.line = line + 3; line += 6; }
      else { src += c.fn + " = lambda: " + call + "\n"; c.function = "<lambda>"; c.line = line; line += 1; }
      calls.push_back(c);
    }
    pyembed::py([&] { exec(compile(src, file, "exec"), ns); return 0; });
  }
  ns["msgs"] = msgs;
  bool shown = false, hidden = false;
  auto spare = boost::make_shared<Recorder>();
  boost::shared_ptr<Recorder> cur = rec, heldLogger;
  bp::object held;
  for (size_t n = s.size(1, 25); n; --n) {
    switch (s.below(12)) {
      case 4: held = pyembed::py([&] { return bp::object(pkg.attr("getLogger")()); }); heldLogger = cur; break;
      case 5:
        if (!heldLogger) break;
        pyembed::py([&] { pkg.attr("setLogger")(held); return 0; });
        cur = heldLogger;
        if (s.flip()) { held = bp::object(); heldLogger.reset(); }
        PBT_CHECK(getLogger().get() == cur.get(), "setLogger installed another logger than getLogger returned");
        break;
      case 6: cur = cur == rec ? spare : rec; setLogger(cur); break;
      case 0: {
        level = int(s.below(11));
        const std::string how = s.flip() ? std::string("enum") : std::string("name");
        bp::object lv;
        if (how == "enum") lv = bp::object(pkg.attr("LoggingLevel").attr(kNames[level]));
        else {
          std::string w = kNames[level];
          for (auto& ch : w) ch = s.flip() ? char(std::tolower(ch)) : char(std::toupper(ch));
          lv = pyembed::py([&] { return bp::object(pkg.attr("loggingLevelFromString")(w)); });
        }
        pyembed::py([&] { pkg.attr("setLoggingLevel")(lv); return 0; });
        PBT_EQ(int(getLevel()), level, "the threshold that Python set by " << how);
        break;
      }
      case 1: { const std::string st = s.pick(kStreams); pyembed::py([&] { pkg.attr("enableNamedLoggingStream")(st); return 0; }); on.insert(full(st)); break; }
      case 2: { const std::string st = s.pick(kStreams); pyembed::py([&] { pkg.attr("disableNamedLoggingStream")(st); return 0; }); on.erase(full(st)); break; }
      case 7: {  // with the place given
        const int lvl = int(s.below(11)), line = int(s.pick({0, 1, 77, 2147483647}));
        const std::string st = s.pick(kStreams), file = s.pick({"", "raw.py", "a b/\xc3\xa9.py"}), function = s.pick({"", "f", "<lambda>"}), m = message(s);
        const bool named = s.flip();
        const std::string stream = named ? st : "sm", what = std::string("rawLog") + (named ? "Named" : "") + " on " + pbt::show(stream) + ", level " + kNames[lvl] + " at threshold " + kNames[level];
        if (lvl < level) break;  // whether these functions look at the threshold is not said
        rec->events.clear();
        spare->events.clear();
        bp::object lv(pkg.attr("LoggingLevel").attr(kNames[lvl]));
        pyembed::py([&] { if (named) pkg.attr("rawLogNamed")(st, lv, file, line, function, m); else pkg.attr("rawLog")(lv, file, line, function, m); return 0; });
        const bool want = on.count(full(stream)) > 0;
        PBT_CHECK(cur->events.size() == (want ? 1u : 0u) && rec->events.size() + spare->events.size() == cur->events.size(), what << " delivered " << cur->events.size() << " events instead of " << want);
        if (!want) break;
        const Event& e = cur->events[0];
        PBT_CHECK(e.level == lvl && e.message == m && e.file == file && e.function == function && e.line == line && full(e.stream) == full(stream),
                  what << ": delivered as level " << e.level << ", " << pbt::show(e.message) << ", " << pbt::show(e.file) << ":" << e.line << ", " << pbt::show(e.function) << ", " << pbt::show(e.stream));
        s.label("raw");
        break;
      }
      case 3: {
        for (auto& st : kStreams) PBT_EQ(pyembed::as<bool>(pyembed::py([&] { return bp::object(pkg.attr("isNamedLoggingStreamEnabled")(st)); }), "isNamedLoggingStreamEnabled"), on.count(full(st)) > 0, "stream " << pbt::show(st));
        PBT_EQ(int(pyembed::as<Level>(pyembed::py([&] { return bp::object(pkg.attr("getLoggingLevel")()); }), "getLoggingLevel")), level, "getLoggingLevel");
        break;
      }
      default: {
        const Call& c = calls[s.below(calls.size())];
        rec->events.clear();
        spare->events.clear();
        const double before = rec->currentTimeSecondsUtc();
        pyembed::py([&] { ns[c.fn](); return 0; });
        const bool want = c.lvl >= level && on.count(full(c.stream));
        (want ? shown : hidden) = true;
        std::string what = std::string(c.named ? "a call on stream " + pbt::show(c.stream) : std::string("a call")) + " of level " + kNames[c.lvl] + " at threshold " + kNames[level];
        PBT_CHECK(cur->events.size() == (want ? 1u : 0u), what << " delivered " << cur->events.size() << " events instead of " << want);
        PBT_CHECK(rec->events.size() + spare->events.size() == cur->events.size(), what << " was delivered to a logger that is not in use");
        if (!want) break;
        const Event& e = cur->events[0];
        PBT_EQ(e.level, c.lvl, what << ": level");
        PBT_EQ(e.message, c.msg, what << ": message");
        PBT_EQ(e.file, c.file, what << ": file");
        PBT_EQ(e.function, c.function, what << ": function");
        PBT_EQ(e.line, c.line, what << ": line");
        PBT_EQ(full(e.stream), full(c.stream), what << ": stream");
        PBT_CHECK(std::fabs(std::strtod(e.time.c_str(), nullptr) - before) < 60, what << ": time " << e.time << " instead of about " << before);
      }
    }
  }
  if (shown && hidden) s.nontrivial();
  setLogger(rec);
  resetStreams();
}

PBT(set_by_type, 2500, 25000) {
  bp::object pkg = pyembed::py([&] { return pyembed::package(); });
  auto rec = recorder();
  resetStreams();
  bp::object evs = pyembed::py([&] { return bp::object(pkg.attr("ExtendibleValueStoreRef")()); });
  sm::ExtendibleValueStoreRef want;
  std::string hist;
  std::map<std::string, int> kind;
  for (size_t n = s.size(1, 20); n; --n) {
    const std::string k = s.pick({"a", "b", "a/c", "d/e/f"});
    bp::object v;
    int t = int(s.below(6));
    const bool add = s.chance(3, 4), force = s.chance(1, 4);
    int iv = int(s.anyInt(-2147483648LL, 2147483647LL));
    double dv = s.chance(1, 4) ? std::floor(s.uniform(-5, 5)) : s.anyFinite();
    bool bv = s.flip();
    std::string sv = s.pick({"", "true", "1", "text", "\xc3\xa9", "1.5"});
    switch (t) {
      case 0: v = bp::object(bv); break;
      case 1: v = bp::object(iv); break;
      case 2: v = bp::object(dv); break;
      case 3: v = bp::object(sv); break;
      case 4: if (s.flip()) v = bp::object(); else v = bp::list(); break;
      case 5: v = bp::object(bp::handle<>(PyLong_FromLongLong(s.flip() ? 2147483648LL + s.below(1000) : -2147483649LL))); break;
    }
    if (kind.count(k) && kind[k] != t) s.nontrivial();
    const bool has = want.hasKey(k);
    auto apply = [&] {
      const bool a = add && (!has || force);
      try {
        switch (t) {
          case 0: if (a) want.addBool(k, bv); else want.getBool(k).update(bv); break;
          case 1: if (a) want.addInt(k, iv); else want.getInt(k).update(iv); break;
          case 2: if (a) want.addDouble(k, dv); else want.getDouble(k).update(dv); break;
          case 3: if (a) want.addString(k, sv); else want.getString(k).update(sv); break;
          case 5: return std::string("OverflowError");
        }
      } catch (const std::exception&) { return std::string("raises"); }
      return std::string();
    };
    hist += k + "=" + std::to_string(t) + (add ? " add" : "") + (force ? " force" : "") + "; ";
    rec->events.clear();
    const int how = int(s.below(3));
    std::string msg;
    std::string got = pyembed::raised([&] {
      if (how == 0) { if (add && !force) bp::object(evs.attr("set")(k, v)); else if (!force) bp::object(evs.attr("set")(k, v, add)); else bp::object(evs.attr("set")(k, v, add, force)); }
      else if (how == 1) bp::object(pkg.attr("setExtendableValueStoreValue")(evs, k, v, add, force));
      else {
        bp::dict kw;
        kw["add_if_missing"] = add;
        kw["force_add"] = force;
        bp::object f(evs.attr("set"));
        bp::object(f(*bp::make_tuple(k, v), **kw));
      }
    }, &msg);
    std::string exp = apply();
    if (t == 5) PBT_CHECK(got != "", "an integer that does not fit was taken: " << hist);
    else PBT_CHECK((got == "") == (exp == ""), hist << " raised " << (got == "" ? "nothing" : msg) << ", C++ " << (exp == "" ? "does not raise" : "raises"));
    PBT_EQ(rec->events.size(), size_t(t == 4), "events logged for a value of " << (t == 4 ? "an unknown" : "a known") << " type: " << hist);
    if (t == 4) PBT_EQ(rec->events[0].level, int(levels::Fatal), "the level of the complaint");
    if (got == "" && t < 4) kind[k] = t;
    for (const char* q : {"a", "b", "a/c", "d/e/f", "d"}) {
      PBT_EQ(pyembed::as<bool>(pyembed::py([&] { return bp::object(evs.attr("hasKey")(q)); }), "hasKey"), want.hasKey(q), "hasKey(" << q << ") after " << hist);
      if (!want.hasKey(q)) continue;
      std::string w = "raises";
      try { w = want.getString(q).get(); } catch (const std::exception&) {}
      std::string g = "raises";
      pyembed::raised([&] { g = bp::extract<std::string>(evs.attr("getString")(q)); });
      PBT_EQ(g, w, "the text of " << q << " after " << hist);
    }
  }
}

namespace {
/// runs a progress tracker on a clock of its own; returns what it printed and the counters after every step
struct Tracker {
  bp::dict ns;
  Tracker() {
    ns["pkg"] = pyembed::package();
    pyembed::run("import io, sys, time\n"
                 "class Clock:\n"
                 "    now = 0.0\n"
                 "    @staticmethod\n"
                 "    def time(): return Clock.now\n"
                 "def call(f, *a):\n"
                 "    real, out = time.time, sys.stdout\n"
                 "    time.time, sys.stdout = Clock.time, io.StringIO()\n"
                 "    try:\n"
                 "        f(*a)\n"
                 "        return sys.stdout.getvalue()\n"
                 "    finally:\n"
                 "        time.time, sys.stdout = real, out\n", ns);
  }
};
/// seconds meant by "1 h 2m 3s", with any part left out
double seconds(const std::string& t) {
  double v = 0;
  size_t i = 0;
  while (i < t.size()) {
    if (!std::isdigit((unsigned char)t[i])) { ++i; continue; }
    double x = 0;
    while (i < t.size() && std::isdigit((unsigned char)t[i])) x = x * 10 + (t[i++] - '0');
    while (i < t.size() && t[i] == ' ') ++i;
    PBT_CHECK(i < t.size() && (t[i] == 'h' || t[i] == 'm' || t[i] == 's'), "the time " << pbt::show(t) << " has a number without unit");
    v += x * (t[i] == 'h' ? 3600 : t[i] == 'm' ? 60 : 1);
  }
  return v;
}
/// the first number after a word
double after(const std::string& t, const std::string& w, size_t skip = 0) {
  size_t i = t.find(w);
  PBT_CHECK(i != t.npos, "no " << w << " in " << pbt::show(t));
  i += w.size();
  for (;; --skip) {
    while (i < t.size() && !std::isdigit((unsigned char)t[i])) ++i;
    PBT_CHECK(i < t.size(), "no number after " << w << " in " << pbt::show(t));
    char* e;
    const double v = std::strtod(t.c_str() + i, &e);
    if (!skip) return v;
    i = size_t(e - t.c_str());
  }
}
}  // namespace
PBT(progress, 800, 10000) {
  pyembed::py([&] { return pyembed::package(); });
  static Tracker* tr = new Tracker();
  bp::object call = tr->ns["call"], clock = tr->ns["Clock"];
  const bool two = s.chance(2, 3);
  int n = int(1 + s.below(s.flip() ? 10 : 100000));
  bp::object p = pyembed::py([&] { return bp::object(pyembed::package().attr(two ? "Progress2" : "Progress")(n)); });
  double now = s.uniform(0, 1e9), start = 0;
  bool started = false;
  long done = 0;
  int printed = 0;
  for (size_t i = s.size(1, 12); i; --i) {
    now += s.logUniform(1e-2, 1e6);
    clock.attr("now") = now;
    if (two && s.chance(1, 8)) {
      if (s.flip()) { n = s.chance(1, 8) ? 0 : int(1 + s.below(1000)); pyembed::py([&] { p.attr("reset")(n); return 0; }); }
      else pyembed::py([&] { p.attr("reset")(); return 0; });
      started = false;
      done = 0;
      continue;
    }
    long steps = 1;
    std::string text = pyembed::py([&] {
      bp::object f(p.attr("sample"));
      if (two && started && s.chance(1, 3)) { steps = long(1 + s.below(20)); return std::string(bp::extract<std::string>(call(f, steps))); }
      return std::string(bp::extract<std::string>(call(f)));
    });
    if (!started) {
      started = true;
      start = now;
      done = 0;
      PBT_CHECK(text.empty(), "the first sample printed " << pbt::show(text));
    } else {
      done += steps;
      const double el = now - start, total = el / double(done) * n, left = total - el;
      PBT_EQ(after(text, "Progress"), double(done), "samples done in " << pbt::show(text));
      PBT_EQ(after(text, "Progress", 1), double(n), "samples in all in " << pbt::show(text));
      if (two) {
        const size_t c = text.find("remaining:");
        PBT_CHECK(c != text.npos, "no time remaining in " << pbt::show(text));
        if (left >= 0) {
          const double got = seconds(text.substr(c));
          PBT_CHECK(std::fabs(got - left) <= 1 + 1e-9 * total, "time remaining " << got << " s instead of " << left << ": " << pbt::show(text));
        }
        PBT_CHECK(text.find('\n') == text.npos && text[0] == '\r', "the line is not rewritten: " << pbt::show(text));
      }
      if (++printed >= 2) s.nontrivial();
    }
    PBT_EQ(pyembed::as<long>(bp::object(p.attr("iteration")), "iteration"), done, "iteration");
  }
}

PBT(frames, 300, 3000) {
  bp::object pkg = pyembed::py([&] { return pyembed::package(); });
  static bp::dict* ns = [] {
    bp::dict* d = new bp::dict();
    pyembed::run("import numpy\n"
                 "class Axis:\n"
                 "    def __init__(self): self.lines = []\n"
                 "    def plot3D(self, *a, **k): self.plot(*a, **k)\n"
                 "    def plot(self, *a, **k): self.lines.append(([[float(v) for v in x] for x in a[:3]], a[3], k['linewidth']))\n"
                 "class Box:\n"
                 "    def __init__(self, what): self.what = what\n"
                 "    def transformed(self, t): return (self.what, t)\n"
                 "class Fig:\n"
                 "    class dpi_scale_trans:\n"
                 "        @staticmethod\n"
                 "        def inverted(): return 'inverse'\n"
                 "    def gca(self): return self\n"
                 "    def get_window_extent(self): return Box('extent')\n"
                 "    def savefig(self, name, **k): self.saved = (name, k)\n"
                 "numeric = hasattr(numpy, 'array')\n", *d);
    return d;
  }();
  const std::string fn = s.str("abc./ ", 10);
  pyembed::py([&] {
    bp::object f = (*ns)["Fig"]();
    pkg.attr("saveFigTight")(f, fn);
    PBT_EQ(std::string(bp::extract<std::string>(f.attr("saved")[0])), fn, "the file of the figure");
    bp::object box = f.attr("saved")[1]["bbox_inches"];
    PBT_CHECK(bool(bp::object(box == bp::make_tuple("extent", "inverse"))), "the figure is not cut to its axes");
    return 0;
  });
  if (!bp::extract<bool>((*ns)["numeric"])) s.discard();
  double T[4][4], size = s.flip() ? 1 : s.uniform(0.1, 5);
  bp::list rows;
  for (int i = 0; i < 4; ++i) {
    bp::list r;
    for (int j = 0; j < 4; ++j) {
      T[i][j] = i == 3 ? (j == 3) : s.chance(1, 4) ? double(i == j) : s.uniform(-2, 2);
      if (i != j && i < 3 && j < 3 && T[i][j] != 0) s.nontrivial();
      r.append(T[i][j]);
    }
    rows.append(r);
  }
  const int w = int(1 + s.below(5));
  pyembed::py([&] {
    bp::object ax = (*ns)["Axis"](), M = bp::import("numpy").attr("array")(rows);
    const bool def = size == 1 && s.flip();
    const int axes = s.flip() ? 3 : 2;  // the flat one leaves out the z axis
    const char* how = axes == 3 ? "plotCoordinateFrame" : "plot2DCoordinateFrame";
    if (def) pkg.attr(how)(ax, M);
    else pkg.attr(how)(ax, M, size, w);
    bp::object lines(ax.attr("lines"));
    PBT_EQ(long(bp::len(lines)), long(axes), "lines drawn by " << how);
    std::set<int> seen;
    for (int k = 0; k < axes; ++k) {
      const std::string c = bp::extract<std::string>(lines[k][1]);
      const int a = c[0] == 'r' ? 0 : c[0] == 'g' ? 1 : 2;
      PBT_CHECK(c.size() == 2 && c[1] == '-' && (a < 2 || c[0] == 'b') && a < axes, "line style " << c << " from " << how);
      PBT_CHECK(seen.insert(a).second, "colour " << c << " twice");
      PBT_EQ(int(bp::extract<int>(lines[k][2])), def ? 3 : w, "width of the line");
      for (int x = 0; x < 3; ++x) {
        const double p0 = bp::extract<double>(lines[k][0][x][0]), p1 = bp::extract<double>(lines[k][0][x][1]);
        PBT_CHECK(std::fabs(p0 - T[x][3]) < 1e-9 && std::fabs(p1 - (T[x][3] + size * T[x][a])) < 1e-9, "axis " << a << " goes in coordinate " << x << " from " << p0 << " to " << p1 << " instead of from " << T[x][3] << " to " << T[x][3] + size * T[x][a]);
      }
    }
    return 0;
  });
}

PBT(figure_tabs, 300, 3000) {
  pyembed::py([&] { return pyembed::package(); });
  static bp::dict* ns = [] {
    bp::dict* d = new bp::dict();
    pyembed::run("import sys, types\n"
                 "shown = []\n"
                 "class Panel(object):\n"
                 "    def __init__(self, parent, id=-1, **k): self.parent = parent; self.sizer = None\n"
                 "    def SetSizer(self, s): self.sizer = s\n"
                 "class Frame(object):\n"
                 "    def __init__(self, parent, id, title, size=None): self.title = title; self.size = size; self.visible = False; shown.append(self)\n"
                 "    def Show(self, on=True): self.visible = on\n"
                 "class App(object):\n"
                 "    def __init__(self, *a): pass\n"
                 "    def MainLoop(self): assert all(f.visible for f in shown), 'the window is not shown'\n"
                 "class Sizer(object):\n"
                 "    def __init__(self, *a): self.items = []\n"
                 "    def Add(self, w, *a, **k): self.items.append(w)\n"
                 "class Notebook(object):\n"
                 "    def __init__(self, parent): self.parent = parent; self.pages = []; parent.nb_seen = self; parent.parent.notebook = self\n"
                 "    def AddPage(self, page, name, *a, **k): self.pages.append((name, page))\n"
                 "class Canvas(object):\n"
                 "    def __init__(self, parent, id, fig): self.parent = parent; self.fig = fig\n"
                 "class Toolbar(object):\n"
                 "    def __init__(self, canvas): self.canvas = canvas; self.realized = False\n"
                 "    def Realize(self): self.realized = True\n"
                 "class Fig(object):\n"
                 "    def __init__(self, n): self.n = n\n"
                 "    def set_figheight(self, h): pass\n"
                 "    def set_figwidth(self, w): pass\n"
                 "def mod(name, **k):\n"
                 "    m = types.ModuleType(name); m.__dict__.update(k); m.__path__ = []; sys.modules[name] = m\n"
                 "    if '.' in name: setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)\n"
                 "mod('wxversion', ensureMinimal=lambda v: None)\n"
                 "mod('wx', PySimpleApp=App, App=App, Frame=Frame, Panel=Panel, BoxSizer=Sizer, VERTICAL=8, HORIZONTAL=4, EXPAND=8192, LEFT=16)\n"
                 "mod('wx.aui', AuiNotebook=Notebook)\n"
                 "mod('matplotlib.backends')\n"
                 "mod('matplotlib.backends.backend_wxagg', FigureCanvasWxAgg=Canvas, NavigationToolbar2Wx=Toolbar)\n"
                 "from sm import PlotCollection\n"
                 "make = PlotCollection.PlotCollection\n"
                 "def show(c):\n"
                 "    del shown[:]\n"
                 "    c.show()\n"
                 "    if not shown: return None\n"
                 "    f, = shown\n"
                 "    pages = []\n"
                 "    for name, p in f.notebook.pages:\n"
                 "        cs = [i for i in p.sizer.items if isinstance(i, Canvas)]\n"
                 "        ts = [i for i in p.sizer.items if isinstance(i, Toolbar)]\n"
                 "        assert len(cs) == 1 and len(ts) == 1 and ts[0].canvas is cs[0] and ts[0].realized, 'a page without its canvas and toolbar'\n"
                 "        pages.append((name, cs[0].fig.n))\n"
                 "    return (f.title, f.size, pages)\n",
                 *d);
    return d;
  }();
  const std::string title = s.pick({"", "My window", "\xc3\xa9"});
  const int w = int(1 + s.below(2000)), h = int(1 + s.below(2000));
  const bool plain = s.chance(1, 4);
  struct Coll { bp::object o; std::vector<std::pair<std::string, int>> m; };
  std::vector<Coll> cs;
  for (int k = 0; k < 2; ++k) cs.push_back(Coll{pyembed::py([&] { return plain ? bp::object((*ns)["make"](title)) : bp::object((*ns)["make"](title, bp::make_tuple(w, h))); }), {}});
  int next = 0;
  bool removed = false;
  for (size_t n = s.size(1, 15); n; --n) {
    Coll& c = cs[s.below(4) == 0];
    const std::string name = s.pick({"a", "b", "c", "", "plot 1", "\xc3\xa9"});
    auto at = std::find_if(c.m.begin(), c.m.end(), [&](const std::pair<std::string, int>& e) { return e.first == name; });
    switch (s.below(4)) {
      case 0: case 1: {
        const int id = next++;
        pyembed::py([&] { c.o.attr("add_figure")(name, (*ns)["Fig"](id)); return 0; });
        if (at != c.m.end()) at->second = id; else c.m.push_back({name, id});
        break;
      }
      case 2:
        pyembed::py([&] { c.o.attr("delete_figure")(name); return 0; });
        if (at != c.m.end()) { c.m.erase(at); removed = true; }
        break;
      default: {
        bp::object r = pyembed::py([&] { return bp::object((*ns)["show"](c.o)); });
        if (c.m.empty()) { PBT_CHECK(r.is_none(), "an empty collection opens a window"); break; }
        PBT_CHECK(!r.is_none(), "no window");
        PBT_EQ(pyembed::as<std::string>(bp::object(r[0]), "title"), title, "title");
        PBT_CHECK(pyembed::as<int>(bp::object(r[1][0]), "width") == (plain ? 800 : w) && pyembed::as<int>(bp::object(r[1][1]), "height") == (plain ? 600 : h), "size of the window");
        PBT_EQ(long(bp::len(r[2])), long(c.m.size()), "number of tabs");
        for (size_t i = 0; i < c.m.size(); ++i) {
          PBT_EQ(pyembed::as<std::string>(bp::object(r[2][i][0]), "name"), c.m[i].first, "name of tab " << i);
          PBT_EQ(pyembed::as<int>(bp::object(r[2][i][1]), "figure"), c.m[i].second, "figure of tab " << i);
        }
        if (c.m.size() > 1 || removed) s.nontrivial();
      }
    }
  }
}
