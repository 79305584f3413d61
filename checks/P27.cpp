// P27: string routines.
#include "pbt.hpp"
#include <cfloat>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <sm/string_routines.hpp>
#include <iomanip>

PBT_PROPERTY("P27",
             "Strings over a small alphabet rich in the target character, at either end and in runs, with skip counts around the number of "
             "occurrences; environment texts built from literal runs, references to defined, undefined and empty variables, unbalanced "
             "and nested markers; numbers from all finite doubles with any width and precision. Non-trivial: the string contains the target "
             "and skip is below its number of occurrences, a text has at least one complete reference, or a number is not an integer.")

static std::string show(const std::string& x) { return pbt::show(x); }

PBT(replace_forward, 60000, 900000, pbt::Options{8}) {
  std::string a = s.flip() ? std::string("ab") : std::string("abc/\\ \0", 7);
  std::string in = s.str(a, s.chance(1, 10) ? 900 : 24);
  char target = a[s.below(a.size())];
  char repl = s.chance(1, 4) ? target : a[s.below(a.size())];
  unsigned n = 0;
  for (char c : in) n += c == target;
  unsigned skip = unsigned(s.chance(1, 8) ? s.anyInt(0, UINT32_MAX) : s.range(0, n + 1));
  if (skip < n) s.nontrivial();
  PBT_NOTE(s, show(in) << " " << target << "->" << repl << " skip " << skip);
  std::string e = in;
  unsigned k = 0;
  for (char& c : e)
    if (c == target && k++ >= skip) c = repl;
  std::string orig = in;
  PBT_EQ(show(sm::replace(in, target, repl, skip)), show(e), "");
  PBT_CHECK(in == orig, "argument unchanged");
  if (skip == 0) PBT_EQ(show(sm::replace(in, target, repl)), show(e), "default skip");
}

PBT(replace_backward, 60000, 900000, pbt::Options{8}) {
  std::string a = s.flip() ? std::string("ab") : std::string("abc/\\ \0", 7);
  std::string in = s.str(a, s.chance(1, 10) ? 900 : 24);
  char target = a[s.below(a.size())];
  char repl = s.chance(1, 4) ? target : a[s.below(a.size())];
  unsigned n = 0;
  for (char c : in) n += c == target;
  unsigned skip = unsigned(s.chance(1, 8) ? s.anyInt(0, UINT32_MAX) : s.range(0, n + 1));
  if (skip < n) s.nontrivial();
  PBT_NOTE(s, show(in) << " " << target << "->" << repl << " skip " << skip);
  std::string e = in;
  unsigned k = 0;
  for (size_t i = e.size(); i-- > 0;)
    if (e[i] == target && k++ >= skip) e[i] = repl;
  PBT_EQ(show(sm::replace_reverse(in, target, repl, skip)), show(e), "");
  if (skip == 0) PBT_EQ(show(sm::replace_reverse(in, target, repl)), show(e), "default skip");
}

PBT(leading_pad, 30000, 300000) {
  std::string in = s.bytes(s.chance(1, 10) ? 900 : 20);
  unsigned len = unsigned(s.range(0, 40));
  char c = char(s.below(256));
  if (len > in.size()) s.nontrivial();
  std::string r = sm::leading_pad(in, len, c);
  std::string e = (len > in.size() ? std::string(len - in.size(), c) : std::string()) + in;
  PBT_EQ(show(r), show(e), "");
}

PBT(trailing_separator, 20000, 200000) {
  std::string in = s.str("/ab\\.", s.chance(1, 10) ? 600 : 8);
  if (!in.empty() && in.back() != '/') s.nontrivial();
  std::string r = sm::ensureTrailingBackslash(in);
  PBT_EQ(show(r), show(in.empty() || in.back() != '/' ? in + "/" : in), "");
  PBT_EQ(show(sm::ensureTrailingBackslash(r)), show(r), "idempotent");
}

PBT(env_substitution, 80000, 1200000, pbt::Options{8}) {
  static const char* names[] = {"PBT_A", "PBT_B", "PBT_EMPTY", "PBT_REC", "PBT LONG.1", "PBT_U"};
  std::string va = s.str("xy$( /", 6), vlong = s.str("z/", s.chance(1, 6) ? 5000 : 30);
  ::setenv("PBT_A", va.c_str(), 1);
  ::setenv("PBT_B", "value b", 1);
  ::setenv("PBT_EMPTY", "", 1);
  ::setenv("PBT_REC", "$(PBT_B)", 1);
  ::setenv("PBT LONG.1", vlong.c_str(), 1);
  ::unsetenv("PBT_U");
  std::string in, e;
  bool open = false;  // an unmatched "$(" swallows everything up to the next ')'
  int refs = 0;
  const bool big = s.chance(1, 10);
  size_t n = s.size(0, big ? 120 : 8);
  for (size_t i = 0; i < n; ++i) {
    switch (s.below(4)) {
      case 0: {
        std::string l = s.str("ab)(/ \n", big ? 300 : 5);
        in += l; e += l;
        break;
      }
      case 1: {  // '$' not followed by '('
        in += "$x"; e += "$x";
        break;
      }
      case 2: {
        unsigned k = unsigned(s.below(6));
        in += std::string("$(") + names[k] + ")";
        const char* v = ::getenv(names[k]);
        e += v ? std::string(v) : std::string("$(") + names[k] + ")";
        ++refs;
        break;
      }
      default:
        if (s.chance(1, big ? 60 : 3)) { in += "$("; open = true; }
        else { std::string l = "$(NOT_DEFINED_" + s.str("ab", 3) + ")"; in += l; e += l; }
    }
    if (open) break;
  }
  std::string tail;
  if (open) {
    // text after an opening marker: without a closing one it is all literal
    tail = s.str("ab /", 4);
    in += tail;
    e += "$(" + tail;
    if (s.flip()) {  // closing it with a name that is a nested reference start: the name is "...$(PBT_A"
      std::string inner = "$(PBT_A)";
      in += inner; e += inner;
    }
  }
  if (refs) s.nontrivial();
  PBT_NOTE(s, show(in));
  PBT_EQ(show(sm::substituteEnvVars(in)), show(e), show(in));
}

static double number(pbt::Source& s) {
  double v = s.anyFinite();
  if (v != std::floor(v)) s.nontrivial();
  return v;
}
static std::string cfmt(const char* f, int w, int p, double v) {
  std::vector<char> b(2048);
  int n = std::snprintf(b.data(), b.size(), f, w, p, v);
  if (size_t(n) >= b.size()) { b.resize(n + 1); std::snprintf(b.data(), b.size(), f, w, p, v); }
  return b.data();
}

PBT(number_formats, 60000, 900000) {
  double v = number(s);
  unsigned w = unsigned(s.range(0, 40)), p = unsigned(s.range(0, 30));
  PBT_NOTE(s, v << " width " << w << " precision " << p);
  std::string f = sm::padded(v, w, p);
  PBT_EQ(f, cfmt("%*.*f", int(w), int(p), v), "padded");
  PBT_CHECK(f.size() >= w, "width");
  std::string ff = sm::fixedFloat(v, p);
  PBT_EQ(ff, cfmt("%*.*f", 0, int(p), v), "fixedFloat");
  size_t dot = ff.find('.');
  PBT_EQ(dot == std::string::npos ? size_t(0) : ff.size() - dot - 1, size_t(p), "number of decimals");
  std::string sc = sm::scientific(v, w, p);
  PBT_EQ(sc, cfmt("%*.*e", int(std::max(w, p + 7)), int(p), v), "scientific");
  PBT_CHECK(sc.size() >= w && sc.size() >= p + 7, "width");
  if (p >= 17) {
    double back = std::strtod(sc.c_str(), nullptr);
    PBT_CHECK(back == v, "scientific notation with 17 digits parses back");
  }
  if (std::fabs(v) < 1e6 && p <= 9) PBT_NEAR(std::strtod(ff.c_str(), nullptr), v, 0.5000001 * std::pow(10.0, -double(p)) + 4e-16 * std::fabs(v), "fixed parses back");
}

PBT(integer_padding, 40000, 400000) {
  int64_t v = s.anyInt(INT64_MIN, INT64_MAX);
  unsigned d = unsigned(s.range(0, 30));
  char c = s.pick({'0', ' ', 'x', '*'});
  PBT_NOTE(s, v << " digits " << d);
  std::string raw = std::to_string(v);
  if (raw.size() < d) s.nontrivial();
  PBT_EQ(sm::padded(v, d, c), (raw.size() < d ? std::string(d - raw.size(), c) : "") + raw, "");
  if (v >= 0) {
    std::string z = sm::padded(v, d);
    PBT_EQ(std::strtoll(z.c_str(), nullptr, 10), (long long)v, "zero padding keeps the value");
    PBT_EQ(z.size(), std::max(size_t(d), raw.size()), "width");
  }
  int i32 = int(s.anyInt(INT32_MIN, INT32_MAX));
  PBT_EQ(sm::padded(i32, d, c), sm::leading_pad(std::to_string(i32), d, c), "int");
  std::string str = s.str("abc ", 10);
  PBT_EQ(sm::padded(str, d, c), sm::leading_pad(str, d, c), "string");
  PBT_EQ(sm::ts(v), raw, "ts");
  PBT_EQ(sm::ts(str), str, "ts");
  PBT_EQ(sm::s_tuple(v), raw, "tuple of one");
}

PBT(tuples, 20000, 200000) {
  std::string t[7];
  for (auto& x : t) x = std::to_string(s.anyInt(-1000000, 1000000));
  long long n[7];
  for (int i = 0; i < 7; ++i) n[i] = std::atoll(t[i].c_str());
  s.nontrivial();
  PBT_EQ(sm::s_tuple(n[0], t[1]), "[" + t[0] + "," + t[1] + "]", "");
  PBT_EQ(sm::s_tuple(n[0], t[1], n[2]), "[" + t[0] + "," + t[1] + "," + t[2] + "]", "");
  PBT_EQ(sm::s_tuple(n[0], t[1], n[2], t[3]), "[" + t[0] + "," + t[1] + "," + t[2] + "," + t[3] + "]", "");
  PBT_EQ(sm::s_tuple(n[0], t[1], n[2], t[3], n[4]), "[" + t[0] + "," + t[1] + "," + t[2] + "," + t[3] + "," + t[4] + "]", "");
  PBT_EQ(sm::s_tuple(n[0], t[1], n[2], t[3], n[4], t[5]), "[" + t[0] + "," + t[1] + "," + t[2] + "," + t[3] + "," + t[4] + "," + t[5] + "]", "");
  PBT_EQ(sm::s_tuple(n[0], t[1], n[2], t[3], n[4], t[5], n[6]),
         "[" + t[0] + "," + t[1] + "," + t[2] + "," + t[3] + "," + t[4] + "," + t[5] + "," + t[6] + "]", "");
}

PBT(sequences, 40000, 400000) {
  std::vector<double> v;
  size_t n = s.size(0, 8);
  for (size_t i = 0; i < n; ++i) v.push_back(s.flip() ? s.real(1000) : s.signedLog(1e-8, 1e12));
  if (n > 1) s.nontrivial();
  std::string del = s.str(",; ", 3), pre = s.str("[<(", 2), post = s.str("])>", 2);
  PBT_NOTE(s, n << " elements, delimiter " << show(del));
  std::ostringstream e;
  e << pre;
  for (size_t i = 0; i < n; ++i) e << (i ? del : "") << v[i];
  e << post;
  std::ostringstream o;
  sm::toStream(o, v.begin(), v.end(), del, pre, post);
  PBT_EQ(o.str(), e.str(), "toStream");
  std::list<double> l(v.begin(), v.end());
  std::ostringstream o2;
  sm::toStream(o2, l.begin(), l.end(), del, pre, post);
  PBT_EQ(o2.str(), e.str(), "toStream of a list");
  std::ostringstream ea;
  ea << "[";
  for (size_t i = 0; i < n; ++i) ea << (i ? "," : "") << v[i];
  ea << "]";
  PBT_EQ(sm::arrToString(v.begin(), v.end()), ea.str(), "arrToString");
  v.reserve(1);
  PBT_EQ(sm::arrToString(v.data(), unsigned(n)), ea.str(), "arrToString of an array");
  std::ostringstream od, ed;
  sm::toStream(od, v.begin(), v.end());
  for (size_t i = 0; i < n; ++i) ed << (i ? " " : "") << v[i];
  PBT_EQ(od.str(), ed.str(), "default delimiter");
  int w = int(s.range(0, 20)), p = int(s.range(0, 12));
  std::string ep = pre;
  for (size_t i = 0; i < n; ++i) ep += (i ? del : "") + cfmt("%*.*f", w, p, v[i]);
  ep += post;
  PBT_EQ(sm::paddedToString(w, p, v.begin(), v.end(), del, pre, post), ep, "paddedToString");
  std::ostringstream op;
  if (s.flip()) op.fill('*');
  if (s.flip()) op << std::scientific << std::setprecision(2);
  sm::paddedToStream(op, w, p, v.begin(), v.end(), del, pre, post);
  PBT_EQ(op.str(), ep, "paddedToStream");
}
