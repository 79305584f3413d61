// P40: the MATLAB scripts read what the C++ class writes, and the other way round.
#include "mar.hpp"
#include "mlang.hpp"
PBT_PROPERTY("P40",
             "A case runs loadMatrixArchive.m or saveMatrixArchive.m, interpreted, on an archive written by MatrixArchive or by an independent writer, or on a struct of matrices (double, single, "
             "integer, logical) and texts; files appended to, cut short or altered, values and names that cannot be saved. A case is non-trivial when the archive has at least two entries or a script has "
             "to refuse.")
using mlang::Val;
namespace {
const std::string dir = MATLAB_DIR;
/// one session with both scripts; what they do that is outside the interpreted part of the language ends the case
struct Session {
  mlang::Interp in;
  pbt::Source& s;
  explicit Session(pbt::Source& s_) : s(s_) { guard([&] { in.load(dir + "/loadMatrixArchive.m"); in.load(dir + "/saveMatrixArchive.m"); }); }
  template <class F> void guard(F f) {
    try { f(); } catch (const mlang::Unknown& e) {
      s.label(std::string("not interpreted: ") + e.what());
      s.discard();
    }
  }
  /// the error raised, or nothing
  std::string load(const std::string& p, Val& out) {
    std::string e;
    guard([&] { try { out = in.call("loadMatrixArchive", {mlang::text(p)}, 1)[0]; } catch (const mlang::Error& x) { e = x.what(); if (e.empty()) e = "error"; } });
    PBT_CHECK(in.openFiles() == 0, "loadMatrixArchive leaves a file open (" << e << ")");
    return e;
  }
  std::string save(const std::string& p, const Val& ama, int append) {
    std::string e;
    std::vector<Val> a{mlang::text(p), ama};
    if (append >= 0) a.push_back(s.flip() ? mlang::logical(append) : mlang::num(append));
    guard([&] { try { in.call("saveMatrixArchive", a, 0); } catch (const mlang::Error& x) { e = x.what(); if (e.empty()) e = "error"; } });
    PBT_CHECK(in.openFiles() == 0, "saveMatrixArchive leaves a file open (" << e << ")");
    return e;
  }
};
std::string path(const char* n) { return pbt::scratch() + "/" + n; }
mar::Model content(pbt::Source& s, size_t max) {
  mar::Model m;
  for (size_t i = s.size(0, max); i > 0; --i) m[mar::name(s)] = mar::anyValue(s);
  return m;
}
std::string encode(pbt::Source& s, const mar::Model& m) {
  std::string d;
  for (auto& e : m) d += mar::block(e.first, e.second, s.flip());
  return d;
}
/// a struct as MATLAB sees it
mar::Model of(const Val& v) {
  mar::Model m;
  PBT_CHECK(v.kind == Val::STRUCT, "the result is a struct");
  for (auto& f : v.fields) {
    const Val& x = f.second;
    mar::Value y;
    if (x.kind == Val::CHAR) {
      y.isString = true;
      PBT_CHECK(x.empty() || x.rows() == 1, "text " << f.first << " is a row");
      for (double c : x.d) y.text += char(uint8_t(int64_t(c)));
    } else {
      PBT_CHECK(x.kind == Val::NUM && x.cls == "double", "field " << f.first << " is of class " << x.cls);
      y.rows = uint32_t(x.rows());
      y.cols = uint32_t(x.cols());
      y.data = x.d;
    }
    m[f.first] = y;
  }
  return m;
}
std::string dump(const mar::Model& m) { std::ostringstream o; for (auto& e : m) o << e.first << "=" << mar::show(e.second) << " "; return o.str(); }
/// something saveMatrixArchive takes, and what it means
Val value(pbt::Source& s, mar::Value& m) {
  if (s.chance(1, 3)) {
    std::string t;
    for (size_t n = s.chance(1, 20) ? s.size(1, 5000) : s.size(1, 20); n > 0; --n) t += char(s.chance(1, 6) ? s.below(128) : 32 + s.below(95));
    m = mar::of(t);
    return mlang::text(t);
  }
  const size_t r = s.size(1, 6), c = s.size(1, 6);
  Val v;
  v.dims = {r, c};
  const int k = int(s.below(6));
  for (size_t i = 0; i < r * c; ++i) v.d.push_back(k < 3 ? s.anyDouble() : k == 3 ? double(s.flip()) : k == 4 ? double(s.range(-128, 127)) : double(float(s.normal())));
  if (k == 3) { v.kind = Val::LOGICAL; v.cls = "logical"; s.label("logical"); }
  if (k == 4) { v.cls = "int8"; s.label("integers"); }
  if (k == 5) { v.cls = "single"; s.label("single"); }
  m = mar::Value();
  m.rows = uint32_t(r);
  m.cols = uint32_t(c);
  m.data = v.d;
  return v;
}
Val container(pbt::Source& s, size_t max, mar::Model& m) {
  Val v = mlang::structure();
  for (size_t i = s.size(0, max); i > 0; --i) {
    const std::string n = mar::name(s);
    if (v.field(n)) continue;
    mar::Value x;
    v.fields.push_back({n, value(s, x)});
    m[n] = x;
  }
  return v;
}
}  // namespace

PBT(matlab_loads, 1500, 15000) {
  Session t(s);
  const mar::Model m = content(s, 6);
  if (m.size() > 1) s.nontrivial();
  std::ostringstream note;
  PBT_NOTE(s, "archive " << dump(m));
  const std::string p = path("x.ama");
  if (s.flip()) { sm::MatrixArchive a; for (auto& e : m) mar::put(a, e.first, e.second); a.save(p); }
  else { mar::spill(p, encode(s, m)); s.label("independent writer"); }
  mar::Model all = m;
  if (s.chance(1, 3)) {  // added to, with names replaced later in the file
    const mar::Model more = content(s, 4);
    sm::MatrixArchive a;
    for (auto& e : more) mar::put(a, e.first, e.second);
    a.append(p);
    for (auto& e : more) all[e.first] = e.second;
    s.label("appended");
  }
  Val v;
  const std::string e = t.load(p, v);
  PBT_CHECK(e.empty(), "loadMatrixArchive fails: " << e);
  mar::same(of(v), all, "loaded by MATLAB");
}
PBT(matlab_saves, 1500, 15000) {
  Session t(s);
  mar::Model m;
  const Val v = container(s, 6, m);
  if (m.size() > 1) s.nontrivial();
  PBT_NOTE(s, "struct " << dump(m));
  const std::string p = path("y.ama");
  std::remove(p.c_str());
  mar::Model all;
  if (s.flip()) {  // there already
    const mar::Model old = content(s, 4);
    sm::MatrixArchive a;
    for (auto& e : old) mar::put(a, e.first, e.second);
    a.save(p);
    all = old;
    s.label("replaced or appended");
  }
  const int append = int(s.below(3)) - 1;
  if (append != 1) all.clear();
  for (auto& e : m) all[e.first] = e.second;
  const std::string e = t.save(p, v, append);
  PBT_CHECK(e.empty(), "saveMatrixArchive fails: " << e);
  sm::MatrixArchive a;
  a.load(p);
  mar::same(mar::dump(a), all, "loaded by C++");
  Val w;
  const std::string f = t.load(p, w);
  PBT_CHECK(f.empty(), "loadMatrixArchive fails: " << f);
  mar::same(of(w), all, "loaded by MATLAB");
}
PBT(damaged_files, 3000, 30000) {
  Session t(s);
  mar::Model m;
  const size_t n = 1 + s.below(3);
  while (m.size() < n) { mar::Value x; const std::string name = mar::name(s); value(s, x); m[name] = x; }
  std::string d = encode(s, m);
  std::vector<size_t> ends;
  { std::vector<mar::Block> b; mar::parse(d, b); for (auto& x : b) ends.push_back(x.end); }
  const std::string p = path("z.ama");
  const std::string whole = d;
  switch (s.below(4)) {
    case 0: {  // cut short
      const size_t k = s.flip() ? s.below(d.size() + 1) : ends[s.below(ends.size())] - s.below(3);
      d.resize(k);
      PBT_NOTE(s, "the first " << k << " of " << whole.size() << " bytes of " << dump(m));
      break;
    }
    case 1: {  // no start character
      const size_t i = s.below(ends.size() + 1), at = i ? ends[i - 1] : 0;
      const char c = s.chance(1, 4) ? 'B' : char(s.below(256));
      if (at < d.size()) d[at] = c; else d += c;
      PBT_NOTE(s, "start character " << int(uint8_t(c)) << " at " << at << " of " << dump(m));
      break;
    }
    case 2: {  // no end character
      const size_t at = ends[s.below(ends.size())] - 1;
      const char c = s.chance(1, 4) ? 'A' : char(s.below(256));
      d[at] = c;
      PBT_NOTE(s, "end character " << int(uint8_t(c)) << " at " << at << " of " << dump(m));
      break;
    }
    default: {  // a name of spaces
      const size_t i = s.below(ends.size()), at = i ? ends[i - 1] : 0;
      for (size_t k = 1; k <= 32; ++k) d[at + k] = ' ';
      PBT_NOTE(s, "no name at " << at << " of " << dump(m));
    }
  }
  mar::spill(p, d);
  std::vector<mar::Block> b;
  bool good = mar::parse(d, b) == d.size();
  mar::Model want;
  for (auto& x : b) { if (x.name.empty()) good = false; want[x.name] = x.v; }
  if (!good) s.nontrivial();
  Val v;
  const std::string e = t.load(p, v);
  if (good) { PBT_CHECK(e.empty(), "loadMatrixArchive fails: " << e); mar::same(of(v), want, "loaded by MATLAB"); }
  else PBT_CHECK(!e.empty(), "loadMatrixArchive takes a damaged file as " << dump(of(v)));
  const std::string none = path("none.ama");
  std::remove(none.c_str());
  PBT_CHECK(!t.load(none, v).empty(), "a file that is not there is reported");
}
PBT(refused_values, 1500, 15000) {
  Session t(s);
  s.nontrivial();
  mar::Model m;
  Val v = container(s, 3, m);
  const std::string p = path("r.ama");
  const std::string old = s.flip() ? encode(s, content(s, 3)) : std::string("-");
  std::remove(p.c_str());
  if (old != "-") mar::spill(p, old);
  bool kept = false;
  std::string n = mar::name(s);
  while (v.field(n)) n = "n" + n.substr(0, 20) + std::to_string(s.below(1000000));
  Val x = mlang::num(1);
  std::string w = path("r.ama");
  switch (s.below(7)) {
    case 0: x = Val(); x.dims = {s.flip() ? 0 : s.size(1, 4), 0}; PBT_NOTE(s, "an empty matrix"); break;
    case 1: x = mlang::text(""); PBT_NOTE(s, "an empty text"); break;
    case 2: x.kind = Val::CELL; x.cls = "cell"; x.cells = {mlang::num(1)}; PBT_NOTE(s, "a cell"); break;
    case 3: x = mlang::structure(); x.fields.push_back({"a", mlang::num(1)}); PBT_NOTE(s, "a struct"); break;
    case 4: x.dims = {s.size(1, 3), s.size(1, 3), s.size(2, 3)}; x.d.assign(x.numel(), 1.5); PBT_NOTE(s, "an array of three dimensions"); break;
    case 5: {  // text of several rows
      x = mlang::text("abcdefghijkl");
      const size_t r = s.pick({2, 3, 4, 6, 12});
      x.dims = {r, 12 / r};
      PBT_NOTE(s, "text of " << r << " rows");
      break;
    }
    default: n = "a" + std::string(32 + s.below(31), 'b'); kept = true; PBT_NOTE(s, "a name of " << n.size() << " characters");
  }
  v.fields.insert(v.fields.begin() + long(s.below(v.fields.size() + 1)), {n, x});
  const int append = int(s.below(3)) - 1;
  const std::string e = t.save(w, v, append);
  PBT_CHECK(!e.empty(), "saveMatrixArchive does not report field " << n);
  if (kept) PBT_CHECK(mar::slurp(p) == (old == "-" ? "" : old), "names are verified before the file is opened");
  PBT_CHECK(!t.save(pbt::scratch() + "/no/such/dir/x", container(s, 2, m), append).empty(), "a file that cannot be opened is reported");
}
