// P34: histories of the archives, property trees and value stores of the Python module against the same history in C++.
#include "pyembed.hpp"
#include "pt.hpp"
#include <cmath>
#include <boost/filesystem.hpp>
#include <map>
#include <memory>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sm/MatrixArchive.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>

PBT_PROPERTY("P34",
             "A case is a history of operations on matrix archives, property trees or value stores, applied to the objects of the Python module and to their C++ twins: sets, reads of "
             "every type with and without default, children, views, layers, prefixes, files, merges, and the release of objects in any order. A case is non-trivial when an "
             "operation on a child, view, layer, prefix or file took part, or when an operation raised.")
namespace bp = boost::python;
namespace {
bp::object mod() { return pyembed::module(); }
// ---- results as texts ----
std::string out(bool v) { return v ? "b1" : "b0"; }
std::string out(int v) { return "i" + std::to_string(v); }
std::string out(size_t v) { return "i" + std::to_string(v); }
std::string out(double v) {
  if (std::isnan(v)) return "dnan";
  char b[64];
  std::snprintf(b, sizeof b, "d%a", v);
  return b;
}
std::string out(const std::string& v) { return "s" + pbt::show(v); }
std::string out(const Eigen::VectorXd& v) {
  std::string o = "[";
  for (int i = 0; i < v.size(); ++i) o += out(v(i)) + ",";
  return o + "]";
}
std::string out(const Eigen::MatrixXd& m) {
  if (m.rows() == 0) return "(" + out(std::string("empty")) + "," + out(int(m.cols())) + ",)";
  std::string o = "[";
  for (int i = 0; i < m.rows(); ++i) o += out(Eigen::VectorXd(m.row(i).transpose())) + ",";
  return o + "]";
}
std::string out(const bp::object& x) {
  PyObject* p = x.ptr();
  if (p == Py_None) return "none";
  if (PyBool_Check(p)) return out(p == Py_True);
  if (PyLong_Check(p)) return "i" + std::to_string(PyLong_AsLongLong(p));
  if (PyFloat_Check(p)) return out(PyFloat_AsDouble(p));
  if (PyUnicode_Check(p)) return out(std::string(bp::extract<std::string>(x)()));
  if (PyList_Check(p) || PyTuple_Check(p)) {
    const bool l = PyList_Check(p);
    std::string o = l ? "[" : "(";
    for (long i = 0; i < bp::len(x); ++i) o += out(bp::object(x[i])) + ",";
    return o + (l ? "]" : ")");
  }
  if (PyDict_Check(p)) {
    std::map<std::string, std::string> m;
    bp::list items(bp::dict(x).items());
    for (long i = 0; i < bp::len(items); ++i) m[out(bp::object(items[i][0]))] = out(bp::object(items[i][1]));
    std::string o = "{";
    for (auto& e : m) o += e.first + ":" + e.second + ",";
    return o + "}";
  }
  return std::string("object ") + Py_TYPE(p)->tp_name;
}
template <class F> std::string cpp(F f) {
  try { return f(); } catch (const std::exception&) { return "raises"; }
}
template <class F> std::string py(F f) {
  std::string r, msg;
  const std::string e = pyembed::raised([&] { r = f(); }, &msg);
  if (e == "") return r;
  if (e == "RuntimeError" || e == "IndexError" || e == "ValueError" || e == "OverflowError" || e == "UnicodeDecodeError") return "raises";  // the last: a message that quotes bytes of a damaged file
  return "raises " + msg;
}
struct Log {
  pbt::Source& s;
  std::string text;
  void agree(const std::string& what, const std::string& got, const std::string& want) {
    text += what + "; ";
    if (want == "raises") s.nontrivial();
    s.label(what.substr(0, what.find_first_of("(, ")) + (want == "raises" ? " raises" : ""));
    if (got != want) PBT_FAIL(what << ": Python " << got.substr(0, 1500) << ", C++ " << want.substr(0, 1500) << " after " << (text.size() > 3000 ? text.substr(text.size() - 3000) : text));
  }
};
#define BOTH(WHAT, PY, CPP) l.agree(WHAT, py([&] { return std::string(PY); }), cpp([&] { return std::string(CPP); }))
template <class F> std::string nothing(F f) { f(); return "none"; }
#define DONE(EXPR) nothing([&] { EXPR; })
void clean() {
  pyembed::module();
  for (boost::filesystem::directory_iterator i(pbt::scratch()), e; i != e; ++i) boost::filesystem::remove_all(i->path());
}
std::string text(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: case 1: return s.pick({"", "true", "false", "0", "1", "12", "-7", "1.5", "1e5", "2147483648", "x", " 3 ", "\xc3\xa9", "a b"});
    case 2: return std::to_string(s.anyInt(-2147483648LL, 2147483647LL));
    case 3: { std::ostringstream o; o.precision(17); o << s.normal(); return o.str(); }
    case 4: { std::string t = std::string("[") + s.pick({"1", "0", "-2.5", "x"}) + "," + s.pick({"1", "0.5", ""}) + "," + s.pick({"0", "3"}) + "]"; return t; }
    default: return s.str("abcXYZ 019_-.", 8);
  }
}
double number(pbt::Source& s) { return s.pick<int>({0, 1, 2}) ? s.anyDouble() : double(s.range(-3, 3)); }
int integer(pbt::Source& s) { return int(s.anyInt(-2147483648LL, 2147483647LL)); }
}  // namespace

// ---- matrix archives -----------------------------------------------------------------------
PBT(matrix_archives, 4000, 60000) {
  clean();
  Log l{s, ""};
  struct A { std::shared_ptr<sm::MatrixArchive> c; bp::object o; };
  std::vector<A> as;
  auto make = [&] { A a; a.c = std::make_shared<sm::MatrixArchive>(); a.o = pyembed::py([&] { return bp::object(mod().attr("MatrixArchive")()); }); as.push_back(a); };
  make();
  auto name = [&]() -> std::string {
    if (s.chance(1, 8)) return s.pick({"", "1a", "a/b", "_", "a b", "\xc3\xa9", "abcdefghijklmnopqrstuvwxyzabcdef", "abcdefghijklmnopqrstuvwxyzabcdefg"});
    return s.pick({"a", "b", "c", "M", "long_name_of_an_entry"});
  };
  auto mat = [&] {
    Eigen::MatrixXd m(int(s.below(4)), int(1 + s.below(3)));
    for (int i = 0; i < m.size(); ++i) m.data()[i] = number(s);
    return m;
  };
  auto whole = [&](const sm::MatrixArchive& a) {
    std::map<std::string, std::string> m, t;
    for (auto i = a.begin(); i != a.end(); ++i) m[out(i->first)] = out(i->second);
    for (auto& e : a.getStrings()) t[out(e.first)] = out(e.second);
    std::string o = "{";
    for (auto& e : m) o += e.first + ":" + e.second + ",";
    o += "}{";
    for (auto& e : t) o += e.first + ":" + e.second + ",";
    return o + "}";
  };
  std::vector<std::pair<bp::object, std::string>> kept;
  std::string last = "a";
  for (size_t n = s.size(1, 30); n; --n) {
    A a = as[s.below(as.size())];
    const std::string k = s.chance(2, 3) ? last : name();
    last = k;
    const std::string K = "(" + pbt::show(k) + ")";
    switch (s.below(18)) {
      case 0: case 1: { const Eigen::MatrixXd m = mat(); BOTH("setMatrix" + K, out(bp::object(a.o.attr("setMatrix")(k, m))), DONE(a.c->setMatrixXd(k, m))); break; }
      case 2: { Eigen::VectorXd v(int(s.below(5))); for (int i = 0; i < v.size(); ++i) v(i) = number(s); BOTH("setVector" + K, out(bp::object(a.o.attr("setVector")(k, v))), DONE(a.c->setVectorXd(k, v))); break; }
      case 3: { const double d = number(s); BOTH("setScalar" + K, out(bp::object(a.o.attr("setScalar")(k, d))), DONE(a.c->setScalar(k, d))); break; }
      case 4: case 5: { const std::string t = text(s); BOTH("setString" + K, out(bp::object(a.o.attr("setString")(k, t))), DONE(a.c->setString(k, t))); break; }
      case 6: BOTH("getMatrix" + K, out(bp::object(a.o.attr("getMatrix")(k))), out(Eigen::MatrixXd(a.c->getMatrix(k)))); break;
      case 7: BOTH("getVector" + K, out(bp::object(a.o.attr("getVector")(k))), [&] { Eigen::VectorXd v; a.c->getVector(k, v); return out(v); }()); break;
      case 8: BOTH("getScalar" + K, out(bp::object(a.o.attr("getScalar")(k))), out(a.c->getScalar(k))); break;
      case 9: BOTH("getString" + K, out(bp::object(a.o.attr("getString")(k))), out(std::string(const_cast<const sm::MatrixArchive&>(*a.c).getString(k)))); break;
      case 10: BOTH("clearOne" + K, out(bp::object(a.o.attr("clearOne")(k))), DONE(a.c->clear(k))); break;
      case 11: if (s.chance(1, 4)) BOTH("clear", out(bp::object(a.o.attr("clear")())), DONE(a.c->clear())); break;
      case 12: {
        BOTH("size", out(bp::object(a.o.attr("size")())), out(a.c->size()));
        BOTH("maxNameSize", out(bp::object(a.o.attr("maxNameSize")())), out(a.c->maxNameSize()));
        BOTH("isSystemLittleEndian", out(bp::object(a.o.attr("isSystemLittleEndian")())), out(a.c->isSystemLittleEndian()));
        BOTH("getNameList", out(bp::object(a.o.attr("getNameList")())), [&] { std::string o = "["; for (auto i = a.c->begin(); i != a.c->end(); ++i) o += out(i->first) + ","; return o + "]"; }());
        break;
      }
      case 13: if (as.size() < 4) make(); break;
      case 14: {  // the dictionaries are copies: they keep what they held
        bp::object d = pyembed::py([&] { return bp::object(a.o.attr("asDict")()); }), t = pyembed::py([&] { return bp::object(a.o.attr("stringsAsDict")()); });
        kept.push_back(std::make_pair(bp::object(bp::make_tuple(d, t)), out(bp::object(bp::make_tuple(d, t)))));
        break;
      }
      case 15: case 16: {  // files written by either side are the same and are read alike
        s.nontrivial();
        const std::string f = pbt::scratch() + "/a" + std::to_string(s.below(2)) + ".", fc = f + "c", fp = f + "p";
        if (s.chance(1, 3)) BOTH("append", out(bp::object(a.o.attr("append")(fp))), DONE(a.c->append(fc)));
        else BOTH("save", out(bp::object(a.o.attr("save")(fp))), DONE(a.c->save(fc)));
        PBT_CHECK(pt::slurp(fc) == pt::slurp(fp), "the files differ after " << l.text);
        if (s.chance(1, 6)) { std::string b = pt::slurp(fc); b.resize(s.below(b.size() + 1)); pt::spill(fc, b); pt::spill(fp, b); }
        break;
      }
      case 17: {
        s.nontrivial();
        const std::string f = pbt::scratch() + "/a" + std::to_string(s.below(2)) + ".", fc = f + "c", fp = f + "p";
        BOTH("load", out(bp::object(a.o.attr("load")(fp))), DONE(a.c->load(fc)));
        break;
      }
    }
    PBT_EQ(out(bp::object(a.o.attr("asDict")())) + out(bp::object(a.o.attr("stringsAsDict")())), whole(*a.c), "the archive after " << l.text);
  }
  while (!as.empty()) as.erase(as.begin() + s.below(as.size()));
  for (auto& k : kept) PBT_EQ(out(k.first), k.second, "a dictionary kept from before");
}

// ---- property trees --------------------------------------------------------------------------
namespace {
struct T {
  std::shared_ptr<sm::ConstPropertyTree> c;
  std::shared_ptr<sm::PropertyTree> m;
  std::shared_ptr<sm::BoostPropertyTree> b;
  bp::object o;
};
template <class X> T tree(const X& x, const bp::object& o);
template <> T tree(const sm::ConstPropertyTree& x, const bp::object& o) { T t; t.c = std::make_shared<sm::ConstPropertyTree>(x); t.o = o; return t; }
template <> T tree(const sm::PropertyTree& x, const bp::object& o) { T t; t.m = std::make_shared<sm::PropertyTree>(x); t.c = t.m; t.o = o; return t; }
template <> T tree(const sm::BoostPropertyTree& x, const bp::object& o) { T t; t.b = std::make_shared<sm::BoostPropertyTree>(x); t.m = t.b; t.c = t.b; t.o = o; return t; }
std::string path(pbt::Source& s) {
  if (s.chance(1, 12)) return s.pick({"", "/", "//", "/a//b", "a/", "..", "\xc3\xa9"});
  std::string p = s.chance(1, 4) ? "/" : "";
  for (size_t n = s.pick<int>({1, 1, 1, 2, 2, 3}); n; --n) { p += s.chance(1, 6) ? s.pick({"x", "y", "q_a_b", "t_a_b_a"}) : s.pick({"a", "a", "b", "c"}); if (n > 1) p += "/"; }
  return p;
}
void reads(pbt::Source& s, Log& l, const sm::ConstPropertyTree& c, const bp::object& o, const std::string& given = "?") {
  const std::string k = given == "?" ? path(s) : given, K = "(" + k + ")";
  switch (s.below(9)) {
    case 0: BOTH("getInt" + K, out(bp::object(o.attr("getInt")(k))), out(c.getInt(k))); break;
    case 1: BOTH("getBool" + K, out(bp::object(o.attr("getBool")(k))), out(c.getBool(k))); break;
    case 2: BOTH("getDouble" + K, out(bp::object(o.attr("getDouble")(k))), out(c.getDouble(k))); break;
    case 3: BOTH("getString" + K, out(bp::object(o.attr("getString")(k))), out(c.getString(k))); break;
    case 4: { const int d = integer(s); BOTH("getIntDefault" + K, out(bp::object(o.attr("getIntDefault")(k, d))), out(c.getInt(k, d))); break; }
    case 5: { const bool d = s.flip(); BOTH("getBoolDefault" + K, out(bp::object(o.attr("getBoolDefault")(k, d))), out(c.getBool(k, d))); break; }
    case 6: { const double d = number(s); BOTH("getDoubleDefault" + K, out(bp::object(o.attr("getDoubleDefault")(k, d))), out(c.getDouble(k, d))); break; }
    case 7: { const std::string d = text(s); BOTH("getStringDefault" + K, out(bp::object(o.attr("getStringDefault")(k, d))), out(c.getString(k, d))); break; }
    case 8: BOTH("doesKeyExist" + K, out(bp::object(o.attr("doesKeyExist")(k))), out(c.doesKeyExist(k))); break;
  }
}
void geometry(pbt::Source& s, Log& l, const sm::ConstPropertyTree& c, const bp::object& o) {
  switch (s.below(3)) {
    case 0: BOTH("vector3FromPropertyTree", out(bp::object(mod().attr("vector3FromPropertyTree")(o))), out(Eigen::VectorXd(sm::eigen::vector3FromPropertyTree(c)))); break;
    case 1: BOTH("quaternionFromPropertyTree", out(bp::object(mod().attr("quaternionFromPropertyTree")(o))), out(Eigen::VectorXd(sm::eigen::quaternionFromPropertyTree(c)))); break;
    case 2: BOTH("transformationFromPropertyTree", out(bp::object(mod().attr("transformationFromPropertyTree")(o).attr("T")())), out(Eigen::MatrixXd(sm::kinematics::transformationFromPropertyTree(c).T()))); break;
  }
}
}  // namespace
PBT(property_trees, 5000, 60000) {
  clean();
  Log l{s, ""};
  std::vector<T> ts;
  auto fresh = [&] {
    if (s.flip()) ts.push_back(tree(sm::BoostPropertyTree(), pyembed::py([&] { return bp::object(mod().attr("BoostPropertyTree")()); })));
    else { const std::string ns = s.pick({"a", "ns", "a/b"}); ts.push_back(tree(sm::BoostPropertyTree(ns), pyembed::py([&] { return bp::object(mod().attr("BoostPropertyTree")(ns)); }))); }
  };
  // a new object on both sides, or none on both
  auto derive = [&](const std::string& what, std::function<T()> c, std::function<bp::object()> p) {
    s.nontrivial();
    T t;
    const std::string w = cpp([&] { t = c(); return std::string("object"); });
    l.agree(what, py([&] { t.o = p(); return std::string("object"); }), w);
    if (w == "object") ts.push_back(t);
  };
  fresh();
  bp::object loader = pyembed::py([&] { return bp::object(mod().attr("BoostPropertyTreeLoader")()); });
  for (size_t n = s.size(1, 60); n; --n) {
    if (ts.empty()) fresh();
    const T t = ts[s.below(ts.size())];
    const std::string k = path(s), K = "(" + k + ")";
    switch (s.below(20)) {
      case 0: case 1: case 2: reads(s, l, *t.c, t.o); break;
      case 3: case 4: case 5: case 6: {
        if (!t.m) {
          PBT_CHECK(pyembed::raised([&] { bp::object(t.o.attr("setInt")); }) == "AttributeError", "a constant tree has a setter");
          break;
        }
        switch (s.below(4)) {
          case 0: { const int v = integer(s); BOTH("setInt" + K, out(bp::object(t.o.attr("setInt")(k, v))), DONE(t.m->setInt(k, v))); break; }
          case 1: { const bool v = s.flip(); BOTH("setBool" + K, out(bp::object(t.o.attr("setBool")(k, v))), DONE(t.m->setBool(k, v))); break; }
          case 2: { const double v = number(s); BOTH("setDouble" + K, out(bp::object(t.o.attr("setDouble")(k, v))), DONE(t.m->setDouble(k, v))); break; }
          case 3: { const std::string v = text(s); BOTH("setString" + K, out(bp::object(t.o.attr("setString")(k, v))), DONE(t.m->setString(k, v))); break; }
        }
        for (size_t i = s.below(3); i; --i) reads(s, l, *t.c, t.o, k);
        break;
      }
      case 7: case 8: {
        if (!t.m) break;
        switch (s.below(4)) {
          case 0: { const int v = integer(s); BOTH("getOrCreateInt" + K, out(bp::object(t.o.attr("getOrCreateInt")(k, v))), out(t.m->getInt(k, v))); break; }
          case 1: { const bool v = s.flip(); BOTH("getOrCreatetBool" + K, out(bp::object(t.o.attr("getOrCreatetBool")(k, v))), out(t.m->getBool(k, v))); break; }
          case 2: { const double v = number(s); BOTH("getOrCreateDouble" + K, out(bp::object(t.o.attr("getOrCreateDouble")(k, v))), out(t.m->getDouble(k, v))); break; }
          case 3: { const std::string v = text(s); BOTH("getOrCreateString" + K, out(bp::object(t.o.attr("getOrCreateString")(k, v))), out(t.m->getString(k, v))); break; }
        }
        break;
      }
      case 9: case 10:
        if (ts.size() > 8) break;
        derive("getChild" + K, [&] { return t.m ? tree(sm::PropertyTree(t.m->getChild(k)), bp::object()) : tree(sm::ConstPropertyTree(t.c->getChild(k)), bp::object()); },
               [&] { return bp::object(t.o.attr("getChild")(k)); });
        break;
      case 11:
        if (ts.size() > 8) break;
        if (t.m && s.flip()) derive("PropertyTree" + K, [&] { return tree(sm::PropertyTree(*t.m, k), bp::object()); }, [&] { return bp::object(mod().attr("PropertyTree")(t.o, k)); });
        else derive("ConstPropertyTree" + K, [&] { return tree(sm::ConstPropertyTree(*t.c, k), bp::object()); }, [&] { return bp::object(mod().attr("ConstPropertyTree")(t.o, k)); });
        break;
      case 12: if (ts.size() < 6) fresh(); break;
      case 13: case 14: {
        if (!t.b) break;
        s.nontrivial();
        const char* const kF[] = {"Xml", "Ini", "Info"};
        const int f = int(s.below(3));
        const std::string b = pbt::scratch() + "/t" + std::to_string(s.below(2)) + kF[f], fc = b + "c", fp = b + "p";
        if (s.flip() || !boost::filesystem::exists(fc)) {
          BOTH(std::string("save") + kF[f], out(bp::object(t.o.attr((std::string("save") + kF[f]).c_str())(fp))), DONE(f == 0 ? t.b->saveXmlStr(fc) : f == 1 ? t.b->saveIniStr(fc) : t.b->saveInfoStr(fc)));
          PBT_CHECK(pt::slurp(fc) == pt::slurp(fp), "the files differ after " << l.text);
          if (s.chance(1, 6)) { std::string x = pt::slurp(fc); x.resize(s.below(x.size() + 1)); pt::spill(fc, x); pt::spill(fp, x); }
        } else {
          BOTH(std::string("load") + kF[f], out(bp::object(t.o.attr((std::string("load") + kF[f]).c_str())(fp))), DONE(f == 0 ? t.b->loadXmlStr(fc) : f == 1 ? t.b->loadIniStr(fc) : t.b->loadInfoStr(fc)));
        }
        break;
      }
      case 15: case 16: {
        const T u = ts[s.below(ts.size())];
        if (!t.b || !u.b || t.b == u.b) break;
        s.nontrivial();
        const bool c = s.flip(), i = s.flip();
        switch (s.below(3)) {
          case 0: BOTH("update", out(bp::object(t.o.attr("update")(u.o, c, i))), DONE(t.b->update(*u.b, c, i))); break;
          case 1: BOTH("updateWithEmptyUpdates", out(bp::object(t.o.attr("updateWithEmptyUpdates")(u.o, c))), DONE(t.b->update(*u.b, c))); break;
          case 2: BOTH("updateOrCreate", out(bp::object(t.o.attr("updateOrCreate")(u.o))), DONE(t.b->update(*u.b))); break;
        }
        break;
      }
      case 17: {
        if (t.m && s.chance(2, 3)) {  // make the reads below succeed now and then
          const double a = s.uniform(-2, 2), b = s.uniform(0.1, 2);
          pyembed::py([&] {
            for (const char* p : {"x", "y", "z", "w", "q_a_b/x", "q_a_b/y", "q_a_b/z", "q_a_b/w", "t_a_b_a/x", "t_a_b_a/y", "t_a_b_a/z"}) {
              if (s.chance(1, 60)) continue;
              t.o.attr("setDouble")(p, p[std::strlen(p) - 1] == 'x' ? a : b);
              t.m->setDouble(p, p[std::strlen(p) - 1] == 'x' ? a : b);
            }
            return 0;
          });
        }
        geometry(s, l, *t.c, t.o);
        break;
      }
      case 18: {
        if (ts.size() > 8) break;
        std::string list;
        for (size_t i = s.size(1, 3); i; --i) {
          const std::string f = pbt::scratch() + "/l" + std::to_string(s.below(3)) + s.pick({".info", ".xml", ".json", ".ini"});
          if (s.chance(3, 4)) {
            sm::BoostPropertyTree x;
            for (size_t j = s.size(1, 3); j; --j) x.setInt(s.pick({"a/b", "a/c", "b/c", "x/y", "c/z"}), int(s.below(10)));
            try { x.save(f); } catch (const std::exception&) {}
          }
          list += (list.empty() ? "" : ",") + f;
        }
        derive("readFilesAndMergeIntoPropertyTree", [&] { return tree(sm::BoostPropertyTree(sm::BoostPropertyTreeLoader().readFilesAndMergeIntoPropertyTree(list)), bp::object()); },
               [&] { return bp::object(loader.attr("readFilesAndMergeIntoPropertyTree")(list)); });
        break;
      }
      case 19: ts.erase(ts.begin() + s.below(ts.size())); break;
    }
    if (t.b) pt::same(pt::dump(bp::extract<sm::BoostPropertyTree&>(t.o)()), pt::dump(*t.b), "the tree of Python after " + l.text);
  }
}

// ---- value stores ------------------------------------------------------------------------------
namespace {
struct V {
  std::shared_ptr<sm::ValueStoreRef> r;
  std::shared_ptr<sm::ExtendibleValueStoreRef> e;
  std::shared_ptr<sm::ConstPropertyTree> t;
  std::shared_ptr<sm::value_store::LayeredValueStore> lay;
  std::shared_ptr<sm::value_store::ValueStore> st;  // a layered or prefixed store
  std::string key;
  bool keyed = false;
  int birth = 0;
  bp::object o;
};
V ref(const sm::ValueStoreRef& x) { V v; v.r = std::make_shared<sm::ValueStoreRef>(x); return v; }
V ext(const sm::ExtendibleValueStoreRef& x) { V v; v.e = std::make_shared<sm::ExtendibleValueStoreRef>(x); v.r = v.e; return v; }
V named(V v, const std::string& k) { v.key = k; v.keyed = true; return v; }
}  // namespace
PBT(value_stores, 5000, 60000) {
  clean();
  Log l{s, ""};
  std::vector<V> vs;
  int births = 0;
  std::string last = "a";
  auto keep = [&](V v) { v.birth = births++; vs.push_back(v); };
  auto derive = [&](const std::string& what, std::function<V()> c, std::function<bp::object()> p) {
    V v;
    const std::string w = cpp([&] { v = c(); return std::string("object"); });
    l.agree(what, py([&] { v.o = p(); return std::string("object"); }), w);
    if (w == "object" && vs.size() < 12) keep(v);
  };
  auto info = [&] {
    std::string t;
    for (size_t n = s.size(1, 4); n; --n) {
      t += s.pick({"a", "b", "c", "x"});
      if (s.flip()) t += s.pick({" 1", " true", " 2.5", " s", " 7"});
      if (s.chance(1, 3)) t += std::string(" {") + "a " + s.pick({"1", "2", "true"}) + ", b 3}";
      if (n > 1) t += ", ";
    }
    return t;
  };
  auto fresh = [&] {
    const std::string t = info();
    const std::string f = pbt::scratch() + "/v.info";
    switch (s.below(8)) {
      case 0: derive("ValueStoreRef()", [&] { return ref(sm::ValueStoreRef()); }, [&] { return bp::object(mod().attr("ValueStoreRef")()); }); break;
      case 1: case 2: derive("ExtendibleValueStoreRef()", [&] { return ext(sm::ExtendibleValueStoreRef()); }, [&] { return bp::object(mod().attr("ExtendibleValueStoreRef")()); }); break;
      case 3: derive("ValueStoreRef.fromString(" + t + ")", [&] { return ref(sm::ValueStoreRef::fromString(t)); }, [&] { return bp::object(mod().attr("ValueStoreRef").attr("fromString")(t)); }); break;
      case 4: derive("ExtendibleValueStoreRef.fromString(" + t + ")", [&] { return ext(sm::ExtendibleValueStoreRef::fromString(t)); }, [&] { return bp::object(mod().attr("ExtendibleValueStoreRef").attr("fromString")(t)); }); break;
      case 5: case 6: {
        pt::spill(f, s.chance(1, 8) ? "a {" : "a 1\nb { c 2\n d x }\n");
        if (s.flip()) derive("ValueStoreRef.fromFile", [&] { return ref(sm::ValueStoreRef::fromFile(f)); }, [&] { return bp::object(mod().attr("ValueStoreRef").attr("fromFile")(f)); });
        else derive("ExtendibleValueStoreRef.fromFile", [&] { return ext(sm::ExtendibleValueStoreRef::fromFile(f)); }, [&] { return bp::object(mod().attr("ExtendibleValueStoreRef").attr("fromFile")(f)); });
        break;
      }
      case 7: {  // on the tree of a property tree
        sm::BoostPropertyTree b;
        bp::object pb = pyembed::py([&] { return bp::object(mod().attr("BoostPropertyTree")()); });
        b.setInt("a/b", 4);
        pyembed::py([&] { pb.attr("setInt")("a/b", 4); return 0; });
        if (s.flip()) derive("ValueStoreRef(tree)", [&] { return ref(sm::ValueStoreRef(b)); }, [&] { return bp::object(mod().attr("ValueStoreRef")(pb)); });
        else derive("ExtendibleValueStoreRef(tree)", [&] { return ext(sm::ExtendibleValueStoreRef(b)); }, [&] { return bp::object(mod().attr("ExtendibleValueStoreRef")(pb)); });
        break;
      }
    }
  };
  auto children = [&](const bp::object& p, bool extendible) { return bp::object(p.attr(extendible ? "getExtendibleChildren" : "getChildren")()); };
  fresh();
  for (size_t n = s.size(1, 60); n; --n) {
    if (vs.empty()) { fresh(); continue; }
    const V v = vs[s.below(vs.size())];
    if (v.t) { reads(s, l, *v.t, v.o); if (s.chance(1, 3)) geometry(s, l, *v.t, v.o); if (s.chance(1, 6)) vs.erase(vs.begin() + s.below(vs.size())); continue; }
    if (v.st) {
      if (v.lay && s.flip()) {
        const V x = vs[s.below(vs.size())];
        if (x.r && x.birth < v.birth) { s.nontrivial(); BOTH("LayeredValueStore.add", out(bp::object(v.o.attr("add")(x.o))), DONE(v.lay->add(*x.r))); }
      } else {
        s.nontrivial();
        derive("ValueStoreRef(store)", [&] { return ref(sm::ValueStoreRef(v.st)); }, [&] { return bp::object(mod().attr("ValueStoreRef")(v.o)); });
        if (s.flip()) for (size_t i = 0; i < vs.size(); ++i) if (vs[i].st == v.st) { vs.erase(vs.begin() + i); break; }  // the reference keeps it
      }
      continue;
    }
    // stay on the last key for a while
    const std::string k = s.chance(2, 3) ? last : path(s), K = "(" + k + ")";
    last = k;
    switch (s.below(24)) {
      case 0: BOTH("getInt" + K, out(bp::object(v.o.attr("getInt")(k))), out(v.r->getInt(k).get())); break;
      case 1: BOTH("getBool" + K, out(bp::object(v.o.attr("getBool")(k))), out(v.r->getBool(k).get())); break;
      case 2: BOTH("getDouble" + K, out(bp::object(v.o.attr("getDouble")(k))), out(v.r->getDouble(k).get())); break;
      case 3: BOTH("getString" + K, out(bp::object(v.o.attr("getString")(k))), out(v.r->getString(k).get())); break;
      case 4:
        switch (s.below(4)) {
          case 0: { const int d = integer(s); BOTH("getInt, default" + K, out(bp::object(v.o.attr("getInt")(k, d))), out(v.r->getInt(k, d).get())); break; }
          case 1: { const bool d = s.flip(); BOTH("getBool, default" + K, out(bp::object(v.o.attr("getBool")(k, d))), out(v.r->getBool(k, d).get())); break; }
          case 2: { const double d = number(s); BOTH("getDouble, default" + K, out(bp::object(v.o.attr("getDouble")(k, d))), out(v.r->getDouble(k, d).get())); break; }
          case 3: { const std::string d = text(s); BOTH("getString, default" + K, out(bp::object(v.o.attr("getString")(k, d))), out(v.r->getString(k, d).get())); break; }
        }
        break;
      case 5: case 6:
        switch (s.below(4)) {
          case 0: { const int x = integer(s); BOTH("setInt" + K, out(bp::object(v.o.attr("setInt")(k, x))), DONE(v.r->getInt(k).update(x))); break; }
          case 1: { const bool x = s.flip(); BOTH("setBool" + K, out(bp::object(v.o.attr("setBool")(k, x))), DONE(v.r->getBool(k).update(x))); break; }
          case 2: { const double x = number(s); BOTH("setDouble" + K, out(bp::object(v.o.attr("setDouble")(k, x))), DONE(v.r->getDouble(k).update(x))); break; }
          case 3: { const std::string x = text(s); BOTH("setString" + K, out(bp::object(v.o.attr("setString")(k, x))), DONE(v.r->getString(k).update(x))); break; }
        }
        break;
      case 7: case 8: case 9:
        if (!v.e) { PBT_CHECK(pyembed::raised([&] { bp::object(v.o.attr("addInt")); }) == "AttributeError", "a reference to a store that is not extendible has an adder"); break; }
        switch (s.below(4)) {
          case 0: { const int x = integer(s); BOTH("addInt" + K, out(bp::object(v.o.attr("addInt")(k, x))), out(v.e->addInt(k, x).get())); break; }
          case 1: { const bool x = s.flip(); BOTH("addBool" + K, out(bp::object(v.o.attr("addBool")(k, x))), out(v.e->addBool(k, x).get())); break; }
          case 2: { const double x = number(s); BOTH("addDouble" + K, out(bp::object(v.o.attr("addDouble")(k, x))), out(v.e->addDouble(k, x).get())); break; }
          case 3: { const std::string x = text(s); BOTH("addString" + K, out(bp::object(v.o.attr("addString")(k, x))), out(v.e->addString(k, x).get())); break; }
        }
        break;
      case 10: BOTH("hasKey" + K, out(bp::object(v.o.attr("hasKey")(k))), out(v.r->hasKey(k))); break;
      case 11: s.nontrivial(); derive("getChild" + K, [&] { return ref(v.r->getChild(k)); }, [&] { return bp::object(v.o.attr("getChild")(k)); }); break;
      case 12: if (v.e) { s.nontrivial(); derive("getExtendibleChild" + K, [&] { auto x = v.e->getExtendibleChild(k); return named(ext(x), x.getKey()); }, [&] { return bp::object(v.o.attr("getExtendibleChild")(k)); }); } break;
      case 13: {  // the keys, by iteration and by index, and the values
        s.nontrivial();
        const bool x = v.e && s.flip();
        auto one = [](const std::string& key, const std::string& val) { return key + "=" + val + ","; };
        const std::string want = cpp([&] {
          std::string o;
          if (x) for (auto& c : v.e->getExtendibleChildren()) o += one(c.getKey(), cpp([&] { return out(c.getString("a").get()); }));
          else for (auto& c : v.r->getChildren()) o += one(c.getKey(), cpp([&] { return out(c.getString("a").get()); }));
          return o;
        });
        l.agree("iteration", py([&] {
          std::string o;
          bp::object it(bp::handle<>(PyObject_GetIter(children(v.o, x).ptr())));
          while (PyObject* c = PyIter_Next(it.ptr())) { bp::object e{bp::handle<>(c)}; o += one(bp::extract<std::string>(e.attr("getKey")()), py([&] { return out(bp::object(e.attr("getString")("a"))); })); }
          if (PyErr_Occurred()) bp::throw_error_already_set();
          return o;
        }), want);
        l.agree("index", py([&] {
          std::string o;
          bp::object c = children(v.o, x);
          for (long i = 0; i < bp::len(c); ++i) { bp::object e(c[i]); o += one(bp::extract<std::string>(e.attr("getKey")()), py([&] { return out(bp::object(e.attr("getString")("a"))); })); }
          return o;
        }), want);
        break;
      }
      case 14: {  // a child outlives the vector it came from
        s.nontrivial();
        const bool x = v.e && s.flip();
        const size_t i = s.below(3);
        derive("child " + std::to_string(i), [&] {
          if (x) { auto c = v.e->getExtendibleChildren(); if (i >= c.size()) throw std::out_of_range("child"); return named(ext(c[i]), c[i].getKey()); }
          auto c = v.r->getChildren();
          if (i >= c.size()) throw std::out_of_range("child");
          return named(ref(c[i]), c[i].getKey());
        }, [&] { return bp::object(children(v.o, x)[i]); });
        break;
      }
      case 15: if (v.keyed) { PBT_EQ(out(bp::object(v.o.attr("getKey")())), out(v.key), "getKey"); } break;
      case 16: s.nontrivial(); derive("asPropertyTree", [&] { V w; w.t = std::make_shared<sm::ConstPropertyTree>(v.r->asPropertyTree()); return w; }, [&] { return bp::object(v.o.attr("asPropertyTree")()); }); break;
      case 17: {
        s.nontrivial();
        const std::string e = s.pick({".info", ".xml", ".json", ".ini"}), fc = pbt::scratch() + "/sc" + e, fp = pbt::scratch() + "/sp" + e;
        pt::spill(fc, ""); pt::spill(fp, "");
        BOTH("saveTo" + e, out(bp::object(v.o.attr("saveTo")(fp))), DONE(v.r->saveTo(fc)));
        PBT_CHECK(pt::slurp(fc) == pt::slurp(fp), "the files differ after " << l.text);
        break;
      }
      case 18: s.nontrivial(); derive("LayeredValueStore", [&] { V w; w.lay = std::make_shared<sm::value_store::LayeredValueStore>(); w.lay->add(*v.r); w.st = w.lay; return w; },
                                      [&] { if (s.flip()) return bp::object(mod().attr("LayeredValueStore")(v.o)); bp::object o(mod().attr("LayeredValueStore")()); o.attr("add")(v.o); return o; }); break;
      case 19: {
        s.nontrivial();
        const bool add = s.flip();
        const std::string p = s.pick({"a", "b", "a/b", "x", ""});
        typedef sm::value_store::PrefixedValueStore P;
        derive(std::string("PrefixedValueStore ") + (add ? "ADD " : "REMOVE ") + p, [&] { V w; w.st = std::make_shared<P>(*v.r, add ? P::PrefixMode::ADD : P::PrefixMode::REMOVE, p); return w; },
               [&] { return bp::object(mod().attr("PrefixedValueStore")(v.o, bp::object(mod().attr("PrefixMode").attr(add ? "ADD" : "REMOVE")), p)); });
        break;
      }
      case 20: derive("copy", [&] { return v.e ? ext(*v.e) : ref(*v.r); }, [&] { return bp::object(mod().attr(v.e ? "ExtendibleValueStoreRef" : "ValueStoreRef")(v.o)); }); break;
      case 21:
        if (v.e && s.flip()) derive("ExtendibleKeyValueStorePair", [&] { return named(ext(sm::value_store::ExtendibleKeyValueStorePair(k, *v.e)), k); }, [&] { return bp::object(mod().attr("ExtendibleKeyValueStorePair")(k, v.o)); });
        else derive("KeyValueStorePair", [&] { return named(ref(sm::value_store::KeyValueStorePair(k, *v.r)), k); }, [&] { return bp::object(mod().attr("KeyValueStorePair")(k, v.o)); });
        break;
      case 22: vs.erase(vs.begin() + s.below(vs.size())); break;
      case 23: fresh(); break;
    }
  }
  while (!vs.empty()) vs.erase(vs.begin() + s.below(vs.size()));
}
