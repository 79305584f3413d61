// P15: a property tree is a typed hierarchical map with namespaces.
#include "pt.hpp"
#include "locales.hpp"
#include <map>
#include <sstream>
PBT_PROPERTY("P15",
             "Histories of up to 50 typed sets, typed gets with and without default (through writable and read-only references), existence tests, child enumerations and view creations over keys "
             "built from small colliding alphabets and arbitrary bytes, through a growing set of views (relative, absolute and nested namespaces, read-only and writable), against an ordered tree "
             "addressed by path. A case is non-trivial when a key is read through a view other than the one that wrote it.")
using namespace pt;
typedef sm::PropertyTree PT;
typedef sm::ConstPropertyTree CPT;

struct View {
  Path ns;
  bool writable;
  PT w;
  CPT r;
};
struct Where { Path path; std::string key; };
/// a key as the user writes it, and the path it denotes in the view
static Where where(pbt::Source& s, const Path& ns, bool wild, const std::vector<Path>& known) {
  Where o;
  Path rel;
  bool abs = s.chance(1, 3);
  if (!known.empty() && s.flip()) {
    // a path used before, written relative to the view when it lies below it
    const Path& p = s.pick(known);
    bool below = p.size() >= ns.size() && std::equal(ns.begin(), ns.end(), p.begin());
    if (!below) abs = true;
    rel = abs ? p : Path(p.begin() + long(ns.size()), p.end());
  } else {
    size_t n = s.chance(1, 60) ? s.size(4, 40) : s.below(4);
    for (size_t i = 0; i < n; ++i) rel.push_back(key(s, wild));
  }
  o.path = abs ? rel : ns;
  if (!abs) o.path.insert(o.path.end(), rel.begin(), rel.end());
  for (size_t i = 0; i < rel.size(); ++i) o.key += (i || abs ? "/" : "") + rel[i];
  if (abs && rel.empty()) o.key = "/";
  if (!rel.empty() && s.chance(1, 6)) o.key += "/";
  return o;
}
template <class T> struct Ops;
template <> struct Ops<int> {
  static int get(const CPT& t, const std::string& k) { return t.getInt(k); }
  static int get(const CPT& t, const std::string& k, int d) { return t.getInt(k, d); }
  static int get(PT& t, const std::string& k, int d) { return t.getInt(k, d); }
  static void set(PT& t, const std::string& k, int v) { t.setInt(k, v); }
  static Reading read(const std::string& s, int& v) { return readInt(s, v); }
  static int gen(pbt::Source& s) { return int(s.anyInt(INT_MIN, INT_MAX)); }
  static bool eq(int a, int b) { return a == b; }
};
template <> struct Ops<double> {
  static double get(const CPT& t, const std::string& k) { return t.getDouble(k); }
  static double get(const CPT& t, const std::string& k, double d) { return t.getDouble(k, d); }
  static double get(PT& t, const std::string& k, double d) { return t.getDouble(k, d); }
  static void set(PT& t, const std::string& k, double v) { t.setDouble(k, v); }
  static Reading read(const std::string& s, double& v) { return readDouble(s, v); }
  static double gen(pbt::Source& s) { return s.flip() ? s.anyFinite() : s.real(1e6); }
  static bool eq(double a, double b) { return pbt::sameBits(a, b); }
};
template <> struct Ops<bool> {
  static bool get(const CPT& t, const std::string& k) { return t.getBool(k); }
  static bool get(const CPT& t, const std::string& k, bool d) { return t.getBool(k, d); }
  static bool get(PT& t, const std::string& k, bool d) { return t.getBool(k, d); }
  static void set(PT& t, const std::string& k, bool v) { t.setBool(k, v); }
  static Reading read(const std::string& s, bool& v) { return readBool(s, v); }
  static bool gen(pbt::Source& s) { return s.flip(); }
  static bool eq(bool a, bool b) { return a == b; }
};
template <> struct Ops<std::string> {
  static std::string get(const CPT& t, const std::string& k) { return t.getString(k); }
  static std::string get(const CPT& t, const std::string& k, const std::string& d) { return t.getString(k, d); }
  static std::string get(PT& t, const std::string& k, const std::string& d) { return t.getString(k, d); }
  static void set(PT& t, const std::string& k, const std::string& v) { t.setString(k, v); }
  static Reading read(const std::string& s, std::string& v) { v = s; return YES; }
  static std::string gen(pbt::Source& s) { return text(s); }
  static bool eq(const std::string& a, const std::string& b) { return a == b; }
};

struct World {
  sm::BoostPropertyTree root;
  Node model;
  std::vector<View> views;
  std::vector<Path> known;
  World() { views.push_back(View{Path(), true, root, root}); }

  /// a typed value was stored: its text must mean the value; the model takes the text over
  template <class T> void stored(const Path& p, const T& v, const std::string& why) {
    Node d = dump(root);
    const Node* n = d.at(p);
    PBT_CHECK(n, why << ": " << pbt::show(join(p)) << " is stored");
    T back = T();
    Reading r = Ops<T>::read(n->data, back);
    PBT_CHECK(r == YES && Ops<T>::eq(back, v), why << ": text " << pbt::show(n->data) << " means the value " << v);
    model.make(p).data = n->data;
    same(d, model, why);
  }
  template <class T> void step(pbt::Source& s, View& v, const Where& w, const char* type) {
    const Node* n = model.at(w.path);
    T val = Ops<T>::gen(s), stored0 = T();
    Reading r = n ? Ops<T>::read(n->data, stored0) : NO;
    size_t op = s.below(5);
    PBT_NOTE(s, (op == 0 ? "set" : op == 1 ? "get" : op == 2 ? "get default" : op == 3 ? "get default const" : "get default read-only") << " " << type << " " << pbt::show(w.key) << " in " << pbt::show(join(v.ns)));
    if (op == 0 && v.writable) {
      Ops<T>::set(v.w, w.key, val);
      stored(w.path, val, "set");
      known.push_back(w.path);
      return;
    }
    if (op <= 1) {
      const CPT& t = v.writable && s.flip() ? static_cast<const CPT&>(v.w) : v.r;
      if (!n) PBT_THROWS(Ops<T>::get(t, w.key), PT::InvalidKeyException, "missing key");
      else if (r == NO) PBT_THROWS(Ops<T>::get(t, w.key), PT::InvalidValueException, "text " << pbt::show(n->data) << " as " << type);
      else if (r == YES) { T g = Ops<T>::get(t, w.key); PBT_CHECK(Ops<T>::eq(g, stored0), "get " << type << " " << pbt::show(w.key) << ": got " << g << " stored " << stored0); }
      return;
    }
    if (r == UNSURE) return;
    const T want = r == YES ? stored0 : val;
    if (op == 2 && v.writable) {
      T g = Ops<T>::get(v.w, w.key, val);
      PBT_CHECK(Ops<T>::eq(g, want), "get with default " << pbt::show(w.key) << ": got " << g << " expected " << want);
      if (r == NO) { stored(w.path, val, "the default is stored"); known.push_back(w.path); s.label("default stored"); }
    } else {
      const PT& cw = v.w;
      T g = v.writable && op == 3 ? Ops<T>::get(cw, w.key, val) : Ops<T>::get(v.r, w.key, val);
      PBT_CHECK(Ops<T>::eq(g, want), "get with default (read only) " << pbt::show(w.key) << ": got " << g << " expected " << want);
    }
  }
  void children(pbt::Source& s, View& v) {
    const Node* n = model.at(v.ns);
    if (!n) {
      bool threw = false;
      try { if (v.writable && s.flip()) v.w.getChildren(); else v.r.getChildren(); } catch (const std::exception&) { threw = true; }
      PBT_CHECK(threw, "children of the missing " << pbt::show(join(v.ns)));
      return;
    }
    s.label("children");
    std::vector<std::string> keys;
    std::vector<CPT> sub;
    if (v.writable && s.flip()) for (auto& c : v.w.getChildren()) { keys.push_back(c.key); sub.push_back(c.pt); }
    else for (auto& c : v.r.getChildren()) { keys.push_back(c.key); sub.push_back(c.pt); }
    PBT_CHECK(keys.size() == n->kids.size(), "number of children of " << pbt::show(join(v.ns)) << ": " << keys.size() << " of " << n->kids.size());
    for (size_t i = 0; i < keys.size(); ++i) {
      PBT_CHECK(keys[i] == n->kids[i].first, "child " << i << " " << pbt::show(keys[i]) << " expected " << pbt::show(n->kids[i].first));
      agrees(sub[i], n->kids[i].second, 0);
    }
  }
  void agrees(const CPT& t, const Node& n, int depth) {
    PBT_CHECK(t.getString("") == n.data, "value of a child " << pbt::show(t.getString("")) << " expected " << pbt::show(n.data));
    auto c = t.getChildren();
    PBT_CHECK(c.size() == n.kids.size(), "children of a child");
    for (size_t i = 0; i < c.size() && depth < 6; ++i) { PBT_CHECK(c[i].key == n.kids[i].first, "key of a grandchild"); agrees(c[i].pt, n.kids[i].second, depth + 1); }
  }
  void addView(pbt::Source& s, bool wild) {
    const View v = s.pick(views);
    Path rel;
    size_t n = s.below(3);
    bool abs = s.chance(1, 3);
    if (!known.empty() && s.flip()) { abs = true; rel = s.pick(known); }
    else for (size_t i = 0; i < n; ++i) rel.push_back(key(s, wild));
    std::string name;
    for (size_t i = 0; i < rel.size(); ++i) name += (i || abs ? "/" : "") + rel[i];
    if (abs && rel.empty()) name = "/";
    if (!rel.empty() && s.chance(1, 4)) name += "/";
    Path ns = abs ? rel : v.ns;
    if (!abs) ns.insert(ns.end(), rel.begin(), rel.end());
    PBT_NOTE(s, "view " << pbt::show(name) << " of " << pbt::show(join(v.ns)));
    switch (s.below(4)) {
      case 0: if (v.writable) { PT w(v.w, name); views.push_back(View{ns, true, w, CPT(v.r, name)}); break; }  // FALLTHRU
      case 1: views.push_back(View{ns, false, PT(v.w, name), CPT(v.r, name)}); break;
      case 2: { const PT cw(v.w); views.push_back(View{ns, v.writable, cw.getChild(name), v.r.getChild(name)}); break; }
      default: views.push_back(View{ns, v.writable, PT(v.w.getChild(name)), static_cast<const CPT&>(v.w).getChild(name)}); break;
    }
    if (views.size() > 6) views.erase(views.begin() + 1);
  }
};

static void history(pbt::Source& s, bool wild) {
  World w;
  size_t n = s.size(1, 50);
  size_t writer = 99;
  for (size_t i = 0; i < n; ++i) {
    size_t k = s.below(12);
    size_t vi = s.below(w.views.size());
    if (k == 0) { w.addView(s, wild); continue; }
    View& v = w.views[vi];
    if (k == 1) { w.children(s, v); }
    else {
      Where at = where(s, v.ns, wild, w.known);
      size_t known = w.known.size();
      if (w.model.at(at.path) && writer != vi && writer != 99) s.nontrivial();
      switch (k) {
        case 2: case 3: case 4: w.step<int>(s, v, at, "int"); break;
        case 5: case 6: w.step<double>(s, v, at, "double"); break;
        case 7: w.step<bool>(s, v, at, "bool"); break;
        case 8: case 9: w.step<std::string>(s, v, at, "string"); break;
        default: {
          bool e = w.model.at(at.path) != nullptr;
          s.label(e ? "exists" : "missing");
          PBT_CHECK(v.r.doesKeyExist(at.key) == e && v.w.doesKeyExist(at.key) == e, "existence of " << pbt::show(at.key) << " in " << pbt::show(join(v.ns)) << " expected " << e);
          break;
        }
      }
      if (w.known.size() != known) writer = vi;
    }
    same(dump(w.root), w.model, "after the operation");
  }
}
static pbt::Options fast() { pbt::Options o; o.hang_s = 20; return o; }
PBT(histories, 30000, 400000, fast()) { history(s, false); }
PBT(arbitrary_keys, 30000, 400000, fast()) { history(s, true); }

/// views made with a base name space share or own storage as documented
// the locale of the program has no influence on what is stored and read
PBT(locales, 6000, 80000, fast()) {
  sm::BoostPropertyTree t;
  struct Entry { int kind; int i; double d; bool b; std::string text; };
  std::map<std::string, Entry> m;
  const size_t n = s.size(2, 20);
  for (size_t k = 0; k < n; ++k) {
    const bool other = s.flip();
    const std::string key = s.pick({"a", "b", "c/d", "e"});
    if (s.flip() || m.empty()) {
      Entry e;
      e.kind = int(s.below(6));
      e.i = s.flip() ? int(s.anyInt(INT_MIN, INT_MAX)) : int(s.below(100000));
      e.d = s.flip() ? s.anyFinite() : s.real(1e7);
      e.b = s.flip();
      std::ostringstream o;
      if (e.kind < 2) o << e.i;
      else if (e.kind < 4) { o.precision(17); o << e.d; }
      else o << (e.b ? "true" : "false");
      e.text = o.str();
      PBT_NOTE(s, (other ? "other locale: " : "") << "set " << key << " " << e.text);
      OtherLocale l(other);
      switch (e.kind) {
        case 0: t.setInt(key, e.i); break;
        case 2: t.setDouble(key, e.d); break;
        case 4: t.setBool(key, e.b); break;
        default: t.setString(key, e.text); break;
      }
      m[key] = e;
    } else {
      auto f = m.begin();
      std::advance(f, long(s.below(m.size())));
      const Entry& e = f->second;
      const bool viaDefault = s.flip();
      PBT_NOTE(s, (other ? "other locale: " : "") << "get " << f->first);
      if (other) s.nontrivial();
      int i = 0;
      double d = 0;
      bool b = false;
      std::string text;
      {
        OtherLocale l(other);
        if (e.kind < 2) i = viaDefault ? t.getInt(f->first, ~e.i) : t.getInt(f->first);
        if (e.kind < 4) d = viaDefault ? t.getDouble(f->first, e.d + 1) : t.getDouble(f->first);
        else b = viaDefault ? t.getBool(f->first, !e.b) : t.getBool(f->first);
        text = t.getString(f->first);
      }
      if (e.kind < 2) { PBT_EQ(i, e.i, f->first); PBT_EQ(text, e.text, f->first); PBT_EQ(d, double(e.i), f->first); }
      else if (e.kind < 4) { PBT_CHECK(pbt::sameBits(d, e.d), f->first << ": " << d << " instead of " << e.d); PBT_CHECK(pbt::sameBits(std::strtod(text.c_str(), nullptr), e.d), f->first << " is " << text); }
      else { PBT_EQ(b, e.b, f->first); PBT_EQ(text, e.text, f->first); }
    }
  }
}
PBT(base_namespaces, 4000, 40000, fast()) {
  Path ns;
  size_t n = s.below(4);
  for (size_t i = 0; i < n; ++i) ns.push_back(key(s, false));
  std::string name;
  for (size_t i = 0; i < ns.size(); ++i) name += (i || s.flip() ? "/" : "") + ns[i];
  if (s.flip()) name += "/";
  int v = int(s.anyInt(INT_MIN, INT_MAX));
  Node m;
  m.make(ns).make({"k"}).data = std::to_string(v);
  if (!ns.empty()) s.nontrivial();
  PBT_NOTE(s, pbt::show(name) << " " << v);
  {
    sm::BoostPropertyTree t(name);
    t.setInt("k", v);
    same(dump(t), m, "an owned tree with a base name space");
    PBT_CHECK(t.getInt(join(ns) + "/k") == v && t.getInt("k/") == v, "absolute and relative");
    sm::BoostPropertyTree alias(t);
    alias.setString("k", "x");
    PBT_CHECK(t.getString("k") == "x", "copies refer to the same tree");
  }
  {
    boost::shared_ptr<sm::BoostPropertyTreeImplementation> impl(new sm::BoostPropertyTreeImplementation(ptree(m)));
    PT a(impl, name);
    CPT b(impl, name);
    sm::BoostPropertyTree c(impl);
    PBT_CHECK(a.getInt("k") == v && b.getInt("k") == v && c.getInt(join(ns) + "/k") == v, "shared implementation");
    a.setBool("k", true);
    PBT_CHECK(b.getBool("k"), "a change is seen by every view");
    sm::BoostPropertyTree d(ptree(m), name);
    PBT_CHECK(d.getInt("k") == v, "from a boost tree");
    d.setInt("k", 5);
    PBT_CHECK(b.getBool("k") && d.getInt("k") == 5, "a tree built from a boost tree is a copy");
  }
  {
    boost::shared_ptr<sm::PropertyTreeImplementation> none;
    PT t(none, name);
    PBT_THROWS(t.getInt("k"), PT::Exception, "no implementation");
    PBT_THROWS(t.getString("k", "d"), PT::Exception, "no implementation");
    PBT_THROWS(t.setDouble("k", 1), PT::Exception, "no implementation");
    PBT_THROWS(t.doesKeyExist("k"), PT::Exception, "no implementation");
  }
}

// ---------------------------------------------------------------- implementations of one's own
/// remembers the one call it was asked to serve; keys are documented to start with "/" and to be delimited by "/"
struct Recorder : sm::PropertyTreeImplementation {
  mutable std::vector<std::string> calls;
  mutable std::string key;
  double d = 0;
  int i = 0;
  bool b = false;
  std::string str;
  void rec(const char* what, const std::string& k) const { calls.push_back(what); key = k; }
  double getDouble(const std::string& k) const override { rec("getDouble", k); return d; }
  double getDouble(const std::string& k, double v) const override { rec("getDouble default const", k); return v; }
  double getDouble(const std::string& k, double v) override { rec("getDouble default", k); return v; }
  int getInt(const std::string& k) const override { rec("getInt", k); return i; }
  int getInt(const std::string& k, int v) const override { rec("getInt default const", k); return v; }
  int getInt(const std::string& k, int v) override { rec("getInt default", k); return v; }
  bool getBool(const std::string& k) const override { rec("getBool", k); return b; }
  bool getBool(const std::string& k, bool v) const override { rec("getBool default const", k); return v; }
  bool getBool(const std::string& k, bool v) override { rec("getBool default", k); return v; }
  std::string getString(const std::string& k) const override { rec("getString", k); return str; }
  std::string getString(const std::string& k, const std::string& v) const override { rec("getString default const", k); return v; }
  std::string getString(const std::string& k, const std::string& v) override { rec("getString default", k); return v; }
  void setDouble(const std::string& k, double v) override { rec("setDouble", k); d = v; }
  void setInt(const std::string& k, int v) override { rec("setInt", k); i = v; }
  void setBool(const std::string& k, bool v) override { rec("setBool", k); b = v; }
  void setString(const std::string& k, const std::string& v) override { rec("setString", k); str = v; }
  bool doesKeyExist(const std::string& k) const override { rec("doesKeyExist", k); return b; }
  std::vector<sm::KeyPropertyTreePair> getChildren(const std::string& k) const override {
    rec("getChildren", k);
    std::vector<sm::KeyPropertyTreePair> r;
    for (int n = 0; n < 3; ++n) r.push_back({std::string(size_t(n), 'c'), PT(boost::shared_ptr<sm::PropertyTreeImplementation>(new Recorder), "")});
    return r;
  }
};
PBT(own_implementations, 20000, 200000, fast()) {
  boost::shared_ptr<Recorder> r(new Recorder);
  r->d = s.anyFinite();
  r->i = int(s.anyInt(INT_MIN, INT_MAX));
  r->b = s.flip();
  r->str = text(s);
  auto name = [&](Path& p, bool base) {
    Path rel;
    bool abs = base || s.chance(1, 3);
    size_t n = s.below(4);
    for (size_t i = 0; i < n; ++i) rel.push_back(key(s, false));
    std::string k;
    for (size_t i = 0; i < rel.size(); ++i) k += (i || (abs && !(base && s.flip())) ? "/" : "") + rel[i];
    if (abs && rel.empty() && !base) k = "/";
    if (!rel.empty() && s.chance(1, 4)) k += "/";
    if (abs) p.clear();
    p.insert(p.end(), rel.begin(), rel.end());
    return k;
  };
  Path p;
  std::string base = name(p, true);
  PT t(r, base);
  std::string child = name(p, false);
  PT v(t, child);
  CPT c(v);
  Path q = p;
  std::string k = name(q, false), full = q.empty() ? "/" : join(q);
  PBT_NOTE(s, "base " << pbt::show(base) << " child " << pbt::show(child) << " key " << pbt::show(k) << " is " << pbt::show(full));
  if (q.size() > 1) s.nontrivial();
  const PT& cv = v;
  double d = s.anyFinite();
  int i = int(s.anyInt(INT_MIN, INT_MAX));
  bool b = s.flip();
  std::string x = text(s);
  std::string what;
  switch (s.below(21)) {
    case 0: PBT_CHECK(pbt::sameBits(v.getDouble(k), r->d), "value"); what = "getDouble"; break;
    case 1: PBT_CHECK(v.getInt(k) == r->i, "value"); what = "getInt"; break;
    case 2: PBT_CHECK(v.getBool(k) == r->b, "value"); what = "getBool"; break;
    case 3: PBT_CHECK(v.getString(k) == r->str, "value"); what = "getString"; break;
    case 4: PBT_CHECK(pbt::sameBits(v.getDouble(k, d), d), "value"); what = "getDouble default"; break;
    case 5: PBT_CHECK(v.getInt(k, i) == i, "value"); what = "getInt default"; break;
    case 6: PBT_CHECK(v.getBool(k, b) == b, "value"); what = "getBool default"; break;
    case 7: PBT_CHECK(v.getString(k, x) == x, "value"); what = "getString default"; break;
    case 8: PBT_CHECK(pbt::sameBits(cv.getDouble(k, d), d), "value"); what = "getDouble default const"; break;
    case 9: PBT_CHECK(c.getInt(k, i) == i, "value"); what = "getInt default const"; break;
    case 10: PBT_CHECK(c.getBool(k, b) == b, "value"); what = "getBool default const"; break;
    case 11: PBT_CHECK(cv.getString(k, x) == x, "value"); what = "getString default const"; break;
    case 12: PBT_CHECK(c.getDouble(k) == r->d && c.getInt(k) == r->i && c.getBool(k) == r->b, "values"); r->calls.clear(); c.getString(k); what = "getString"; break;
    case 13: v.setDouble(k, d); PBT_CHECK(pbt::sameBits(r->d, d), "value"); what = "setDouble"; break;
    case 14: v.setInt(k, i); PBT_CHECK(r->i == i, "value"); what = "setInt"; break;
    case 15: v.setBool(k, b); PBT_CHECK(r->b == b, "value"); what = "setBool"; break;
    case 16: v.setString(k, x); PBT_CHECK(r->str == x, "value"); what = "setString"; break;
    case 17: PBT_CHECK(v.doesKeyExist(k) == r->b, "value"); what = "doesKeyExist"; break;
    case 18: PBT_CHECK(c.doesKeyExist(k) == r->b, "value"); what = "doesKeyExist"; break;
    default: {
      std::vector<std::string> keys;
      what = "getChildren";
      if (s.flip()) for (auto& e : v.getChildren()) keys.push_back(e.key);
      else for (auto& e : c.getChildren()) keys.push_back(e.key);
      PBT_CHECK((keys == std::vector<std::string>{"", "c", "cc"}), "children as listed");
      std::string ns = r->key;
      while (ns.size() > 1 && ns.back() == '/') ns.pop_back();
      PBT_CHECK(ns == (p.empty() ? "/" : join(p)), "children of " << pbt::show(r->key));
      full = r->key;
      break;
    }
  }
  s.label(what.c_str());
  PBT_CHECK(r->calls.size() == 1 && r->calls[0] == what, "one call of " << what << ", not " << r->calls.size() << " ending with " << r->calls.back());
  PBT_CHECK(r->key == full, what << " of key " << pbt::show(r->key));
}
