// P19: value stores answer like the stack of stores they are built from.
#include "pt.hpp"
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
PBT_PROPERTY("P19",
             "Random nestings (depth up to 4) of tree-backed, layered (0 to 3 layers), prefix-adding, prefix-removing, verbose and childless stores and child views over up to 3 shared trees, driven by "
             "histories of lookups of every type, with and without defaults, by alternative lists, updates through handles, additions and enumeration, compared after every step with a model that only "
             "translates paths and picks the first layer. A case is non-trivial when the stack combines at least two kinds of store and a value was found and changed.")
using namespace pt;
using namespace sm::value_store;
typedef sm::BoostPropertyTree BPT;
typedef sm::PropertyTree::InvalidKeyException MissingKey;
static pbt::Options fast() { pbt::Options o; o.hang_s = 20; return o; }

/// a store that does not support children
class Childless : public ValueStore {
 public:
  explicit Childless(ValueStore::SharedPtr v) : v_(v) {}
  ValueHandle<bool> getBool(const std::string& p, boost::optional<bool> d) const override { return v_->getBool(p, d); }
  ValueHandle<int> getInt(const std::string& p, boost::optional<int> d) const override { return v_->getInt(p, d); }
  ValueHandle<double> getDouble(const std::string& p, boost::optional<double> d) const override { return v_->getDouble(p, d); }
  ValueHandle<std::string> getString(const std::string& p, boost::optional<std::string> d) const override { return v_->getString(p, d); }
  bool hasKey(const std::string& p) const override { return v_->hasKey(p); }
  KeyValueStorePair getChild(const std::string&) const override { throw std::logic_error("no children here"); }
  std::vector<KeyValueStorePair> getChildren() const override { throw std::logic_error("no children here"); }
  bool isChildSupported() const override { return false; }

 private:
  ValueStore::SharedPtr v_;
};

struct Stack;
typedef std::shared_ptr<Stack> StackPtr;
struct Stack {
  enum Kind { TREE, LAYERS, ADD, REMOVE, VERBOSE, CHILDLESS, CHILD } kind;
  Node* root = nullptr;
  Path base;  // of a TREE view, a prefix or a child key
  std::vector<StackPtr> sub;
  ValueStoreRef real;
  std::shared_ptr<ExtendibleValueStoreRef> ext;  // set when values can be added
  std::shared_ptr<std::vector<std::string>> log;
};
static Path concat(Path a, const Path& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
struct Found { Node* root; Path path; Node* node; };
static bool find(const Stack& s, const Path& p, Found& f) {
  switch (s.kind) {
    case Stack::TREE: { Path q = concat(s.base, p); const Node* n = s.root->at(q); if (!n) return false; f = Found{s.root, q, const_cast<Node*>(n)}; return true; }
    case Stack::LAYERS: for (const auto& l : s.sub) if (find(*l, p, f)) return true; return false;
    case Stack::ADD: case Stack::CHILD: return find(*s.sub[0], concat(s.base, p), f);
    case Stack::REMOVE:
      if (p.size() < s.base.size() || !std::equal(s.base.begin(), s.base.end(), p.begin())) return false;
      return find(*s.sub[0], Path(p.begin() + long(s.base.size()), p.end()), f);
    default: return find(*s.sub[0], p, f);
  }
}
/// a prefix removed completely: whether the root of a store counts as a key is left open
static bool reachesRoot(const Stack& s, const Path& p) {
  switch (s.kind) {
    case Stack::TREE: return false;
    case Stack::LAYERS: for (const auto& l : s.sub) if (reachesRoot(*l, p)) return true; return false;
    case Stack::ADD: case Stack::CHILD: return reachesRoot(*s.sub[0], concat(s.base, p));
    case Stack::REMOVE:
      if (p.size() < s.base.size() || !std::equal(s.base.begin(), s.base.end(), p.begin())) return false;
      return p.size() == s.base.size() || reachesRoot(*s.sub[0], Path(p.begin() + long(s.base.size()), p.end()));
    default: return reachesRoot(*s.sub[0], p);
  }
}
static bool childSupport(const Stack& s) {
  switch (s.kind) {
    case Stack::CHILDLESS: return false;
    case Stack::LAYERS: for (const auto& l : s.sub) if (!childSupport(*l)) return false; return true;
    case Stack::REMOVE: case Stack::VERBOSE: return childSupport(*s.sub[0]);
    default: return true;
  }
}
/// enumerating children is not implemented for prefixes and childless stores
static bool enumerable(const Stack& s) {
  switch (s.kind) {
    case Stack::TREE: return true;
    case Stack::LAYERS: for (const auto& l : s.sub) if (!enumerable(*l)) return false; return true;
    case Stack::VERBOSE: return enumerable(*s.sub[0]);
    case Stack::CHILD: return childSupport(*s.sub[0]) && enumerable(*s.sub[0]);
    default: return false;
  }
}
static void keysAt(const Stack& s, const Path& p, std::vector<std::string>& out) {
  switch (s.kind) {
    case Stack::TREE: { const Node* n = s.root->at(concat(s.base, p)); if (n) for (const auto& c : n->kids) if (std::find(out.begin(), out.end(), c.first) == out.end()) out.push_back(c.first); break; }
    case Stack::LAYERS: for (const auto& l : s.sub) keysAt(*l, p, out); break;
    default: keysAt(*s.sub[0], s.kind == Stack::CHILD ? concat(s.base, p) : p, out); break;
  }
}
static std::string slashes(const Path& p) { std::string o; for (size_t i = 0; i < p.size(); ++i) o += (i ? "/" : "") + p[i]; return o; }
static std::string describe(const Stack& s) {
  switch (s.kind) {
    case Stack::TREE: return "tree" + std::string(s.base.empty() ? "" : ":" + slashes(s.base));
    case Stack::LAYERS: { std::string o = "layers("; for (const auto& l : s.sub) o += describe(*l) + ","; return o + ")"; }
    case Stack::ADD: return "add[" + slashes(s.base) + "](" + describe(*s.sub[0]) + ")";
    case Stack::REMOVE: return "remove[" + slashes(s.base) + "](" + describe(*s.sub[0]) + ")";
    case Stack::CHILD: return "child[" + slashes(s.base) + "](" + describe(*s.sub[0]) + ")";
    case Stack::VERBOSE: return "verbose(" + describe(*s.sub[0]) + ")";
    default: return "childless(" + describe(*s.sub[0]) + ")";
  }
}
static std::string aKey(pbt::Source& s) { return s.chance(4, 5) ? s.pick({"a", "b", "c"}) : s.pick({"d", "k.x", "\xc3\xa9", "a b", "!x", "ab", "aa"}); }
static Path aPath(pbt::Source& s, size_t lo, size_t hi) { Path p; size_t n = s.size(lo, hi); for (size_t i = 0; i < n; ++i) p.push_back(aKey(s)); return p; }
static std::string aText(pbt::Source& s) { return s.chance(3, 4) ? s.pick({"1", "0", "true", "2.5", "-7", "x", "", "1e300", "v w"}) : pt::text(s); }
static void grow(pbt::Source& s, Node& n, int depth) {
  size_t c = s.size(depth == 0 ? 1 : 0, 3);
  for (size_t i = 0; i < c; ++i) {
    std::string k = aKey(s);
    if (n.kid(k)) continue;
    Node x;
    x.data = aText(s);
    if (depth < 3 && s.flip()) grow(s, x, depth + 1);
    n.kids.push_back(std::make_pair(k, x));
  }
}
struct World {
  std::vector<std::unique_ptr<Node>> model;
  std::vector<BPT> tree;
  std::set<int> kinds;
};
static StackPtr make(pbt::Source& s, World& w, int depth) {
  StackPtr p = std::make_shared<Stack>();
  size_t k = depth >= 4 ? 0 : depth == 0 && s.chance(3, 4) ? 3 + s.below(6) : s.below(9);
  switch (k) {
    default: {
      size_t i = s.below(w.tree.size());
      p->kind = Stack::TREE;
      p->root = w.model[i].get();
      if (s.chance(1, 4)) p->base = aPath(s, 1, 2);
      sm::PropertyTree t = p->base.empty() ? sm::PropertyTree(w.tree[i]) : sm::PropertyTree(w.tree[i], slashes(p->base));
      if (s.flip()) { p->ext = std::make_shared<ExtendibleValueStoreRef>(t); p->real = *p->ext; }
      else p->real = ValueStoreRef(t);
      break;
    }
    case 3: {
      p->kind = Stack::LAYERS;
      const bool many = depth < 2 && s.chance(1, 12);
      size_t n = s.chance(1, 12) ? 0 : many ? s.size(4, 9) : s.size(1, 3);
      auto l = std::make_shared<LayeredValueStore>();
      for (size_t i = 0; i < n; ++i) {
        p->sub.push_back(make(s, w, many ? 4 : depth + 1));
        if (s.flip()) l->add(p->sub.back()->real); else l->add(p->sub.back()->real.getValueStoreSharedPtr());
        if (s.chance(1, 8)) l->add(std::shared_ptr<ValueStore>());
      }
      if (n == 2 && s.flip()) l = std::make_shared<LayeredValueStore>(p->sub[0]->real, p->sub[1]->real);
      p->real = ValueStoreRef(std::shared_ptr<ValueStore>(l));
      break;
    }
    case 4: case 5: {
      p->kind = k == 4 ? Stack::ADD : Stack::REMOVE;
      p->sub.push_back(make(s, w, depth + 1));
      p->base = aPath(s, 1, 2);
      auto mode = k == 4 ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE;
      p->real = s.flip() ? ValueStoreRef(std::make_shared<PrefixedValueStore>(p->sub[0]->real, mode, slashes(p->base)))
                         : ValueStoreRef(std::make_shared<PrefixedValueStore>(p->sub[0]->real.getValueStoreSharedPtr(), mode, slashes(p->base)));
      break;
    }
    case 6: {
      p->kind = Stack::VERBOSE;
      p->sub.push_back(make(s, w, depth + 1));
      auto log = std::make_shared<std::vector<std::string>>();
      p->log = log;
      auto sink = [log](const std::string& t) { log->push_back(t); };
      if (p->sub[0]->ext && s.flip()) {
        p->ext = std::make_shared<ExtendibleValueStoreRef>(std::make_shared<VerboseExtendibleValueStore>(p->sub[0]->ext->getValueStoreSharedPtr(), sink));
        p->real = *p->ext;
      } else p->real = ValueStoreRef(std::make_shared<VerboseValueStore>(p->sub[0]->real.getValueStoreSharedPtr(), sink));
      break;
    }
    case 7: {
      p->kind = Stack::CHILDLESS;
      p->sub.push_back(make(s, w, depth + 1));
      p->real = ValueStoreRef(std::make_shared<Childless>(p->sub[0]->real.getValueStoreSharedPtr()));
      break;
    }
    case 8: {
      p->kind = Stack::CHILD;
      p->sub.push_back(make(s, w, depth + 1));
      p->base = Path(1, aKey(s));
      if (p->sub[0]->ext && s.flip()) { p->ext = std::make_shared<ExtendibleValueStoreRef>(p->sub[0]->ext->getExtendibleChild(p->base[0])); p->real = *p->ext; }
      else p->real = p->sub[0]->real.getChild(p->base[0]);
      break;
    }
  }
  w.kinds.insert(p->kind);
  return p;
}
// the three operations for each type
template <class T> struct Type;
template <> struct Type<bool> {
  static Reading read(const std::string& t, bool& v) { return readBool(t, v); }
  static bool value(pbt::Source& s) { return s.flip(); }
  static bool view(const sm::ConstPropertyTree& t, const std::string& p) { return t.getBool(p); }
  static bool view(const sm::ConstPropertyTree& t, const std::string& p, bool d) { return t.getBool(p, d); }
  static ValueHandle<bool> add(const ExtendibleValueStoreRef& r, const std::string& p, bool v) { return r.addBool(p, v); }
  static std::string text(bool v) { return v ? "true" : "false"; }
  static ValueHandle<bool> get(const ValueStoreRef& r, const std::string& p, boost::optional<bool> d) { return r.getBool(p, d); }
};
template <> struct Type<int> {
  static Reading read(const std::string& t, int& v) { return readInt(t, v); }
  static int value(pbt::Source& s) { return int(s.anyInt(INT_MIN, INT_MAX)); }
  static int view(const sm::ConstPropertyTree& t, const std::string& p) { return t.getInt(p); }
  static int view(const sm::ConstPropertyTree& t, const std::string& p, int d) { return t.getInt(p, d); }
  static ValueHandle<int> add(const ExtendibleValueStoreRef& r, const std::string& p, int v) { return r.addInt(p, v); }
  static std::string text(int v) { return std::to_string(v); }
  static ValueHandle<int> get(const ValueStoreRef& r, const std::string& p, boost::optional<int> d) { return r.getInt(p, d); }
};
template <> struct Type<double> {
  static Reading read(const std::string& t, double& v) { return readDouble(t, v); }
  static double value(pbt::Source& s) { return s.anyFinite(); }
  static double view(const sm::ConstPropertyTree& t, const std::string& p) { return t.getDouble(p); }
  static double view(const sm::ConstPropertyTree& t, const std::string& p, double d) { return t.getDouble(p, d); }
  static ValueHandle<double> add(const ExtendibleValueStoreRef& r, const std::string& p, double v) { return r.addDouble(p, v); }
  static std::string text(double v) { BPT t; t.setDouble("x", v); return t.getString("x"); }
  static ValueHandle<double> get(const ValueStoreRef& r, const std::string& p, boost::optional<double> d) { return r.getDouble(p, d); }
};
template <> struct Type<std::string> {
  static Reading read(const std::string& t, std::string& v) { v = t; return YES; }
  static std::string value(pbt::Source& s) { return aText(s); }
  static std::string view(const sm::ConstPropertyTree& t, const std::string& p) { return t.getString(p); }
  static std::string view(const sm::ConstPropertyTree& t, const std::string& p, const std::string& d) { return t.getString(p, d); }
  static ValueHandle<std::string> add(const ExtendibleValueStoreRef& r, const std::string& p, const std::string& v) { return r.addString(p, v); }
  static std::string text(const std::string& v) { return v; }
  static ValueHandle<std::string> get(const ValueStoreRef& r, const std::string& p, boost::optional<std::string> d) { return r.getString(p, d); }
};
static bool same(bool a, bool b) { return a == b; }
static bool same(int a, int b) { return a == b; }
static bool same(double a, double b) { return pbt::sameBits(a, b); }
static bool same(const std::string& a, const std::string& b) { return a == b; }
static std::string logged(bool v) { return std::to_string(v); }
static std::string logged(int v) { return std::to_string(v); }
static std::string logged(double v) { return std::to_string(v); }
static std::string logged(const std::string& v) { return "\"" + v + "\""; }

static void intact(const World& w, const std::string& why) { for (size_t i = 0; i < w.tree.size(); ++i) pt::same(dump(w.tree[i]), *w.model[i], "tree " + std::to_string(i) + " after " + why); }
static std::string spelled(pbt::Source&, const Path& p) { return slashes(p); }

template <class T> static void lookup(pbt::Source& s, World& w, const Stack& k, const Path& p, bool& changed) {
  std::string path = spelled(s, p);
  if (reachesRoot(k, p)) return;
  Found f;
  bool there = find(k, p, f);
  T v = T();
  Reading r = there ? Type<T>::read(f.node->data, v) : NO;
  PBT_CHECK(k.real.hasKey(path) == there, "existence of " << path << " in " << describe(k));
  boost::optional<T> def;
  if (s.flip()) def = Type<T>::value(s);
  size_t before = k.log ? k.log->size() : 0;
  bool viaGet = s.flip();
  auto get = [&](boost::optional<T> d) { return viaGet ? k.real.template get<T>(path, d) : Type<T>::get(k.real, path, d); };
  if (!there && !def) {
    PBT_THROWS(get(def), MissingKey, "missing " << path << " in " << describe(k));
    PBT_THROWS(Type<T>::view(k.real.asPropertyTree(), path), MissingKey, "missing " << path << " seen as a tree");
    intact(w, "a failing lookup");
    s.label("missing");
    return;
  }
  if (!there) {
    ValueHandle<T> h = get(def);
    PBT_CHECK(!h.empty() && same(h.get(), *def), "the default of " << path << " in " << describe(k));
    PBT_CHECK(same(T(h), *def), "the default converted");
    PBT_CHECK(!h.isUpdateable(), "a default has no place to be updated");
    PBT_CHECK(same(Type<T>::view(k.real.asPropertyTree(), path, *def), *def), "the default seen as a tree");
    if (k.log) PBT_CHECK(k.log->size() > before && (*k.log)[before].find("(\"" + path + "\")->DEFAULT:" + logged(*def)) != std::string::npos, "the default is logged: " << (k.log->size() > before ? (*k.log)[before] : "nothing"));
    intact(w, "a default");
    s.label("default");
    return;
  }
  if (r == UNSURE) return;
  if (r == NO) {
    if (!def) PBT_THROWS(get(def), sm::PropertyTree::InvalidValueException, "unreadable " << pbt::show(f.node->data) << " at " << path);
    else try { get(def); } catch (const sm::PropertyTree::InvalidValueException&) {}
    intact(w, "an unreadable value");
    return;
  }
  ValueHandle<T> h = get(def);
  PBT_CHECK(!h.empty() && same(h.get(), v), "value of " << path << " in " << describe(k) << ": " << h.get() << " expected " << v);
  PBT_CHECK(same(T(h), v), "value converted");
  PBT_CHECK(same(Type<T>::view(k.real.asPropertyTree(), path), v), "value seen as a tree");
  PBT_CHECK(same(Type<T>::view(k.real.asPropertyTree(), path, Type<T>::value(s)), v), "value seen as a tree, with default");
  if (k.log) PBT_CHECK(k.log->size() > before && (*k.log)[before].find("(\"" + path + "\")->" + logged(v)) != std::string::npos, "the value is logged: " << (k.log->size() > before ? (*k.log)[before] : "nothing"));
  intact(w, "a lookup");
  s.label("found");
  if (!def) PBT_CHECK(h.isUpdateable(), "a value in a tree can be updated");
  if (!def && s.flip()) {
    T x = Type<T>::value(s);
    h.update(x);
    f.node->data = Type<T>::text(x);
    PBT_CHECK(same(h.get(), x), "an updated handle reads the new value");
    intact(w, "updating " + path);
    changed = true;
    s.label("updated");
    if (s.flip()) {
      // another handle to the same place
      ValueHandle<T> g = Type<T>::get(k.real, path, boost::optional<T>());
      T y = Type<T>::value(s);
      g.update(y);
      f.node->data = Type<T>::text(y);
      PBT_CHECK(same(h.get(), y) && same(g.get(), y), "handles to one value agree");
      intact(w, "updating twice");
    }
    ValueHandle<T> moved = std::move(h);
    PBT_CHECK(h.empty() && !moved.empty(), "a moved handle");
  }
}
template <class T> static void addition(pbt::Source& s, World& w, const Stack& k, const Path& p) {
  std::string path = spelled(s, p);
  T v = Type<T>::value(s);
  const Stack* t = &k;
  Path q = p;
  while (t->kind != Stack::TREE) { if (t->kind == Stack::CHILD) q = concat(t->base, q); t = t->sub[0].get(); }
  q = concat(t->base, q);
  size_t before = k.log ? k.log->size() : 0;
  ValueHandle<T> h = Type<T>::add(*k.ext, path, v);
  t->root->make(q).data = Type<T>::text(v);
  PBT_CHECK(same(h.get(), v), "the added value");
  if (k.log) PBT_CHECK(k.log->size() == before + 1 && k.log->back().find("(\"" + path + "\")->INITIAL:" + logged(v)) != std::string::npos, "the addition is logged");
  intact(w, "adding " + path);
  PBT_CHECK(same(Type<T>::get(k.real, path, boost::optional<T>()).get(), v), "the added value is found");
  s.label("added");
}
template <class T> static void alternatives(pbt::Source& s, World& w, const Stack& k) {
  std::vector<std::string> list;
  std::string want, alertPath, message;
  bool found = false, alert = false, given = false;
  size_t n = s.size(1, 4);
  Path chosen;
  for (size_t i = 0; i < n; ++i) {
    Path p = aPath(s, 1, 3);
    if (reachesRoot(k, p)) return;
    std::string path = slashes(p);
    bool old = s.flip() || path[0] == '!';
    Found f;
    bool here = find(k, p, f) && !found;
    list.push_back((old ? "!" : "") + path);
    if (here) { found = true; want = path; chosen = p; alert = old; alertPath = path; }
    if (old) {
      if (i + 1 == n && s.flip()) break;
      std::string m = s.flip() ? slashes(aPath(s, 1, 2)) : s.pick({"please change", "", "!a"});
      list.push_back(m);
      if (here) { message = m; given = true; }
    }
  }
  std::string all;
  for (auto& l : list) all += l + "|";
  PBT_NOTE(s, "alternatives " << pbt::show(all));
  std::vector<std::pair<std::string, std::string>> alerts;
  ValueStoreRef::PathAlertHandler handler = [&](std::string p, std::string m) { alerts.push_back(std::make_pair(p, m)); };
  bool silent = s.chance(1, 4);
  std::ostringstream err;
  std::streambuf* saved = std::cerr.rdbuf(err.rdbuf());
  struct Restore { std::streambuf* b; ~Restore() { std::cerr.rdbuf(b); } } restore{saved};
  boost::optional<T> def;
  if (s.flip()) def = Type<T>::value(s);
  bool missing = false, unreadable = false;
  T got = T();
  try { ValueHandle<T> h = silent ? k.real.template get<T>(list, def) : k.real.template get<T>(list, def, handler); got = h.get(); }
  catch (const sm::PropertyTree::InvalidValueException&) { unreadable = true; }
  catch (const MissingKey&) { missing = true; }
  intact(w, "alternatives");
  if (!found) {
    PBT_CHECK(alerts.empty() && err.str().empty(), "no alert for absent paths");
    // without any of the paths the first one counts
    PBT_CHECK(missing == !def, "none of the alternatives is there");
    if (def) PBT_CHECK(same(got, *def), "the default");
    s.label("no alternative");
    return;
  }
  PBT_CHECK(!missing, "an alternative is there");
  Found f;
  find(k, chosen, f);
  T v = T();
  Reading r = Type<T>::read(f.node->data, v);
  if (r == YES) PBT_CHECK(!unreadable && same(got, v), "value of the first alternative that is there, " << want);
  if (r == NO && !def) PBT_CHECK(unreadable, "unreadable alternative");
  if (silent) {
    PBT_CHECK(alerts.empty(), "no handler");
    PBT_CHECK(err.str().empty() == !alert, "the alert goes to the error stream");
    if (alert && given) PBT_CHECK(err.str().find(message) != std::string::npos, "the message is printed");
  } else {
    PBT_CHECK(err.str().empty(), "nothing is printed with a handler");
    PBT_CHECK(alerts.size() == (alert ? 1 : 0), "one alert for a deprecated path, " << alerts.size());
    if (alert) {
      PBT_EQ(alerts[0].first, alertPath, "the deprecated path");
      if (given) PBT_EQ(alerts[0].second, message, "its message");
      else PBT_CHECK(alerts[0].second.find(alertPath) != std::string::npos, "a default message names the path");
    }
  }
  s.label(alert ? "deprecated alternative" : "alternative");
}
static void compareChildren(const Stack& k, const ValueStoreRef& r, const Path& at, int depth) {
  std::vector<std::string> want, got;
  keysAt(k, at, want);
  auto kids = r.getChildren();
  for (const auto& c : kids) got.push_back(c.getKey());
  std::vector<std::string> a = want, b = got;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  PBT_CHECK(a == b, "children of " << describe(k) << " at " << slashes(at) << ": " << got.size() << " expected " << want.size());
  for (const auto& c : kids) {
    Path p = at;
    p.push_back(c.getKey());
    Found f;
    PBT_CHECK(find(k, p, f), "an enumerated child exists");
    PBT_CHECK(k.real.hasKey(slashes(p)), "an enumerated child exists");
    PBT_CHECK(c.hasKey(""), "an enumerated child holds its own value under the empty path");
    PBT_EQ(c.getString("").get(), f.node->data, "own value of the enumerated child " << slashes(p));
    if (depth < 3) compareChildren(k, c, p, depth + 1);
    std::vector<std::string> below;
    keysAt(k, p, below);
    for (const auto& b2 : below) {
      Path q = p;
      q.push_back(b2);
      Found g;
      PBT_CHECK(find(k, q, g) && c.hasKey(b2), "a grandchild is found in its parent " << slashes(q));
      PBT_EQ(c.getString(b2).get(), g.node->data, "value " << slashes(q));
    }
    PBT_CHECK(!c.hasKey("no such key"), "absent");
    if (c.isEmpty()) PBT_CHECK(below.empty(), "an empty store has no keys");
  }
}
static void run(pbt::Source& s) {
  World w;
  size_t n = s.size(1, 3);
  for (size_t i = 0; i < n; ++i) {
    w.model.push_back(std::unique_ptr<Node>(new Node));
    if (!s.chance(1, 8)) grow(s, *w.model.back(), 0);
    w.tree.push_back(BPT(ptree(*w.model.back())));
    PBT_NOTE(s, "tree " << i << " " << show(*w.model.back()));
  }
  StackPtr top = make(s, w, 0);
  PBT_NOTE(s, describe(*top));
  std::vector<StackPtr> all;
  std::function<void(const StackPtr&)> gather = [&](const StackPtr& k) { all.push_back(k); for (const auto& c : k->sub) gather(c); };
  gather(top);
  if (s.chance(1, 4)) {  // the stores that a stack is made of belong to nobody else
    for (const auto& k : all) if (k != top) { k->real = ValueStoreRef(); k->ext.reset(); }
    all = {top};
    s.label("sole owner");
  }
  size_t ops = s.size(1, 12);
  bool changed = false;
  for (size_t o = 0; o < ops; ++o) {
    const Stack& k = s.chance(2, 3) ? *top : *s.pick(all);
    Path p = aPath(s, 1, 4);
    // often something that is there
    if (s.chance(3, 4)) {
      const Stack* t = &k;
      Path q;
      for (int i = 0; i < 4; ++i) {
        std::vector<std::string> ks;
        Path pre;
        const Stack* u = t;
        Path strip;
        while (u->kind == Stack::REMOVE) { pre = concat(pre, u->base); u = u->sub[0].get(); }
        keysAt(*u, q, ks);
        if (ks.empty() || (i && s.chance(1, 3))) { if (!q.empty() || !pre.empty()) p = concat(pre, q); break; }
        q.push_back(s.pick(ks));
        if (i == 3) p = concat(pre, q);
      }
      if (p.empty()) p = aPath(s, 1, 2);
    }
    PBT_NOTE(s, "on " << describe(k) << " " << slashes(p));
    switch (s.below(12)) {
      case 0: case 1: lookup<int>(s, w, k, p, changed); break;
      case 2: lookup<bool>(s, w, k, p, changed); break;
      case 3: lookup<double>(s, w, k, p, changed); break;
      case 4: case 5: lookup<std::string>(s, w, k, p, changed); break;
      case 6: case 7:
        if (k.ext) switch (s.below(4)) { case 0: addition<int>(s, w, k, p); break; case 1: addition<bool>(s, w, k, p); break; case 2: addition<double>(s, w, k, p); break; default: addition<std::string>(s, w, k, p); break; }
        else if (k.kind != Stack::TREE && k.kind != Stack::CHILD) { PBT_CHECK(!k.real.isExtendible(), "nothing can be added"); bool threw = false; try { k.real.asExtendible(); } catch (const std::exception&) { threw = true; } PBT_CHECK(threw, "not extendible"); }
        break;
      case 8: if (s.flip()) alternatives<int>(s, w, k); else alternatives<std::string>(s, w, k); break;
      case 9: {
        // the child found by name
        std::string key = p[0];
        ValueStoreRef c = k.real.getChild(key);
        Path rest = p.size() > 1 ? Path(p.begin() + 1, p.end()) : aPath(s, 1, 2);
        if (reachesRoot(k, concat(Path(1, key), rest))) break;
        Found f;
        bool there = find(k, concat(Path(1, key), rest), f);
        PBT_CHECK(c.hasKey(slashes(rest)) == there, "existence of " << slashes(rest) << " in child " << key << " of " << describe(k));
        if (there) PBT_EQ(c.getString(slashes(rest)).get(), f.node->data, "value in child " << key);
        else PBT_EQ(c.getString(slashes(rest), std::string("dflt")).get(), "dflt", "default in child " << key);
        intact(w, "child");
        break;
      }
      case 10: if (enumerable(k)) { compareChildren(k, k.real, Path(), 0); s.label("children"); } break;
      default: {
        PBT_CHECK(k.real.asPropertyTree().doesKeyExist(slashes(p)) == k.real.hasKey(slashes(p)), "existence seen as a tree");
        if (k.real.isEmpty()) { std::vector<std::string> none; if (enumerable(k)) keysAt(k, Path(), none); PBT_CHECK(none.empty(), "an empty store has no keys"); }
        if (k.kind == Stack::TREE) { PBT_CHECK(k.real.canSave() && k.real.isExtendible(), "a tree can be saved and extended"); PBT_CHECK(k.real.asExtendible().hasKey(slashes(p)) == k.real.hasKey(slashes(p)), "extendible reference"); }
        else if (k.kind != Stack::CHILD) { PBT_CHECK(!k.real.canSave(), "only trees can be saved"); }
        break;
      }
    }
    intact(w, "each step");
  }
  if (w.kinds.size() >= 2 && changed) s.nontrivial();
  // what was handed out outlives the stack, and the trees it reads
  std::vector<std::string> ks;
  keysAt(*top, Path(), ks);
  if (ks.empty()) return;
  Path p(1, s.pick(ks));
  Found f;
  if (reachesRoot(*top, p) || !find(*top, p, f)) return;
  const std::string want = f.node->data, path = slashes(p);
  ValueHandle<std::string> h = top->real.getString(path);
  sm::ConstPropertyTree view = top->real.asPropertyTree();
  const ValueStoreRef child = top->real.getChild(path);
  std::shared_ptr<ExtendibleValueStoreRef> grown;
  if (top->ext) grown = std::make_shared<ExtendibleValueStoreRef>(top->ext->getExtendibleChild(path));
  all.clear();
  top.reset();
  gather = nullptr;
  if (s.flip()) w.tree.clear();
  PBT_EQ(h.get(), want, "a handle whose store is gone");
  PBT_EQ(view.getString(path), want, "a tree view whose store is gone");
  if (child.hasKey("")) PBT_EQ(child.asPropertyTree().getString(""), want, "its tree view");
  if (child.hasKey("")) PBT_EQ(child.getString("").get(), want, "a child whose store is gone");
  if (grown) {
    grown->addInt("zz", 5);
    PBT_EQ(grown->getInt("zz").get(), 5, "a value added to a child whose store is gone");
  }
}
PBT(stacks, 40000, 600000, fast()) { run(s); }

/// verbose stores log and do nothing else, also with several children of one name
PBT(verbose_children, 5000, 50000, fast()) {
  Node n;
  size_t c = s.size(1, 5);
  for (size_t i = 0; i < c; ++i) { Node x; x.data = "v" + std::to_string(i); size_t m = s.below(3); for (size_t j = 0; j < m; ++j) { Node y; y.data = std::to_string(10 * i + j); x.kids.push_back(std::make_pair(aKey(s), y)); } n.kids.push_back(std::make_pair(s.pick({"a", "b"}), x)); }
  BPT t(ptree(n));
  PBT_NOTE(s, show(n));
  std::vector<std::string> log;
  auto sink = [&](const std::string& l) { log.push_back(l); };
  ExtendibleValueStoreRef plain(t);
  std::shared_ptr<VerboseExtendibleValueStore> ve = std::make_shared<VerboseExtendibleValueStore>(plain.getValueStoreSharedPtr(), sink);
  PBT_CHECK(ve->getUnderlyingValueStore() == plain.getValueStoreSharedPtr(), "the wrapped store");
  ValueStoreRef verbose = s.flip() ? ValueStoreRef(std::make_shared<VerboseValueStore>(ValueStoreRef(t).getValueStoreSharedPtr(), sink)) : ValueStoreRef(ve);
  bool extendible = s.flip();
  s.nontrivial();
  size_t i = 0;
  auto check = [&](const ValueStoreRef& v, const std::string& key) {
    PBT_CHECK(i < n.kids.size() && key == n.kids[i].first, "child " << i << " is named " << key);
    const Node& want = n.kids[i++].second;
    size_t before = log.size();
    PBT_EQ(v.getString("").get(), want.data, "value of child " << i);
    PBT_CHECK(log.size() == before + 1, "the lookup is logged");
    size_t j = 0;
    for (const auto& g : v.getChildren()) { PBT_EQ(g.getKey(), want.kids[j].first, "grandchild"); PBT_EQ(g.getString("").get(), want.kids[j].second.data, "value of grandchild"); ++j; }
    PBT_CHECK(j == want.kids.size(), "all grandchildren");
    PBT_CHECK(log.size() > before + 1, "lookups below are logged");
  };
  if (extendible) for (const auto& k : ve->getExtendibleChildren()) check(k, k.getKey());
  else for (const auto& k : verbose.getChildren()) check(k, k.getKey());
  PBT_CHECK(i == n.kids.size(), "all children");
  PBT_CHECK(!log.empty(), "logged");
  pt::same(dump(t), n, "reading changes nothing");
}
PBT(fresh_stores, 500, 3000, fast()) {
  ValueStoreRef a;
  ExtendibleValueStoreRef b;
  std::string k = aKey(s);
  PBT_NOTE(s, k);
  s.nontrivial();
  PBT_CHECK(a.isEmpty() && b.isEmpty() && !a.hasKey(k) && a.getChildren().empty() && b.getExtendibleChildren().empty(), "fresh stores are empty");
  b.addInt(k + "/x", 3);
  PBT_CHECK(!b.isEmpty() && b.getInt(k + "/x") == 3 && !a.hasKey(k), "fresh stores are separate");
  PBT_CHECK(bool(a) && a.isExtendible(), "valid");
  a.asExtendible().addString(k, "v");
  PBT_CHECK(a.getString(k).get() == "v", "added through the extendible view");
  bool threw = false;
  try { ValueStoreRef bad{std::shared_ptr<ValueStore>()}; } catch (const std::exception&) { threw = true; }
  PBT_CHECK(threw, "no store");
  ValueStoreRef f = ValueStoreRef::fromString("a=1,b{c=2,d=x}");
  PBT_CHECK(f.getInt("a") == 1 && f.getInt("b/c") == 2 && f.getChild("b").getString("d").get() == "x" && f.getChildren().size() == 2, "from text");
  ExtendibleValueStoreRef g = ExtendibleValueStoreRef::fromString("a=1");
  g.getExtendibleChild("b").addInt("c", 5);
  PBT_CHECK(g.getInt("b/c") == 5, "extended below");
}
