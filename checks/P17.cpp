// P17: layered configuration loading merges with documented precedence.
#include "pt.hpp"
#include <boost/filesystem.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <map>
#include <set>
PBT_PROPERTY("P17",
             "Pairs of trees with overlapping keys (any characters) merged under every combination of the update flags; assignment lists written in every spelling of the inline syntax; loader runs "
             "over generated file sets with parents, cycles, update-only entries, search paths, infixes and missing files, against a model of merging and of the search order. A case is "
             "non-trivial when an update both overrides and adds (or fails on a missing key), an inline tree has nested scopes, or a loader run merges at least two files.")
using namespace pt;
typedef sm::BoostPropertyTree BPT;
static pbt::Options fast() { pbt::Options o; o.hang_s = 20; return o; }

// ---- update ----------------------------------------------------------------------------------
static bool blank(const std::string& t) { return t.find_first_not_of(" \n\t\r") == std::string::npos; }
struct Missing { std::string key; bool readable; };
static void update(Node& d, const Node& with, bool create, bool skipBlank, Path& at) {
  if (!skipBlank || !blank(with.data)) {
    if (!create && !d.at(at)) {
      bool nul = false;
      for (const auto& k : at) nul = nul || k.find('\0') != std::string::npos;
      throw Missing{at.empty() ? "" : at.back(), !nul};
    }
    d.make(at).data = with.data;
  }
  for (const auto& c : with.kids) { at.push_back(c.first); update(d, c.second, create, skipBlank, at); at.pop_back(); }
}
static void grow(pbt::Source& s, Node& n, int depth, bool wild) {
  if (depth == 0 && s.chance(1, 5)) n.data = text(s);
  size_t c = s.size(depth == 0 ? 1 : 0, 4);
  for (size_t i = 0; i < c; ++i) {
    std::string k = key(s, wild);
    if (wild && s.chance(1, 20)) k = s.pick({"a/b", "/", "a/", ""});
    if (n.kid(k)) continue;
    Node x;
    x.data = s.chance(1, 4) ? s.pick({"", " ", "\n\t", " \r"}) : text(s);
    if (depth < 4 && s.chance(1, 2)) grow(s, x, depth + 1, wild);
    n.kids.push_back(std::make_pair(k, x));
  }
}
/// a copy with some nodes left out, changed or added
static Node related(pbt::Source& s, const Node& n, bool wild) {
  Node o;
  o.data = s.flip() ? n.data : text(s);
  for (const auto& c : n.kids) if (!s.chance(1, 3)) o.kids.push_back(std::make_pair(c.first, related(s, c.second, wild)));
  if (s.chance(1, 6)) { std::string k = key(s, wild); if (!o.kid(k)) { Node x; x.data = text(s); o.kids.push_back(std::make_pair(k, x)); } }
  return o;
}
static void updates(pbt::Source& s, bool wild) {
  Node a, b;
  grow(s, a, 0, wild);
  if (s.flip()) b = related(s, a, wild); else grow(s, b, 0, wild);
  bool create = s.flip(), skip = s.flip();
  PBT_NOTE(s, show(a) << " updated with " << show(b) << (create ? " creating" : "") << (skip ? " skipping blanks" : ""));
  Node want = a;
  Path at;
  bool fails = false;
  std::string missing;
  bool readable = true;
  try { update(want, b, create, skip, at); } catch (const Missing& m) { fails = true; missing = m.key; readable = m.readable; }
  BPT d(ptree(a)), w(ptree(b));
  bool threw = false;
  try {
    if (skip || s.flip()) d.update(w, create, skip);
    else if (create && s.flip()) d.update(w);
    else d.update(w, create);
  } catch (const sm::PropertyTree::KeyNotFoundException& e) {
    threw = true;
    if (readable) PBT_CHECK(std::string(e.what()).find(missing) != std::string::npos, "the missing key " << pbt::show(missing) << " is named in " << e.what());
  }
  PBT_CHECK(threw == fails, "a missing key is " << (fails ? "" : "not ") << "reported, first missing " << pbt::show(missing));
  same(dump(w), b, "the update is not changed");
  s.label(fails ? "missing key" : "merged");
  if (fails) { s.nontrivial(); return; }
  same(dump(d), want, "merged");
  if (!(want == a) && want.count() > a.count()) s.nontrivial();
}
PBT(update_model, 30000, 400000, fast()) { updates(s, false); }
PBT(update_any_keys, 30000, 400000, fast()) { updates(s, true); }
PBT(update_laws, 8000, 80000, fast()) {
  Node a, b;
  grow(s, a, 0, true);
  b = related(s, a, true);
  BPT x(ptree(a)), y(ptree(b)), e;
  PBT_NOTE(s, show(a) << " and " << show(b));
  s.nontrivial();
  x.update(x, false, s.flip());
  same(dump(x), a, "updating a tree with itself changes nothing");
  x.update(y);
  Node once = dump(x);
  x.update(y, false);
  same(dump(x), once, "the second time everything exists and nothing changes");
  e.update(x);
  same(dump(e), once, "an empty tree takes over everything, in order");
}

// ---- inline strings ----------------------------------------------------------------------------
static std::string inlineKey(pbt::Source& s) { return s.chance(3, 4) ? s.pick({"a", "b", "c", "d", "e", "f", "g", "h"}) : s.pick({"long_key", "k.x", "K9", "-o", "\xc3\xa9", "x[0]", "a:b", "(c)", "!u", "*", "@", "p%"}); }
static std::string inlineValue(pbt::Source& s) {
  if (s.chance(1, 40)) { std::string r = s.str("abcXYZ0189_-.:/=+", 40); while (!r.empty() && r.size() < 1200 && s.chance(7, 8)) r += r; return r; }
  switch (s.below(7)) {
    case 0: return std::to_string(s.anyInt(INT_MIN, INT_MAX));
    case 1: { std::ostringstream o; o.precision(17); o << s.anyFinite(); return o.str(); }
    case 2: return s.pick({"true", "false", "hello", "x"});
    case 3: return s.pick({"/home/user/x.yaml", "a/b", "/", "//", "../x", "http://h/p?q=1", "=", "a=b", "==", "x=/y"});
    case 4: return s.pick({"\xc3\xa9\xe6\x97\xa5", "#1", "a#b", "[1:2]", "a.b", "'q'", "$HOME", "<x>", "&", "(1)", "!x", "*"});
    case 5: return "";
    default: return s.str("abcXYZ0189_-.:/=+", 10);
  }
}
static void growInline(pbt::Source& s, Node& n, int depth, std::string& out, size_t& deep) {
  size_t c = s.size(depth == 0 ? 0 : 1, 4);
  bool first = true;
  deep = std::max(deep, size_t(depth));
  for (size_t i = 0; i < c; ++i) {
    std::string k = inlineKey(s);
    if (n.kid(k)) continue;
    if (!first || s.chance(1, 12)) out += ",";
    if (s.chance(1, 15)) out += ",";
    first = false;
    out += k;
    Node x;
    Node* t = &x;
    size_t hops = depth < 5 && s.chance(1, 3) ? s.size(1, 3) : 0;
    for (size_t h = 0; h < hops; ++h) { std::string kk = inlineKey(s); out += "/" + kk; t->kids.push_back(std::make_pair(kk, Node())); t = &t->kids.back().second; }
    deep = std::max(deep, size_t(depth) + hops);
    bool scope = depth < 5 && s.chance(1, 3);
    if (!scope || s.chance(1, 5)) { t->data = inlineValue(s); out += "=" + t->data; }
    if (scope) { out += "{"; growInline(s, *t, depth + 1, out, deep); if (s.chance(1, 10)) out += ","; out += "}"; }
    n.kids.push_back(std::make_pair(k, x));
  }
}
static void assign(BPT& t, const Node& n, const std::string& at) {
  for (const auto& c : n.kids) {
    std::string p = at + "/" + c.first;
    t.setString(p, c.second.data);
    assign(t, c.second, p);
  }
}
PBT(inline_strings, 40000, 500000, fast()) {
  Node n;
  std::string text0;
  size_t deep = 0;
  growInline(s, n, 0, text0, deep);
  PBT_NOTE(s, pbt::show(text0));
  if (deep >= 2) s.nontrivial();
  s.label(deep >= 3 ? "deep" : deep ? "nested" : "flat");
  BPT t;
  if (s.flip()) t.setInt("old", 1);
  t.loadString(text0);
  same(dump(t), n, "the one-line text");
  BPT u;
  assign(u, n, "");
  same(dump(u), n, "setting each assignment");
  // the same in several strings
  std::vector<std::string> parts;
  std::vector<const char*> argv;
  Node joined;
  size_t k = s.size(1, 4);
  for (size_t i = 0; i < k; ++i) { Node m; std::string p; size_t d = 0; growInline(s, m, 0, p, d); bool clash = false; for (auto& c : m.kids) clash = clash || joined.kid(c.first); if (clash) continue; parts.push_back(p); for (auto& c : m.kids) joined.kids.push_back(c); }
  for (auto& p : parts) argv.push_back(p.c_str());
  BPT v, w;
  v.loadStrings(parts);
  w.loadStrings(int(argv.size()), argv.data());
  same(dump(v), joined, "several strings");
  same(dump(w), joined, "several arguments");
}
PBT(inline_errors, 4000, 40000, fast()) {
  Node n;
  std::string t0;
  size_t deep = 0;
  growInline(s, n, 0, t0, deep);
  std::string bad = t0;
  size_t kind = s.below(3);
  if (kind == 0) bad += "}";
  else if (kind == 1) bad += (bad.empty() ? "z{x=1" : ",z{x=1");
  else bad.insert(s.below(bad.size() + 1), "\"");
  PBT_NOTE(s, pbt::show(bad));
  s.nontrivial();
  BPT t;
  t.setInt("old", 1);
  Node before = dump(t);
  bool threw = false;
  try { t.loadString(bad); } catch (const std::exception&) { threw = true; }
  PBT_CHECK(threw, "unbalanced or quoted text is rejected");
  same(dump(t), before, "a rejected text changes nothing");
}
static bool has(const BPT& t, const std::string& k) { return t.doesKeyExist(k); }
PBT_KNOWN(split_scope, "split_scope", "loadString(\"a/d=1,a/e=2\"): two phrases with a common scope make two scopes of that name, and a/e cannot be read") {
  BPT t;
  t.loadString("a/d=1,a/e=2");
  return has(t, "a/d") && !has(t, "a/e");
}

// ---- the loader --------------------------------------------------------------------------------
class Loader : public sm::BoostPropertyTreeLoader {
 public:
  const std::set<std::string>* exists = nullptr;
  mutable std::vector<std::string> asked;
  std::vector<std::string> started, merged, warned;

 protected:
  bool fileExists(const std::string& p) const override {
    asked.push_back(p);
    return exists ? exists->count(p) != 0 : sm::BoostPropertyTreeLoader::fileExists(p);
  }

 private:
  void goingToMergeIn(const std::string& p) override { merged.push_back(p); }
  void startingWith(const std::string& p) override { started.push_back(p); }
  void warn(const std::string& m) override { warned.push_back(m); }
  void info(const std::string&) override {}
  void verbose(const std::string&) override {}
};
static std::string dirOf(const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
static std::string collapse(const std::string& p) { std::string o; for (char c : p) if (c != '/' || o.empty() || o.back() != '/') o += c; return o; }
/// the documented search, over any notion of existence
template <class Exists> static std::string resolve(const std::vector<std::string>& paths, std::vector<std::string> infixes, const std::string& path, const std::string& rel, Exists exists) {
  if (paths.empty() || (!path.empty() && path[0] == '/')) return path;
  if (path.compare(0, 2, "./") == 0 || path.compare(0, 3, "../") == 0) {
    if (rel.empty()) { if (exists(path)) return path; }
    else { std::string d = dirOf(rel), c = d.empty() ? path : d + "/" + path; if (exists(c)) return c; }
  }
  if (infixes.empty()) infixes.push_back("");
  for (const auto& b : paths) for (const auto& i : infixes) { std::string c = b + "/" + (i.empty() ? "" : i + "/") + path; if (exists(c)) return c; }
  return paths.front() + "/" + (infixes.front().empty() ? "" : infixes.front() + "/") + path;
}
PBT(search_order, 30000, 300000, fast()) {
  Loader l;
  std::vector<std::string> dirs, infixes;
  size_t nd = s.below(4), ni = s.below(4);
  for (size_t i = 0; i < nd; ++i) dirs.push_back(s.pick({"d0", "d1", "/opt/conf", "d0/sub", "."}));
  for (size_t i = 0; i < ni; ++i) infixes.push_back(s.pick({"i0", "i1", "", "i0/x"}));
  std::string path = s.pick({"f.xml", "./f.xml", "../f.xml", "/abs/f.xml", "sub/f.xml", ".hidden", "..f", "./sub/f.xml", "."});
  std::string rel = s.pick({"", "d0/g.xml", "g.xml", "/opt/conf/g.xml", "d0/i0/g.xml"});
  // existing files: some of the candidates, and some decoys
  std::set<std::string> all, there;
  for (const auto& d : dirs) for (const auto& i : infixes) all.insert(d + "/" + (i.empty() ? "" : i + "/") + path);
  for (const auto& d : dirs) all.insert(d + "/" + path);
  all.insert(path);
  all.insert((dirOf(rel).empty() ? "" : dirOf(rel) + "/") + path);
  all.insert(dirOf(rel) + "/" + path);
  all.insert("/" + path);
  for (const auto& c : all) if (s.chance(1, 3)) there.insert(c);
  l.exists = &there;
  l.getSearchPaths() = dirs;
  l.getFileNameInfixes() = infixes;
  std::string want = resolve(dirs, infixes, path, rel, [&](const std::string& p) { return there.count(p) != 0; });
  PBT_NOTE(s, dirs.size() << " dirs, " << infixes.size() << " infixes, " << path << " from " << pbt::show(rel) << " existing " << there.size());
  if (there.size() > 1 && !dirs.empty()) s.nontrivial();
  std::string got = l.resolveFullFilePath(path, rel);
  PBT_CHECK(collapse(got) == collapse(want), "resolved to " << got << " expected " << want);
  std::string again = l.resolveFullFilePath(path, rel);
  PBT_CHECK(again == got, "resolving twice gives the same");
  PBT_CHECK(l.getSearchPaths() == dirs, "search paths are not changed");
}

struct Files {
  std::map<std::string, Node> at;  // path relative to the working directory
};
struct Model {
  const Files& files;
  std::vector<std::string> paths, infixes;
  std::set<std::string> seen;
  Node tree;
  bool set = false, failed = false;
  std::vector<std::string> order;
  void read(const std::vector<std::string>& names, const std::string& rel) {
    for (const auto& n : names) {
      if (failed) return;
      if (n.empty() || !seen.insert(n).second) continue;
      load(n, rel);
    }
  }
  void load(std::string n, const std::string& rel) {
    bool only = n.back() == '!';
    if (only) n.pop_back();
    std::string full = resolve(paths, infixes, n, rel, [&](const std::string& p) { return boost::filesystem::exists(p); });
    auto f = files.at.find(boost::filesystem::path(full).lexically_normal().string());
    if (f == files.at.end()) { failed = true; return; }
    const Node& t = f->second;
    std::string parents;
    if (auto p = t.kid("parents")) parents = p->data;
    if (parents.empty() && !t.kids.empty()) if (auto p = t.kids.front().second.kid("parents")) parents = p->data;
    if (!parents.empty()) {
      std::vector<std::string> l;
      std::istringstream i(parents);
      for (std::string w; std::getline(i, w, ',');) l.push_back(w);
      read(l, full);
    }
    if (failed) return;
    order.push_back(full);
    if (!set) { tree = t; set = true; return; }
    Path at;
    tree.make({"parents"});  // the list of parents is always there
    try { update(tree, t, !only, false, at); } catch (const Missing&) { failed = true; }
  }
};
/// the list of parents at the root belongs to the loader
static Node plain(Node n) { for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].first == "parents") { n.kids.erase(n.kids.begin() + long(i)); --i; } return n; }
static const std::vector<std::string> names = {"a.info", "b.info", "c.json", "d.xml", "e.info", "f.json"};
PBT(loader, 12000, 150000, fast()) {
  for (const char* d : {"conf", "alt", "conf/inf", "alt/inf", "sub"}) boost::filesystem::create_directories(d);
  for (const char* d : {"conf/", "alt/", "conf/inf/", "alt/inf/", ""}) for (const auto& n : names) boost::filesystem::remove(d + n);
  Loader l;
  std::vector<std::string> dirs, infixes;
  switch (s.below(4)) { case 0: break; case 1: dirs = {"conf"}; break; case 2: dirs = {"conf", "alt"}; break; default: dirs = {"alt", "conf"}; break; }
  switch (s.below(4)) { case 0: infixes = {"inf"}; break; case 1: infixes = {"inf", ""}; break; case 2: infixes = {"", "inf"}; break; default: break; }
  auto reference = [&](bool inside) {
    std::string n = s.pick(names);
    switch (s.below(8)) {
      case 0: n = "./" + n; break;
      case 1: n = (inside ? "../" + s.pick({std::string("conf"), std::string("alt")}) + "/" : "./conf/") + n; break;
      case 2: n = boost::filesystem::absolute("conf/" + n).string(); break;
      case 3: if (s.chance(1, 6)) n = "nothere.info"; break;
      default: break;
    }
    if (s.chance(1, 5)) n += "!";
    return n;
  };
  Files f;
  auto list = [&](bool inside, size_t most) { std::string o; size_t k = s.size(1, most); for (size_t i = 0; i < k; ++i) o += (i ? "," : "") + (s.chance(1, 15) ? std::string() : reference(inside)); return o; };
  std::string here = boost::filesystem::current_path().string();
  for (const auto& n : names)
    for (const char* d : {"conf/", "alt/", "conf/inf/", "alt/inf/", ""}) {
      bool leaf = *d && dirs.empty() ? s.chance(1, 2) : s.chance(3, 4);
      if (!leaf) continue;
      Node t;
      bool xml = n == "d.xml";
      if (xml) t.make({"cfg", "k" + std::to_string(s.below(3))}).data = "v" + std::to_string(s.below(50));
      size_t k = s.size(1, 4);
      for (size_t i = 0; i < k; ++i) {
        Path p;
        if (xml || s.flip()) p.push_back(xml ? "cfg" : s.pick({"cfg", "x"}));
        p.push_back("k" + std::to_string(s.below(3)));
        const Node* up = p.size() > 1 ? t.kid(p[0]) : nullptr;
        if (up && !up->data.empty()) continue;
        t.make(p).data = s.chance(1, 6) ? s.pick({"", " "}) : "v" + std::to_string(s.below(50));  // a later blank overrides too
      }
      if (s.chance(1, 3)) {
        std::string parents = list(true, 2);
        if (!parents.empty()) {
          if (xml || (s.flip() && !t.kids.empty() && t.kids.front().second.data.empty())) { Node x; x.data = parents; t.kids.front().second.kids.push_back(std::make_pair("parents", x)); }
          else { Node x; x.data = parents; t.kids.push_back(std::make_pair("parents", x)); }
        }
      }
      BPT b(ptree(t));
      b.save(d + n);
      f.at[d + n] = t;
      f.at[here + "/" + d + n] = t;
    }
  std::vector<std::string> top;
  size_t k = s.size(1, 3);
  for (size_t i = 0; i < k; ++i) top.push_back(reference(false));
  l.getSearchPaths() = dirs;
  l.getFileNameInfixes() = infixes;
  Model m{f, dirs, infixes, {}, Node(), false, false, {}};
  m.read(top, "");
  std::string joined;
  for (const auto& t : top) joined += (joined.empty() ? "" : ",") + t;
  PBT_NOTE(s, joined << " search " << dirs.size() << "/" << infixes.size());
  for (const auto& e : f.at) if (e.first[0] != '/') PBT_NOTE(s, e.first << "=" << show(e.second));
  bool threw = false;
  BPT got;
  std::string why;
  try { got = s.flip() ? l.readFilesAndMergeIntoPropertyTree(joined) : l.readFilesAndMergeIntoPropertyTree(top); } catch (const std::exception& e) { threw = true; why = e.what(); }
  if (m.order.size() >= 2) s.nontrivial();
  s.label(m.failed ? "fails" : m.order.size() >= 2 ? "merges" : "single");
  PBT_CHECK(threw == m.failed, (m.failed ? "a missing file or key is reported" : "everything is there: ") << why);
  if (threw) return;
  same(plain(dump(got)), plain(m.tree), "merged configuration");
  PBT_CHECK(l.started.size() + l.merged.size() == m.order.size() && l.started.size() == (m.order.empty() ? 0 : 1), "one first file and " << l.merged.size() << " merged");
  // a second run starts afresh
  BPT again = l.readFilesAndMergeIntoPropertyTree(top);
  same(dump(again), dump(got), "loading twice gives the same");
}

/// tens of levels, hundreds of entries, a long line of ancestors
PBT(large, 400, 6000, fast()) {
  const size_t deep = s.size(1, 60), wide = s.size(1, s.flip() ? 300 : 5), len = s.chance(1, 3) ? 3000 : 5;
  PBT_NOTE(s, deep << " levels, " << wide << " entries each, values of " << len);
  s.nontrivial();
  Node n, *at = &n;
  std::string in;
  size_t open = 0, count = 0;
  const std::string value(len, 'v');
  for (size_t d = 0; d < deep && count < 2000; ++d) {
    for (size_t i = 0; i < wide; ++i, ++count) {
      Node x;
      x.data = count < 100 ? value + std::to_string(count) : "w";
      in += "n" + std::to_string(i) + "=" + x.data + ",";
      at->kids.push_back(std::make_pair("n" + std::to_string(i), x));
    }
    at->kids.push_back(std::make_pair("inner", Node()));
    at = &at->kids.back().second;
    if (s.flip()) { in += "inner/deeper{"; at->kids.push_back(std::make_pair("deeper", Node())); at = &at->kids.back().second; }
    else in += "inner{";
    ++open;
  }
  in += "last=1";
  at->kids.push_back(std::make_pair("last", Node()));
  at->kids.back().second.data = "1";
  in += std::string(open, '}');
  BPT t;
  t.loadString(in);
  same(dump(t), n, "the one-line text");

  const size_t line = s.size(1, 50), keys = s.size(1, 40);
  boost::filesystem::create_directories("line");
  std::map<std::string, std::string> want;
  std::string up;
  for (size_t g = 0; g < line; ++g) {
    Node f;
    if (!up.empty()) { Node x; x.data = up; f.kids.push_back(std::make_pair("parents", x)); }
    for (size_t k = s.size(1, keys); k; --k) {
      const std::string name = "k" + std::to_string(s.below(keys)), v = std::to_string(g) + value;
      if (f.kid(name)) continue;
      Node x;
      x.data = v;
      f.kids.push_back(std::make_pair(name, x));
      want[name] = v;
    }
    up = "g" + std::to_string(g) + ".info";
    BPT b(ptree(f));
    b.save("line/" + up);
  }
  Loader l;
  l.getSearchPaths() = {"line"};
  BPT got = l.readFilesAndMergeIntoPropertyTree(up);
  std::map<std::string, std::string> have;
  for (const auto& c : plain(dump(got)).kids) { have[c.first] = c.second.data; PBT_CHECK(c.second.kids.empty(), "a leaf"); }
  PBT_CHECK(have == want, "a line of " << line << " files: " << have.size() << " entries, " << want.size() << " expected");
  PBT_EQ(l.started.size() + l.merged.size(), line, "files read");
}
