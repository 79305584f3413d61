// P16: property trees survive saving and loading in every file format.
#include "pt.hpp"
#include "locales.hpp"
#include "filelimit.hpp"
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
PBT_PROPERTY("P16",
             "Trees generated inside what each format can represent (INFO: any bytes except keys beginning with '#'; JSON: any UTF-8, no node with both value and children; XML: element names, text "
             "without control characters, attributes and comments; INI: two levels, trimmed one-line values), up to about 60 nodes, saved and reloaded by explicit call and by extension, over "
             "existing files and existing trees, directly and through value stores. A case is non-trivial when the tree has at least two levels and a value that needs quoting or escaping.")
using namespace pt;
typedef sm::BoostPropertyTree BPT;
enum Format { XML, JSON, INI, INFO };
static const char* ext(Format f) { return f == XML ? "xml" : f == JSON ? "json" : f == INI ? "ini" : "info"; }

static std::string utf8(pbt::Source& s, size_t maxLen, bool control) {
  std::string o;
  size_t n = s.size(0, maxLen);
  for (size_t i = 0; i < n; ++i) {
    uint32_t c;
    switch (s.below(8)) {
      case 0: c = uint32_t(control ? s.below(32) : 32 + s.below(95)); break;
      case 1: c = uint32_t(s.range(0x80, 0x7ff)); break;
      case 2: c = uint32_t(s.range(0x800, 0xd7ff)); break;
      case 3: c = uint32_t(s.range(0x10000, 0x10ffff)); break;
      case 4: c = uint32_t(uint8_t(s.pick({'"', '\\', '<', '>', '&', '\'', '/', '=', ';', '#', '[', ']', '{', '}', ',', ' '}))); break;
      default: c = uint32_t(32 + s.below(95)); break;
    }
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
  }
  return o;
}
static std::string number(pbt::Source& s) {
  // as the tree itself writes numbers
  sm::BoostPropertyTree t;
  switch (s.below(3)) {
    case 0: t.setDouble("x", s.anyFinite()); break;
    case 1: t.setInt("x", int(s.anyInt(INT_MIN, INT_MAX))); break;
    default: t.setBool("x", s.flip()); break;
  }
  return t.getString("x");
}
static std::string xmlText(pbt::Source& s) {
  std::string o = utf8(s, 10, false);
  if (s.chance(1, 3)) { static const std::string ws[] = {" ", "\n", "\t", "  "}; o = ws[s.below(4)] + o + "x" + ws[s.below(4)] + (s.flip() ? "y" : "") + ws[s.below(4)]; }
  return o;
}
static std::string value(pbt::Source& s, Format f) {
  if (s.chance(1, 60)) { std::string r = "x" + s.str("abcXYZ0189_-.:/+", 40); while (r.size() < 3000 && s.chance(7, 8)) r += r; return r; }  // long values
  switch (s.below(4)) {
    case 0: return "";
    case 1: return number(s);
    case 2: return s.str("abc XYZ", 8).empty() ? "v" : "plain";
    default: break;
  }
  switch (f) {
    case INFO: return s.flip() ? s.bytes(12) : utf8(s, 10, true);
    case JSON: return utf8(s, 10, true);
    case XML: return xmlText(s);
    default: {
      std::string o = s.flip() ? s.bytes(10) : utf8(s, 10, false);
      o.erase(std::remove_if(o.begin(), o.end(), [](char c) { return c == '\n' || c == '\r'; }), o.end());
      return trimmed(o);
    }
  }
}
static std::string keyName(pbt::Source& s, Format f, bool section) {
  if (s.flip()) return s.pick({"a", "b", "c", "key", "K1"});
  std::string k;
  switch (f) {
    case INFO: k = s.flip() ? s.bytes(8) : utf8(s, 6, true); if (!k.empty() && k[0] == '#') k[0] = '_'; return k;
    case JSON: return utf8(s, 6, true);
    case XML: {
      k = std::string(1, s.pick({'a', 'Z', '_', 'q'})) + s.str("abcXYZ019_.-", 6);
      if (s.flip()) k += "\xc3\xa9";
      return k;
    }
    default:
      k = utf8(s, 6, false);
      k.erase(std::remove_if(k.begin(), k.end(), [&](char c) { return section ? c == ']' : c == '='; }), k.end());
      k = trimmed(k);
      if (!section && !k.empty() && (k[0] == ';' || k[0] == '#' || k[0] == '[')) k[0] = '_';
      return k.empty() ? "k" : k;
  }
}
static void grow(pbt::Source& s, Format f, Node& n, int depth, size_t& budget, bool dup) {
  size_t c = s.size(depth == 0 ? 1 : 0, 5);
  for (size_t i = 0; i < c && budget; ++i) {
    --budget;
    Node k;
    bool section = f == INI && depth == 0 && s.flip();
    std::string name = keyName(s, f, section);
    if (!dup && n.kid(name)) continue;
    k.data = value(s, f);
    // the INFO reader takes a backslash after a quoted key for a line continuation
    if (f == INFO && !k.data.empty() && std::string("\0\a\b\f\n\r\v\\", 8).find(k.data[0]) != std::string::npos && name.find_first_not_of("abcdefghijklmnopqrstuvwxyzK1") != std::string::npos) k.data = "v" + k.data;
    if (f == INFO && name.empty() && !k.data.empty()) k.data = "v" + k.data;
    if (f == INI ? section : depth < 12 && s.chance(depth < 3 ? 2 : 1, 4)) {
      if (f == JSON || f == INI) k.data.clear();
      if (f == XML && s.chance(1, 4)) {
        Node a;
        size_t m = s.size(1, 3);
        for (size_t j = 0; j < m; ++j) { Node v; v.data = value(s, XML); std::string an = keyName(s, XML, false); if (!a.kid(an)) a.kids.push_back(std::make_pair(an, v)); }
        k.kids.push_back(std::make_pair("<xmlattr>", a));
        s.label("attributes");
      }
      grow(s, f, k, depth + 1, budget, f != INI && s.chance(1, 4));
      if (f == INI && k.kids.empty()) continue;
    }
    n.kids.push_back(std::make_pair(name, k));
  }
  if (f == INI && depth == 0) std::stable_partition(n.kids.begin(), n.kids.end(), [](const std::pair<std::string, Node>& e) { return e.second.kids.empty(); });
}
static size_t levels(const Node& n) { size_t d = 0; for (auto& c : n.kids) d = std::max(d, levels(c.second) + 1); return d; }
static bool special(const Node& n) {
  for (auto& c : n.kids) {
    for (char ch : c.second.data) if (!std::isalnum(uint8_t(ch))) return true;
    if (special(c.second)) return true;
  }
  return false;
}
static Node tree(pbt::Source& s, Format f) {
  Node n;
  size_t budget = 60;
  if (!s.chance(1, 40)) grow(s, f, n, 0, budget, f == INFO || f == XML || f == JSON ? s.chance(1, 4) : false);
  if (levels(n) >= 2 && special(n)) s.nontrivial();
  s.label(ext(f));
  return n;
}
static void saveAs(BPT& t, Format f, const std::string& p, bool str) {
  switch (f) {
    case XML: str ? t.saveXmlStr(p) : t.saveXml(p); break;
    case JSON: str ? t.saveJsonStr(p) : t.saveJson(p); break;
    case INI: str ? t.saveIniStr(p) : t.saveIni(p); break;
    default: str ? t.saveInfoStr(p) : t.saveInfo(p); break;
  }
}
static void loadAs(BPT& t, Format f, const std::string& p, bool str) {
  switch (f) {
    case XML: str ? t.loadXmlStr(p) : t.loadXml(p); break;
    case JSON: str ? t.loadJsonStr(p) : t.loadJson(p); break;
    case INI: str ? t.loadIniStr(p) : t.loadIni(p); break;
    default: str ? t.loadInfoStr(p) : t.loadInfo(p); break;
  }
}
static void roundTrip(pbt::Source& s, Format f) {
  Node n = tree(s, f);
  PBT_NOTE(s, ext(f) << " " << show(n));
  BPT t(ptree(n));
  std::string byName = pbt::scratch() + "/t." + ext(f), other = pbt::scratch() + "/t.other";
  if (s.chance(1, 4)) spill(byName, std::string(s.size(0, 5000), 'z'));
  bool str = s.flip();
  if (str) t.saveStr(byName); else t.save(byName);
  same(dump(t), n, "saving leaves the tree alone");
  saveAs(t, f, other, str);
  PBT_CHECK(slurp(byName) == slurp(other), "the extension selects the format " << ext(f) << ": " << pbt::show(slurp(byName)) << " and " << pbt::show(slurp(other)));
  BPT u;
  if (s.flip()) { u.setString("old", "x"); u.setInt("a/b", 3); u.setInt("", 3); }
  if (str) u.loadStr(byName); else u.load(byName);
  same(dump(u), n, "reloaded by extension");
  BPT w;
  loadAs(w, f, other, str);
  same(dump(w), n, "reloaded by name of the format");
  for (const auto& c : n.kids) if (c.first.find('/') == std::string::npos && !c.first.empty()) {
    double d;
    const Node* first = n.kid(c.first);
    if (readDouble(first->data, d) == YES) PBT_CHECK(pbt::sameBits(u.getDouble("/" + c.first), d), "number " << c.first);
  }
  if (f == INFO) {
    spill(other, t.asInfoString());
    BPT v;
    v.loadInfo(other);
    same(dump(v), n, "INFO text");
  }
  if (f == XML) {
    BPT v;
    v.loadXmlFromString(slurp(byName));
    same(dump(v), n, "XML text");
  }
  // through value stores
  if (s.flip()) {
    s.label("value store");
    sm::value_store::ValueStoreRef r = s.flip() ? sm::value_store::ValueStoreRef(t) : sm::value_store::ExtendibleValueStoreRef(t);
    PBT_CHECK(r.canSave(), "a tree can be saved");
    std::string p = pbt::scratch() + "/v." + ext(f), p2 = pbt::scratch() + "/v2." + ext(f);
    r.saveTo(p);
    PBT_CHECK(slurp(p) == slurp(byName), "a value store saves what its tree saves");
    sm::value_store::ValueStoreRef q = s.flip() ? sm::value_store::ValueStoreRef::fromFile(p) : sm::value_store::ExtendibleValueStoreRef::fromFile(p);
    q.saveTo(p2);
    BPT back;
    back.load(p2);
    same(dump(back), n, "saved again through the loaded value store");
  }
}
static pbt::Options fast() { pbt::Options o; o.hang_s = 20; return o; }
// hundreds of siblings, tens of levels, values of thousands of bytes
PBT(large, 100, 1500, fast()) {
  const Format f = s.pick({XML, JSON, INFO});
  const size_t deep = s.size(1, 60), wide = s.size(1, s.flip() ? 400 : 10), most = s.chance(1, 3) ? 20000 : 20;
  const std::string piece = s.pick({"word ", "x", "a\"b", "1.5,", "\xc3\xa9<&>", "#;{}"});
  const uint64_t k = s.bits64() | 1;
  PBT_NOTE(s, ext(f) << " " << deep << " levels, " << wide << " children, values of up to " << most << " bytes");
  s.nontrivial();
  uint64_t count = 0;
  auto text = [&]() { std::string t; const size_t n = size_t(k * ++count >> 40) % (most + 1); while (t.size() < n) t += piece; return f == XML ? trimmed(t) : t; };
  Node root, *n = &root;
  for (size_t d = 0; d < deep; ++d) {
    if (wide * d > 3000) break;
    for (size_t i = 0; i < wide; ++i) { Node c; c.data = count > 300 ? "v" : text(); n->kids.push_back(std::make_pair("n" + std::to_string(i), c)); }
    Node c;
    n->kids.push_back(std::make_pair("inner", c));
    n = &n->kids.back().second;
  }
  n->data = "bottom";
  BPT t(ptree(root));
  const std::string p = pbt::scratch() + "/large." + ext(f);
  saveAs(t, f, p, s.flip());
  BPT u;
  loadAs(u, f, p, s.flip());
  same(dump(u), root, "reloaded");
  std::string way;
  for (size_t d = 0; d < deep && wide * d <= 3000; ++d) way += "/inner";
  PBT_EQ(u.getString(way), "bottom", way);
  const sm::ConstPropertyTree v(u, way);
  PBT_EQ(v.getString(""), "bottom", "a view of it");
  PBT_EQ(u.getChildren().size(), root.kids.size(), "children");
}
// a disk that runs full: the tree is either written completely or the failure is reported
PBT(full_disk, 3000, 40000, fast()) {
  const Format f = s.pick({XML, JSON, INFO, INI});
  const Node n = tree(s, f);
  BPT t(ptree(n));
  const std::string p = pbt::scratch() + "/full." + ext(f), q = pbt::scratch() + "/fits." + ext(f);
  const bool how = s.flip();
  saveAs(t, f, q, how);
  const size_t size = pt::slurp(q).size(), room = s.flip() ? size_t(s.below(size + 1)) : s.chance(1, 3) ? size + size_t(s.below(3)) : size - std::min(size, size_t(s.below(40)));
  PBT_NOTE(s, ext(f) << " " << show(n) << ": " << size << " bytes, room for " << room);
  s.label(room < size ? "full" : "fits");
  std::remove(p.c_str());
  bool reported = false;
  {
    FileLimit limit(room);
    try { saveAs(t, f, p, how); } catch (const std::exception&) { reported = true; }
  }
  PBT_CHECK(reported == (room < size), (reported ? "refused, although there is room" : "the file is truncated, which is not reported"));
  if (!reported) PBT_CHECK(pt::slurp(p) == pt::slurp(q), "the whole file is written");
  same(dump(t), n, "unchanged");
}
// written in a program of one locale and read in a program of another
PBT(locales, 3000, 40000, fast()) {
  const Format f = s.pick({XML, JSON, INFO, INI});
  Node n = tree(s, f);
  const int i = int(s.anyInt(INT_MIN, INT_MAX));
  const double d = s.anyFinite();
  const bool b = s.flip(), w = s.flip(), r = s.flip();
  PBT_NOTE(s, ext(f) << " " << show(n) << " " << i << " " << d << " " << b << " other locale: " << w << r);
  s.nontrivial();
  const std::string p = pbt::scratch() + "/locale." + ext(f);
  auto has = [&](const char* k) { return n.kid(k) != nullptr; };
  if (has("int") || has("double") || has("bool") || (f == XML && n.kids.size() > 200)) return;
  BPT u;
  {
    OtherLocale l(w);
    BPT t(ptree(n));
    t.setInt("int", i);
    t.setDouble("double", d);
    t.setBool("bool", b);
    if (f == INI) {  // plain entries go before the sections
      Node m = dump(t);
      std::stable_partition(m.kids.begin(), m.kids.end(), [](const std::pair<std::string, Node>& e) { return e.second.kids.empty(); });
      t = BPT(ptree(m));
    }
    n = dump(t);
    saveAs(t, f, p, s.flip());
  }
  OtherLocale l(r);
  loadAs(u, f, p, s.flip());
  same(dump(u), n, "reloaded");
  PBT_EQ(u.getInt("int"), i, "integer");
  PBT_CHECK(pbt::sameBits(u.getDouble("double"), d), "number");
  PBT_EQ(u.getBool("bool"), b, "truth value");
}
PBT(info, 9000, 120000, fast()) { roundTrip(s, INFO); }
PBT(json, 9000, 120000, fast()) { roundTrip(s, JSON); }
PBT(ini, 9000, 120000, fast()) { roundTrip(s, INI); }
PBT(xml, 9000, 120000, fast()) { roundTrip(s, XML); }

/// the same tree in another format, when both can hold it
PBT(across_formats, 4000, 60000, fast()) {
  Node n = tree(s, INI);
  Format a = s.pick({XML, JSON, INI, INFO}), b = s.pick({XML, JSON, INI, INFO});
  // names all formats accept
  std::function<void(Node&)> plain = [&](Node& x) {
    for (size_t i = 0; i < x.kids.size(); ++i) { x.kids[i].first = "k" + std::to_string(i); x.kids[i].second.data = x.kids[i].second.kids.empty() ? number(s) : ""; plain(x.kids[i].second); }
  };
  plain(n);
  PBT_NOTE(s, ext(a) << " to " << ext(b) << " " << show(n));
  std::string p = pbt::scratch() + "/x." + ext(a), q = pbt::scratch() + "/x." + ext(b);
  BPT t(ptree(n)), u, w;
  t.save(p);
  u.load(p);
  u.save(q);
  w.load(q);
  same(dump(w), n, "through two formats");
}

static std::string squeezed(const std::string& t) {
  std::string o;
  for (char c : trimmed(t)) if (std::strchr(" \t\n\v\f\r", c) && c) { if (o.empty() || o.back() != ' ') o += ' '; } else o += c;
  return o;
}
static Node squeezed(Node n) { n.data = squeezed(n.data); for (auto& c : n.kids) c.second = squeezed(c.second); return n; }
static void addComments(pbt::Source& s, Node& n, int depth) {
  for (auto& c : n.kids) if (c.first != "<xmlattr>") addComments(s, c.second, depth + 1);
  if (depth && n.kids.empty() && !s.chance(1, 4)) return;
  size_t k = s.below(3);
  for (size_t i = 0; i < k; ++i) {
    Node c;
    c.data = s.pick({" note ", "a < b & c", "x=\"1\"", " - ", "tag <b>"});
    size_t at = s.below(n.kids.size() + 1);
    if (at == 0 && !n.kids.empty() && n.kids[0].first == "<xmlattr>") at = 1;
    n.kids.insert(n.kids.begin() + long(at), std::make_pair(std::string("<xmlcomment>"), c));
  }
}
static Node withoutComments(const Node& n) {
  Node o;
  o.data = n.data;
  for (const auto& c : n.kids) if (c.first != "<xmlcomment>") o.kids.push_back(std::make_pair(c.first, withoutComments(c.second)));
  return o;
}
/// the two global options
struct Flags {
  bool h, i;
  Flags(bool human, bool ignore) : h(BPT::isHumanReadableInputOutput()), i(BPT::isIgnoreComments()) { BPT::setHumanReadableInputOutput(human); BPT::setIgnoreComments(ignore); }
  ~Flags() { BPT::setHumanReadableInputOutput(h); BPT::setIgnoreComments(i); }
};
PBT(xml_options, 12000, 150000, fast()) {
  Node n = tree(s, XML);
  bool comments = s.flip();
  if (comments) addComments(s, n, 0);
  bool human = s.flip(), ignore = s.flip();
  PBT_NOTE(s, (human ? "human readable" : "compact") << (ignore ? ", comments ignored " : ", comments kept ") << show(n));
  s.label(human ? "human readable" : "compact");
  std::string p = pbt::scratch() + "/t.xml", plainFile = pbt::scratch() + "/p.xml";
  BPT t(ptree(n));
  { Flags f(false, true); t.save(plainFile); }
  Node want = ignore ? withoutComments(n) : n;
  Flags f(human, ignore);
  t.save(p);
  same(dump(t), n, "saving leaves the tree alone");
  if (!human) PBT_CHECK(slurp(p) == slurp(plainFile), "the comment option does not change what is written");
  BPT u, v;
  u.load(p);
  v.loadXmlFromString(slurp(p));
  same(dump(u), dump(v), "file and text");
  if (!human) same(dump(u), want, "compact XML");
  else same(squeezed(dump(u)), squeezed(want), "human readable XML differs in white space only");
  // what was written compactly reads the same up to white space in either mode
  BPT w;
  w.load(plainFile);
  if (human) same(squeezed(dump(w)), squeezed(want), "compact XML read in human readable mode");
  // human readable text of a normalised tree is a fixed point
  if (human) {
    BPT x;
    u.save(plainFile);
    x.load(plainFile);
    same(squeezed(dump(x)), squeezed(dump(u)), "normalised XML is stable");
  }
}
PBT(extensions, 3000, 20000, fast()) {
  std::string e = s.pick({"txt", "XML", "Xml", "xm", "xmlx", "jso", "JSON", "infos", "in", "inf", "yaml", "", "xml ", "ini~", "json.bak", "info."});
  std::string p = pbt::scratch() + "/file" + (e.empty() && s.flip() ? "" : "." + e);
  if (s.chance(1, 5)) p = pbt::scratch() + "/dir.xml/file";
  s.nontrivial();
  PBT_NOTE(s, pbt::show(p.substr(pbt::scratch().size())));
  BPT t;
  t.setInt("a/b", 1);
  Node before = dump(t);
  PBT_THROWS(t.save(p), sm::PropertyTree::InvalidFormatException, "unknown extension");
  PBT_CHECK(!std::ifstream(p), "nothing written");
  PBT_THROWS(t.load(p), sm::PropertyTree::InvalidFormatException, "unknown extension");
  PBT_THROWS(sm::value_store::ValueStoreRef::fromFile(p), sm::PropertyTree::InvalidFormatException, "unknown extension");
  PBT_THROWS(sm::value_store::ValueStoreRef(t).saveTo(p), sm::PropertyTree::InvalidFormatException, "unknown extension");
  same(dump(t), before, "refused");
  std::string missing = pbt::scratch() + "/nowhere/x." + s.pick({"xml", "json", "ini", "info"});
  bool a = false, b = false;
  try { t.load(missing); } catch (const std::exception&) { a = true; }
  try { t.save(missing); } catch (const std::exception&) { b = true; }
  PBT_CHECK(a && b, "missing directory");
  same(dump(t), before, "refused");
}
/// every snapshot child of a tree is a tree of its own
PBT(subtrees, 4000, 50000, fast()) {
  Format f = s.pick({XML, JSON, INFO});
  Node n = tree(s, f);
  PBT_NOTE(s, ext(f) << " " << show(n));
  BPT t(ptree(n));
  sm::value_store::ValueStoreRef r(t);
  size_t i = 0;
  for (const auto& c : r.getChildren()) {
    const Node& want = n.kids[i++].second;
    if (!want.data.empty()) continue;  // a value at the root of a file has no place in these formats
    if (!want.kids.empty() && want.kids[0].first == "<xmlattr>") continue;
    std::string p = pbt::scratch() + "/s." + ext(f);
    PBT_CHECK(c.canSave(), "children can be saved");
    c.saveTo(p);
    BPT u;
    u.load(p);
    same(dump(u), want, "a child saved on its own");
  }
  PBT_CHECK(i == n.kids.size(), "all children");
}
