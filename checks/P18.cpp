// P18: property-tree text input is parsed or rejected, never mishandled.
#include "pt.hpp"
#include <boost/filesystem.hpp>
#include <functional>
PBT_PROPERTY("P18",
             "Texts written by grammars for XML, JSON, INI, INFO and one-line trees in many spellings (white space, quoting, escapes, entities, CDATA, comments, includes) with the tree they denote; the "
             "same texts mutated by cutting, doubling, splicing and replacing bytes; raw bytes; keys and values of any bytes through the typed accessors. A case is non-trivial when a grammatical text "
             "has at least four nodes, or a mutated text differs from its origin, or the accessor key or value is not plain.")
using namespace pt;
typedef sm::BoostPropertyTree BPT;
enum Format { XML, JSON, INI, INFO, LINE };
static const char* ext(Format f) { return f == XML ? "xml" : f == JSON ? "json" : f == INI ? "ini" : f == INFO ? "info" : "line"; }
static pbt::Options fast(bool fuzz = false) { pbt::Options o; o.hang_s = 20; o.fuzz = fuzz; return o; }

// ---- grammars ----------------------------------------------------------------------------------
static std::string ws(pbt::Source& s) { return s.chance(1, 3) ? s.pick({" ", "\n", "\t", "  ", "\r\n", " \n "}) : ""; }
static std::string blank(pbt::Source& s) { return s.pick({" ", "\t", "  ", " \t"}); }
static std::string utf8(uint32_t c) {
  std::string o;
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
  else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
  return o;
}
static uint32_t codepoint(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: return uint32_t(s.range(0x80, 0x7ff));
    case 1: return uint32_t(s.range(0x800, 0xd7ff));
    case 2: return uint32_t(s.range(0x10000, 0x10ffff));
    case 3: return uint32_t(uint8_t(s.pick({'"', '\\', '<', '>', '&', '\'', '/', '=', ';', '#', '{', '}', ',', ' '})));
    default: return uint32_t('a' + s.below(26));
  }
}
static std::string u4(pbt::Source& s, uint32_t c) { char b[8]; std::snprintf(b, sizeof b, s.flip() ? "\\u%04x" : "\\u%04X", c); return b; }
static std::string jsonString(pbt::Source& s, std::string& means) {
  std::string o = "\"";
  size_t n = s.size(0, 6);
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 5)) {
      static const char* const e = "\"\\/bfnrt";
      static const char* const v = "\"\\/\b\f\n\r\t";
      size_t k = s.below(8);
      o += '\\'; o += e[k]; means += v[k];
      continue;
    }
    uint32_t c = s.chance(1, 10) ? uint32_t(s.below(32)) : codepoint(s);
    means += utf8(c);
    if (c < 32 || c == '"' || c == '\\' || s.chance(1, 4)) {
      if (c >= 0x10000) { o += u4(s, 0xd800 + ((c - 0x10000) >> 10)); o += u4(s, 0xdc00 + ((c - 0x10000) & 0x3ff)); }
      else o += u4(s, c);
    } else o += utf8(c);
  }
  return o + "\"";
}
static std::string json(pbt::Source& s, Node& n, int depth) {
  size_t k = depth == 0 ? s.below(8) : s.below(depth > 8 ? 4 : 7);
  if (k < 2 && depth > 0) return jsonString(s, n.data);
  if (k < 4 && depth > 0) {
    n.data = s.pick({"0", "-0", "1", "-1.5", "1e5", "1E-7", "0.25e+3", "12345678901234567890", "true", "false", "null"});
    return n.data;
  }
  if (k == 0) { n.data = s.pick({"0", "true", "null", "-2.5e7"}); return n.data; }
  bool arr = k == 5;
  std::string o = arr ? "[" : "{";
  size_t c = s.size(depth == 0 ? 1 : 0, 4);
  for (size_t i = 0; i < c; ++i) {
    std::string key;
    o += ws(s);
    if (i) o += "," + ws(s);
    if (!arr) o += jsonString(s, key) + ws(s) + ":" + ws(s);
    Node x;
    o += json(s, x, depth + 1);
    n.kids.push_back(std::make_pair(key, x));
  }
  return o + ws(s) + (arr ? "]" : "}");
}
static std::string infoToken(pbt::Source& s, std::string& means, bool key) {
  if (s.chance(2, 3)) { means = s.str("abcXYZ019_-./=,:!'()<>", 6); if (means.empty()) means = "a"; return means; }
  std::string o = "\"";
  size_t n = s.size(0, 6);
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 4)) {
      static const char e[] = "0abfnrt\"'\\";
      static const char v[] = "\0\a\b\f\n\r\t\"'\\";
      size_t k = s.below(10);
      o += '\\'; o += e[k]; means += v[k];
      continue;
    }
    std::string c = s.chance(1, 5) ? s.pick({";", "#", "{", "}", " ", "\t"}) : utf8(codepoint(s));
    if (c == "\"" || c == "\\") c = "_";
    means += c; o += c;
  }
  if (key && !means.empty() && means[0] == '#') { means = "_"; return "\"_\""; }
  return o + "\"";
}
static std::string infoEnd(pbt::Source& s) { return s.chance(1, 6) ? s.pick({" ; a note\n", ";{ \" }\n", "\t;\n"}) : s.chance(1, 8) ? std::string("\r\n") : std::string("\n"); }
static std::string info(pbt::Source& s, Node& n, int depth) {
  std::string o;
  size_t c = s.size(depth == 0 ? 1 : 0, 4);
  for (size_t i = 0; i < c; ++i) {
    std::string key;
    Node x;
    if (s.chance(1, 8)) o += s.pick({"\n", "; note\n", "  \t \n", ";\n"});
    o += (s.flip() ? "" : blank(s)) + infoToken(s, key, true);
    bool value = s.chance(2, 3);
    if (value) {
      o += blank(s);
      std::string t = infoToken(s, x.data, false);
      o += t;
      if (t[0] == '"' && s.chance(1, 6)) {
        size_t more = s.size(1, 2);
        for (size_t k = 0; k < more; ++k) {
          std::string extra, y = infoToken(s, extra, false);
          if (y[0] != '"') y = "\"" + y + "\"";
          o += (s.flip() ? " \\\n" : " \\  \n") + std::string(s.flip() ? "\t" : "") + y;
          x.data += extra;
        }
      }
    }
    if (depth < 8 && s.chance(1, 3)) {
      o += s.flip() ? (value ? " {" : " {") : infoEnd(s) + "{";
      o += s.flip() ? infoEnd(s) : std::string("\n");
      o += info(s, x, depth + 1);
      o += (s.flip() ? "" : blank(s)) + "}";
    }
    o += infoEnd(s);
    n.kids.push_back(std::make_pair(key, x));
  }
  return o;
}
static std::string iniPairs(pbt::Source& s, Node& n, const Node* taken) {
  std::string o;
  size_t c = s.size(0, 4);
  for (size_t i = 0; i < c; ++i) {
    if (s.chance(1, 6)) o += s.pick({"\n", "; note = 1\n", "# note\n", "  \n", "   ; x\n"});
    std::string k = s.pick({"a", "b", "c d", "e.f", "g[0]", "\xc3\xa9", "k/1", "\"q\"", "h"});
    if (n.kid(k) || (taken && taken->kid(k))) continue;
    std::string v = s.pick({"", "1", "-2.5", "text", "two words", "a=b", "; kept", "# kept", "[x]", "\"q\"", "\\n", "\xe6\x97\xa5"});
    o += (s.flip() ? "" : blank(s)) + k + (s.flip() ? "" : blank(s)) + "=" + (s.flip() ? "" : blank(s)) + v + (s.chance(1, 3) ? blank(s) : "") + (s.chance(1, 5) ? "\r\n" : "\n");
    Node x;
    x.data = v;
    n.kids.push_back(std::make_pair(k, x));
  }
  return o;
}
static std::string ini(pbt::Source& s, Node& n) {
  std::string o = iniPairs(s, n, nullptr);
  size_t c = s.size(0, 3);
  for (size_t i = 0; i < c; ++i) {
    std::string k = s.pick({"A", "B", "sec tion", "x=y", "S/T", "[", "#"});
    if (n.kid(k)) continue;
    Node x;
    o += (s.flip() ? "" : blank(s)) + "[" + (s.flip() ? "" : blank(s)) + k + (s.flip() ? "" : blank(s)) + "]" + s.pick({"\n", " \n", "\r\n"});
    o += iniPairs(s, x, nullptr);
    if (!x.kids.empty()) n.kids.push_back(std::make_pair(k, x));  // an empty section holds nothing
  }
  return o;
}
static std::string xmlChars(pbt::Source& s, std::string& means, char quote) {
  std::string o;
  size_t n = s.size(0, 6);
  for (size_t i = 0; i < n; ++i) {
    uint32_t c = codepoint(s);
    if (c == ' ') c = 'x';
    means += utf8(c);
    bool must = c == '<' || c == '&' || c == uint32_t(uint8_t(quote));
    if (!must && !s.chance(1, 5)) { o += utf8(c); continue; }
    const char* named = c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : nullptr;
    if (named && s.flip()) { o += named; continue; }
    char b[16];
    std::snprintf(b, sizeof b, s.flip() ? "&#%u;" : "&#x%x;", c);
    o += b;
  }
  return o;
}
static std::string xmlName(pbt::Source& s) { return s.pick({"a", "b", "c", "node", "x-y", "n.1", "_z", "ns:t", "\xc3\xa9"}); }
static std::string xmlComment(pbt::Source& s) { return std::string("<!--") + s.pick({" note ", "", "<a>", "&amp;", " - ", "x > y"}) + "-->"; }
/// the tree without comments
static std::string xmlElement(pbt::Source& s, const std::string& name, Node& n, int depth) {
  std::string o = "<" + name;
  if (s.chance(1, 4)) {
    Node a;
    size_t m = s.size(1, 3);
    for (size_t i = 0; i < m; ++i) {
      std::string k = xmlName(s);
      if (a.kid(k)) continue;
      char q = s.flip() ? '"' : '\'';
      Node v;
      o += s.pick({" ", "\n", "  "}) + k + (s.chance(1, 6) ? " = " : "=");
      o += q + xmlChars(s, v.data, q) + q;
      a.kids.push_back(std::make_pair(k, v));
    }
    n.kids.push_back(std::make_pair("<xmlattr>", a));
  }
  if (s.chance(1, 6)) return o + (s.flip() ? "/>" : " />");
  o += ">";
  size_t c = s.size(0, depth > 8 ? 1 : 4);
  for (size_t i = 0; i < c; ++i) {
    switch (s.below(depth > 8 ? 2 : 6)) {
      case 0: { std::string m = s.pick({"<b>&amp;", "", "]]", "a b", "x"}); o += "<![CDATA[" + m + "]]>"; n.data += m; break; }
      case 1: o += xmlChars(s, n.data, 0); break;
      case 2: o += xmlComment(s); break;
      default: { std::string k = xmlName(s); Node x; o += xmlElement(s, k, x, depth + 1); n.kids.push_back(std::make_pair(k, x)); break; }
    }
  }
  return o + "</" + name + (s.chance(1, 8) ? " >" : ">");
}
static std::string xml(pbt::Source& s, Node& n) {
  std::string o;
  if (s.chance(1, 10)) o += "\xef\xbb\xbf";
  if (s.flip()) o += s.pick({"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<?xml version='1.0' ?>\n\n"});
  if (s.chance(1, 8)) o += "<!DOCTYPE a [ <!ELEMENT a (b)> ]>\n";
  if (s.chance(1, 6)) o += xmlComment(s) + ws(s);
  if (s.chance(1, 8)) o += "<?pi some thing?>" + ws(s);
  std::string k = xmlName(s);
  Node x;
  o += xmlElement(s, k, x, 0);
  n.kids.push_back(std::make_pair(k, x));
  if (s.chance(1, 6)) o += ws(s) + xmlComment(s);
  return o + ws(s);
}
static std::string line(pbt::Source& s, Node& n, int depth) {
  std::string o;
  size_t c = s.size(depth ? 1 : 0, 4);
  bool first = true;
  for (size_t i = 0; i < c; ++i) {
    std::string k = s.pick({"a", "b", "c", "d", "x.y"});
    if (n.kid(k)) continue;
    if (!first) o += ",";
    first = false;
    Node x;
    o += k;
    if (s.chance(2, 3)) { x.data = s.pick({"1", "0.5", "v", "", "a=b", "p/q"}); o += "=" + x.data; }
    if (depth < 8 && s.chance(1, 3)) o += "{" + line(s, x, depth + 1) + "}";
    n.kids.push_back(std::make_pair(k, x));
  }
  return o;
}
static std::string text(pbt::Source& s, Format f, Node& n) {
  switch (f) { case XML: return xml(s, n); case JSON: return ws(s) + json(s, n, 0) + ws(s); case INI: return ini(s, n); case INFO: return info(s, n, 0); default: return line(s, n, 0); }
}

// ---- loading -----------------------------------------------------------------------------------
static void load(BPT& t, Format f, const std::string& data, size_t how) {
  std::string p = pbt::scratch() + "/in." + ext(f);
  if (f != LINE) spill(p, data);
  switch (f) {
    case XML: if (how == 0) t.loadXml(p); else if (how == 1) t.load(p); else t.loadXmlFromString(data); break;
    case JSON: if (how == 0) t.loadJson(p); else t.load(p); break;
    case INI: if (how == 0) t.loadIni(p); else t.load(p); break;
    case INFO: if (how == 0) t.loadInfo(p); else t.load(p); break;
    default: if (how == 0) t.loadString(data); else if (how == 1) t.loadStrings({data}); else { const char* a[] = {data.c_str()}; t.loadStrings(1, a); } break;
  }
}
/// true: loaded; a rejected text leaves the tree as it was
static bool tryLoad(BPT& t, Format f, const std::string& data, size_t how) {
  Node before = dump(t);
  try { load(t, f, data, how); return true; }
  catch (const std::exception& e) { (void)std::string(e.what()); }
  same(dump(t), before, "a rejected text leaves the tree as it was");
  return false;
}
static bool infoSafe(const Node& n) {
  for (const auto& c : n.kids) {
    if (!c.first.empty() && c.first[0] == '#') return false;
    const std::string& d = c.second.data;
    bool plainKey = !c.first.empty() && c.first.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == std::string::npos;
    if (!plainKey && !d.empty() && std::string("\0\a\b\f\n\r\v\\", 8).find(d[0]) != std::string::npos) return false;
    if (!infoSafe(c.second)) return false;
  }
  return true;
}
static void accessors(const BPT& t, const std::string& key, const std::string& data) {
  int i;
  double d;
  bool b;
  auto agrees = [&](Reading r, bool threw, const char* what) { if (r != UNSURE) PBT_CHECK(threw == (r == NO), what << " " << pbt::show(data) << (threw ? " refused" : " read")); };
  {
    Reading r = readInt(data, i);
    bool threw = false;
    try { int g = t.getInt(key); if (r == YES) PBT_CHECK(g == i, "integer " << pbt::show(data) << " read as " << g); } catch (const sm::PropertyTree::InvalidValueException&) { threw = true; }
    agrees(r, threw, "integer");
  }
  {
    Reading r = readDouble(data, d);
    bool threw = false;
    try { double g = t.getDouble(key); if (r == YES) PBT_CHECK(pbt::sameBits(g, d), "number " << pbt::show(data) << " read as " << g); } catch (const sm::PropertyTree::InvalidValueException&) { threw = true; }
    agrees(r, threw, "number");
  }
  {
    Reading r = readBool(data, b);
    bool threw = false;
    try { bool g = t.getBool(key); if (r == YES) PBT_CHECK(g == b, "truth value " << pbt::show(data)); } catch (const sm::PropertyTree::InvalidValueException&) { threw = true; }
    agrees(r, threw, "truth value");
  }
  PBT_CHECK(t.getString(key) == data, "text");
}
static void everyNode(const BPT& t, const Node& n, const std::string& at, size_t& budget) {
  std::vector<std::string> seen;
  for (const auto& c : n.kids) {
    if (!budget) return;
    --budget;
    if (c.first.empty() || c.first.find('/') != std::string::npos) continue;
    if (std::find(seen.begin(), seen.end(), c.first) != seen.end()) continue;
    seen.push_back(c.first);
    PBT_CHECK(t.doesKeyExist(at + "/" + c.first), "a loaded key exists " << pbt::show(at + "/" + c.first));
    accessors(t, at + "/" + c.first, c.second.data);
    everyNode(t, c.second, at + "/" + c.first, budget);
  }
}
/// whatever was accepted can be read, saved and loaded again
static void accepted(const BPT& t, Format f) {
  Node n = dump(t);
  size_t budget = 40;
  everyNode(t, n, "", budget);
  if (n.data.empty() && infoSafe(n)) {
    std::string p = pbt::scratch() + "/again.info";
    t.save(p);
    BPT u;
    u.load(p);
    same(dump(u), n, "saved as INFO");
    spill(p, t.asInfoString());
    BPT v;
    v.load(p);
    same(dump(v), n, "printed as INFO");
  }
  same(dump(t), n, "saving leaves the tree alone");
  if (f == JSON && n.data.empty()) {
    std::string p = pbt::scratch() + "/again.json";
    t.save(p);
    BPT u;
    u.load(p);
    same(dump(u), n, "saved as JSON");
  }
  if (f == INI) {
    std::string p = pbt::scratch() + "/again.ini";
    t.save(p);
    BPT u;
    u.load(p);
    same(dump(u), n, "saved as INI");
  }
}
struct Flags {
  bool h, i;
  Flags(bool human, bool ignore) : h(BPT::isHumanReadableInputOutput()), i(BPT::isIgnoreComments()) { BPT::setHumanReadableInputOutput(human); BPT::setIgnoreComments(ignore); }
  ~Flags() { BPT::setHumanReadableInputOutput(h); BPT::setIgnoreComments(i); }
};
static void old(pbt::Source& s, BPT& t) { if (s.flip()) { t.setString("old", "x"); t.setInt("a/b", 3); } }

static void spelled(pbt::Source& s, Format f) {
  Node n;
  std::string data = text(s, f, n);
  PBT_NOTE(s, ext(f) << " " << pbt::show(data));
  if (n.count() >= 5) s.nontrivial();
  Flags g(false, true);
  BPT t;
  old(s, t);
  load(t, f, data, s.below(3));
  same(dump(t), n, "the text denotes");
  accepted(t, f);
}
PBT(spelled_xml, 9000, 120000, fast()) { spelled(s, XML); }
PBT(spelled_json, 9000, 120000, fast()) { spelled(s, JSON); }
PBT(spelled_ini, 9000, 120000, fast()) { spelled(s, INI); }
PBT(spelled_info, 9000, 120000, fast()) { spelled(s, INFO); }

static std::string mutate(pbt::Source& s, std::string d, Format f) {
  size_t k = s.size(1, 4);
  static const std::vector<std::string> special = {"{", "}", "[", "]", "\"", "\\", "\n", ",", ":", "=", "/", "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "&", ";", "#", "&#0;", "&#x110000;", "&#xd800;", "\\u", "\\ud800", "\\udc00", "\\u0000", "<?", "?>", "<!DOCTYPE", "'", std::string("\0", 1), "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xef\xbb\xbf", "1e", "-", "tru", " ", "\t", "\r", "//", "{}", "[]", "\\\n", "#include", "#include \"in.info\"\n", "&unknown;", "=="};
  for (size_t i = 0; i < k; ++i) {
    size_t at = s.below(d.size() + 1);
    switch (s.below(7)) {
      case 0: d.insert(at, s.pick(special)); break;
      case 1: if (at < d.size()) d.erase(at, s.size(1, 5)); break;
      case 2: d.resize(at); break;
      case 3: if (at < d.size()) d[at] = char(s.below(256)); break;
      case 4: { std::string part = d.substr(at, s.size(1, 20)); d.insert(s.below(d.size() + 1), part); break; }
      case 5: { size_t b = s.below(d.size() + 1); size_t lo = std::min(at, b), hi = std::max(at, b); d = d.substr(0, lo) + d.substr(hi); break; }
      default: { Node x; std::string o = text(s, s.chance(1, 3) ? s.pick({XML, JSON, INI, INFO, LINE}) : f, x); d = d.substr(0, at) + o + (s.flip() ? d.substr(at) : ""); break; }
    }
    if (d.size() > 20000) d.resize(20000);
  }
  return d;
}
static void mutated(pbt::Source& s, Format f) {
  Node n;
  std::string data = text(s, f, n), bad = mutate(s, data, f);
  PBT_NOTE(s, ext(f) << " " << pbt::show(bad));
  if (bad != data) s.nontrivial();
  Flags g(s.chance(1, 3), s.chance(2, 3));
  BPT t;
  old(s, t);
  size_t how = s.below(3);
  bool ok = tryLoad(t, f, bad, how);
  s.label(std::string(ext(f)) + (ok ? " accepted" : " rejected"));
  if (!ok) return;
  // the same text gives the same tree however it is loaded
  BPT u;
  if (f != LINE || bad.find('\0') == std::string::npos) {
    PBT_CHECK(tryLoad(u, f, bad, s.below(3)), "accepted once");
    same(dump(u), dump(t), "loaded twice");
  }
  accepted(t, f);
}
PBT(mutated_xml, 9000, 120000, fast(true)) { mutated(s, XML); }
PBT(mutated_json, 9000, 120000, fast(true)) { mutated(s, JSON); }
PBT(mutated_ini, 9000, 120000, fast(true)) { mutated(s, INI); }
PBT(mutated_info, 9000, 120000, fast(true)) { mutated(s, INFO); }
PBT(mutated_line, 9000, 120000, fast(true)) { mutated(s, LINE); }
PBT(raw_bytes, 20000, 300000, fast(true)) {
  Format f = s.pick({XML, JSON, INI, INFO, LINE});
  std::string d = s.flip() ? s.bytes(60) : s.str("{}[]\"\\,:=/<>!-&;# \n\tab01?]", 60);
  PBT_NOTE(s, ext(f) << " " << pbt::show(d));
  s.nontrivial();
  Flags g(s.chance(1, 3), s.chance(2, 3));
  BPT t;
  old(s, t);
  bool ok = tryLoad(t, f, d, s.below(3));
  s.label(std::string(ext(f)) + (ok ? " accepted" : " rejected"));
  if (ok) accepted(t, f);
}
PBT(nesting, 600, 6000, fast()) {
  Format f = s.pick({XML, JSON, INFO, LINE});
  size_t d = s.size(1, 400);
  std::string a, b;
  bool balanced = s.chance(2, 3);
  for (size_t i = 0; i < d; ++i) {
    a += f == XML ? "<a>" : f == JSON ? "{\"a\":" : f == INFO ? "a\n{\n" : s.flip() && i + 1 < d ? "a{" : "a{";
    b += f == XML ? "</a>" : f == JSON ? "}" : f == INFO ? "}\n" : "}";
  }
  if (!balanced) b.resize(s.below(b.size()));
  std::string mid = f == XML ? "1" : f == JSON ? "\"1\"" : f == INFO ? "a 1\n" : "a=1";
  PBT_NOTE(s, ext(f) << " nested " << d << (balanced ? "" : " unbalanced"));
  s.nontrivial();
  BPT t;
  old(s, t);
  bool ok = tryLoad(t, f, a + mid + b, 0);
  if (f == INFO && !balanced && b.find('}') != std::string::npos && std::count(b.begin(), b.end(), '}') == std::ptrdiff_t(d)) balanced = true;
  PBT_CHECK(ok == balanced, "balanced text is read, unbalanced text is rejected");
  if (!ok) return;
  std::string p;
  for (size_t i = 0; i < d; ++i) p += "/a";
  PBT_CHECK(t.getInt(f == XML || f == JSON ? p : p + "/a") == 1, "the innermost value");
}
PBT(includes, 1500, 15000, fast()) {
  // INFO files may include others; a cycle is an error, not a hang
  size_t n = s.size(1, 4);
  std::vector<std::vector<size_t>> to(n);
  for (size_t i = 0; i < n; ++i) {
    std::string d;
    size_t k = s.below(3);
    d += "k" + std::to_string(i) + " 1\n";
    for (size_t j = 0; j < k; ++j) { size_t x = s.below(n + 1); if (x > i || s.chance(1, 3)) { to[i].push_back(x); d += "#include \"" + pbt::scratch() + "/i" + std::to_string(x) + ".info\"\n"; } }
    spill(pbt::scratch() + "/i" + std::to_string(i) + ".info", d);
  }
  boost::filesystem::remove(pbt::scratch() + "/i" + std::to_string(n) + ".info");
  // expectation by walking
  std::vector<int> state(n, 0);
  Node want;
  std::function<bool(size_t)> walk = [&](size_t i) {
    if (i == n || state[i]) return false;
    state[i] = 1;
    Node x; x.data = "1";
    want.kids.push_back(std::make_pair("k" + std::to_string(i), x));
    for (size_t j : to[i]) if (!walk(j)) return false;
    state[i] = 0;
    return true;
  };
  bool ok = walk(0);
  s.label(ok ? "complete" : "cycle or missing");
  PBT_NOTE(s, n << " files");
  if (!to[0].empty()) s.nontrivial();
  BPT t;
  old(s, t);
  Node before = dump(t);
  bool threw = false;
  try { t.load(pbt::scratch() + "/i0.info"); } catch (const std::exception&) { threw = true; }
  PBT_CHECK(threw == !ok, "a cycle or a missing file is reported");
  same(dump(t), ok ? want : before, "included");
}
PBT(files, 1000, 10000, fast()) {
  Format f = s.pick({XML, JSON, INI, INFO});
  BPT t;
  old(s, t);
  Node before = dump(t);
  std::string p = pbt::scratch() + "/odd." + ext(f);
  boost::filesystem::remove_all(p);
  size_t kind = s.below(4);
  s.nontrivial();
  if (kind == 0) boost::filesystem::create_directories(p);
  else if (kind == 1) spill(p, "");
  else if (kind == 2) spill(p, std::string(s.size(1, 100), s.pick({'\0', ' ', '\n', '\xff', '{', '<'})));
  PBT_NOTE(s, ext(f) << " kind " << kind);
  bool ok = true;
  try { t.load(p); } catch (const std::exception&) { ok = false; }
  if (kind == 3) PBT_CHECK(!ok, "a missing file is reported");
  if (!ok) same(dump(t), before, "refused");
  else accepted(t, f);
}

// ---- accessors on any key and any value --------------------------------------------------------------
static std::string anyKey(pbt::Source& s) {
  switch (s.below(5)) {
    case 0: return s.bytes(8);
    case 1: return s.str("a/", 8);
    case 2: return s.str("ab./ ", 10);
    case 3: return s.pick({"", "/", "//", "///", "a", "/a", "a/", "a//b", "/a/b/", ".", "a.b", "a/b", "../a"});
    default: { std::string k; size_t n = s.size(0, 5); for (size_t i = 0; i < n; ++i) k += (s.flip() ? "/" : "") + key(s, true); return k; }
  }
}
static std::string anyText(pbt::Source& s) { return s.flip() ? pt::text(s) : s.bytes(300); }
PBT(any_key_and_value, 40000, 500000, fast(true)) {
  BPT t(s.flip() ? std::string() : anyKey(s));
  PBT_NOTE(s, "tree");
  size_t n = s.size(1, 12);
  for (size_t i = 0; i < n; ++i) {
    std::string k = anyKey(s), v = anyText(s);
    PBT_NOTE(s, pbt::show(k) << "=" << pbt::show(v));
    if (k.find_first_not_of("abcdefghijklmnopqrstuvwxyz/") != std::string::npos || k.find("//") != std::string::npos) s.nontrivial();
    try {
      switch (s.below(12)) {
        case 0: case 1: case 2: {
          t.setString(k, v);
          PBT_CHECK(t.doesKeyExist(k), "a set key exists");
          PBT_CHECK(t.getString(k) == v, "what was set is read");
          accessors(t, k, v);
          break;
        }
        case 3: t.setInt(k, int(i)); PBT_CHECK(t.getInt(k) == int(i), "integer"); break;
        case 4: t.setBool(k, true); PBT_CHECK(t.getBool(k), "truth value"); break;
        case 5: t.setDouble(k, 1.5); PBT_CHECK(t.getDouble(k) == 1.5, "number"); break;
        case 6: { std::string g = t.getString(k); PBT_CHECK(t.doesKeyExist(k), "what can be read exists"); accessors(t, k, g); break; }
        case 7: t.getInt(k, 3); break;
        case 8: { const BPT& c = t; bool e = c.doesKeyExist(k); std::string g = c.getString(k, v); if (!e) PBT_CHECK(g == v, "the default"); break; }
        case 9: for (auto& c : sm::PropertyTree(t, k).getChildren()) { c.pt.getString("", "none"); } break;
        case 10: { sm::PropertyTree c(t, k); c.doesKeyExist(v); c.getString(v, "none"); break; }
        default: { sm::PropertyTree c(t, k); c.setString(v, "x"); PBT_CHECK(c.getString(v) == "x", "set through a namespace"); break; }
      }
    } catch (const std::exception& e) { (void)std::string(e.what()); s.label("refused"); }
  }
}
