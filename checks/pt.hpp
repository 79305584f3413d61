// Shared by the property tree checks: an independent ordered tree, readers of the typed text forms, generators.
#ifndef VERIF_PT_HPP
#define VERIF_PT_HPP
#include "pbt.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeImplementation.hpp>
#include <sm/PropertyTree.hpp>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <utility>
namespace pt {
typedef std::vector<std::string> Path;
struct Node {
  std::string data;
  std::vector<std::pair<std::string, Node>> kids;
  Node* kid(const std::string& k) { for (auto& c : kids) if (c.first == k) return &c.second; return nullptr; }
  const Node* kid(const std::string& k) const { for (auto& c : kids) if (c.first == k) return &c.second; return nullptr; }
  const Node* at(const Path& p) const { const Node* n = this; for (const auto& k : p) { n = n->kid(k); if (!n) return nullptr; } return n; }
  Node& make(const Path& p) {
    Node* n = this;
    for (const auto& k : p) { Node* c = n->kid(k); if (!c) { n->kids.push_back(std::make_pair(k, Node())); c = &n->kids.back().second; } n = c; }
    return *n;
  }
  bool operator==(const Node& o) const { return data == o.data && kids == o.kids; }
  size_t count() const { size_t n = 1; for (auto& c : kids) n += c.second.count(); return n; }
};
inline std::string show(const Node& n, int depth = 0) {
  std::string o = pbt::show(n.data);
  if (n.kids.empty()) return o;
  o += "{";
  for (auto& c : n.kids) { o += pbt::show(c.first) + ":" + (depth > 30 ? std::string("...") : show(c.second, depth + 1)) + ","; if (o.size() > 4000) return o + "..."; }
  return o + "}";
}
inline Node of(const boost::property_tree::ptree& p) {
  Node n;
  n.data = p.data();
  for (const auto& c : p) n.kids.push_back(std::make_pair(c.first, of(c.second)));
  return n;
}
inline boost::property_tree::ptree ptree(const Node& n) {
  boost::property_tree::ptree p(n.data);
  for (const auto& c : n.kids) p.push_back(std::make_pair(c.first, ptree(c.second)));
  return p;
}
/// the whole tree, through the iterators
inline Node dump(const sm::BoostPropertyTree& t) {
  Node n;
  n.data = t.getString("/");
  for (auto i = t.begin(); i != t.end(); ++i) n.kids.push_back(std::make_pair(i->first, of(i->second)));
  return n;
}
inline void same(const Node& got, const Node& want, const std::string& why) {
  if (!(got == want)) PBT_FAIL(why << ": got " << show(got) << " expected " << show(want));
}
inline std::string join(const Path& p) { std::string o; for (const auto& k : p) o += "/" + k; return o; }

// ---- what a text means when read as a type ------------------------------------------------
enum Reading { NO, YES, UNSURE };
inline std::string trimmed(const std::string& s) {
  static const std::string ws(" \t\n\v\f\r");
  size_t a = s.find_first_not_of(ws);
  if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(ws) - a + 1);
}
inline bool digits(const std::string& s, size_t& i) { size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return i > b; }
inline Reading readInt(const std::string& text, int& v) {
  std::string s = trimmed(text);
  size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
  if (!digits(s, i) || i != s.size()) return NO;
  errno = 0;
  long long x = std::strtoll(s.c_str(), nullptr, 10);
  if (errno || x > INT_MAX || x < INT_MIN) return NO;
  v = int(x);
  return YES;
}
inline Reading readDouble(const std::string& text, double& v) {
  std::string s = trimmed(text);
  size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
  if (s.find_first_not_of("0123456789+-.eE") != std::string::npos) {
    // hexadecimal, infinities and the like: whatever the stream does
    bool ascii = true;
    for (char c : s) ascii = ascii && std::strchr("0123456789abcdefABCDEFxXpPinNfty+-.", c) && c;
    return ascii ? UNSURE : NO;
  }
  bool a = digits(s, i), b = false;
  if (i < s.size() && s[i] == '.') b = digits(s, ++i);
  if (!a && !b) return NO;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (!digits(s, i)) return NO;
  }
  if (i != s.size()) return NO;
  v = std::strtod(s.c_str(), nullptr);
  if (!std::isfinite(v)) return NO;
  return YES;
}
inline Reading readBool(const std::string& text, bool& v) {
  std::string s = trimmed(text);
  if (s == "1" || s == "true") { v = true; return YES; }
  if (s == "0" || s == "false") { v = false; return YES; }
  if (s.empty() || s.find_first_of("0123456789+-") == std::string::npos) return NO;
  int i;
  if (readInt(s, i) == YES && i != 0 && i != 1) return NO;
  return UNSURE;
}

// ---- generators ----------------------------------------------------------------------------
/// one key: small colliding alphabet, dots, blanks, non-ASCII; never a slash, never empty
inline std::string key(pbt::Source& s, bool wild) {
  if (!wild || s.flip()) return s.pick({"a", "b", "c", "d", "key", "K", "a1"});
  switch (s.below(5)) {
    case 0: return s.pick({"a.b", "a.b.c", ".", "..", ".a", "a.", "b.a"});
    case 1: return s.pick({" ", "a b", " a", "a ", "\t", "\n"});
    case 2: return s.pick({"\xc3\xa9", "\xe6\x97\xa5", "\xff", "a\xe4"});
    case 3: return s.pick({"=", "a=b", "{", "}", "a,b", ";", "#", "[a]", "\"", "<a>", "&", "\\", "a!", "'"});
    default: { std::string k = s.bytes(6); k.erase(std::remove(k.begin(), k.end(), '/'), k.end()); return k.empty() ? "a" : k; }
  }
}
inline std::string text(pbt::Source& s) {
  switch (s.below(9)) {
    case 0: return "";
    case 1: return s.pick({"true", "false", "True", "1", "0", " 1 ", "\ttrue\n", "2", "-1", "yes"});
    case 2: return s.pick({"12", "-7", "+3", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "1.5", "1e5", ".5", "5.", ".", "1e", "1e999", "0x10", "inf", "nan", "1,000", "1 2", "--1"});
    case 3: { std::ostringstream o; o.precision(17); o << s.anyFinite(); return o.str(); }
    case 4: return std::to_string(s.anyInt(INT64_MIN, INT64_MAX));
    case 5: return s.bytes(12);
    case 6: return s.str("abcXYZ 019_-.", 12);
    case 7: return s.pick({"\xc3\xa9\xe6\x97\xa5", "a\nb", "<x>&amp;", "{a=1}", "\"q\"", "; c", "# d", "\\n", "a/b", "  lead", "trail  "});
    default: return s.str("ab ", 4);
  }
}
inline void spill(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary); f.write(d.data(), std::streamsize(d.size())); if (!f.flush()) PBT_FAIL("cannot write " << p); }
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
}  // namespace pt
#endif
