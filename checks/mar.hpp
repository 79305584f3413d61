// Shared by the matrix archive checks: the documented block format, written and parsed independently, and a model.
#ifndef VERIF_MAR_HPP
#define VERIF_MAR_HPP
#include "pbt.hpp"
#include <fstream>
#include <iterator>
#include <map>
#include <set>
#include <sm/MatrixArchive.hpp>
namespace mar {
struct Value {
  bool isString = false;
  std::string text;
  uint32_t rows = 0, cols = 0;
  std::vector<double> data;  // column by column
  bool operator==(const Value& o) const {
    return isString == o.isString && text == o.text && rows == o.rows && cols == o.cols && data.size() == o.data.size() && (data.empty() || !std::memcmp(data.data(), o.data.data(), 8 * data.size()));
  }
};
typedef std::map<std::string, Value> Model;

inline Value of(const Eigen::MatrixXd& M) { Value v; v.rows = uint32_t(M.rows()); v.cols = uint32_t(M.cols()); if (M.size()) for (Eigen::Index j = 0; j < M.cols(); ++j) for (Eigen::Index i = 0; i < M.rows(); ++i) v.data.push_back(M(i, j)); return v; }
inline Value of(const std::string& t) { Value v; v.isString = true; v.text = t; return v; }
inline Eigen::MatrixXd matrix(const Value& v) { Eigen::MatrixXd M(v.rows, v.cols); for (size_t k = 0; k < v.data.size(); ++k) M(int(k % v.rows), int(k / v.rows)) = v.data[k]; return M; }

inline void u32(std::string& o, uint32_t x) { for (int i = 0; i < 4; ++i) o += char(x >> (8 * i)); }
inline std::string block(const std::string& name, const Value& v, bool rightAligned = true) {
  std::string o, pad(name.size() < 32 ? 32 - name.size() : 0, ' ');
  o += v.isString ? 'S' : 'A';
  o += rightAligned ? pad + name : name + pad;
  if (v.isString) { u32(o, uint32_t(v.text.size())); o += v.text; }
  else {
    u32(o, v.rows);
    u32(o, v.cols);
    for (double d : v.data) { uint64_t b; std::memcpy(&b, &d, 8); for (int i = 0; i < 8; ++i) o += char(b >> (8 * i)); }
  }
  return o + 'B';
}
inline bool legal(const std::string& n) {
  auto al = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
  if (n.empty() || n.size() > 32 || !al(n[0])) return false;
  for (char c : n) if (!al(c) && !(c >= '0' && c <= '9') && c != '_') return false;
  return true;
}
struct Block { std::string name; Value v; size_t end; };
/// parses as many whole blocks as there are; returns the position reached. Sizes are taken literally.
inline size_t parse(const std::string& d, std::vector<Block>& out) {
  size_t p = 0;
  auto rd32 = [&](size_t at) { uint32_t x = 0; for (int i = 0; i < 4; ++i) x |= uint32_t(uint8_t(d[at + i])) << (8 * i); return x; };
  while (p < d.size()) {
    size_t q = p;
    Block b;
    if (d[q] != 'A' && d[q] != 'S') return p;
    b.v.isString = d[q++] == 'S';
    if (d.size() - q < 36) return p;
    b.name = d.substr(q, 32);
    size_t a = b.name.find_first_not_of(' '), z = b.name.find_last_not_of(' ');
    b.name = a == std::string::npos ? "" : b.name.substr(a, z - a + 1);
    q += 32;
    if (b.v.isString) {
      uint64_t n = rd32(q);
      q += 4;
      if (d.size() - q < n + 1) return p;
      b.v.text = d.substr(q, n);
      q += n;
    } else {
      if (d.size() - q < 8) return p;
      b.v.rows = rd32(q);
      b.v.cols = rd32(q + 4);
      q += 8;
      uint64_t n = uint64_t(b.v.rows) * b.v.cols;
      if ((d.size() - q) / 8 < n || d.size() - q < 8 * n + 1) return p;
      b.v.data.resize(n);
      for (uint64_t k = 0; k < n; ++k) { uint64_t x = 0; for (int i = 0; i < 8; ++i) x |= uint64_t(uint8_t(d[q + 8 * k + i])) << (8 * i); std::memcpy(&b.v.data[k], &x, 8); }
      q += 8 * n;
    }
    if (d[q++] != 'B') return p;
    b.end = p = q;
    out.push_back(b);
  }
  return p;
}

inline std::string name(pbt::Source& s) {
  static const std::string first = "abcxyzABZ", rest = "abcxyzABZ0189_";
  if (s.chance(2, 3)) return s.pick({"a", "b", "C", "a_1", "matrix", "abcdefghijklmnopqrstuvwxyz_12345", "abcdefghijklmnopqrstuvwxyz_1234", "A"});
  std::string n(1, first[s.below(first.size())]);
  size_t k = s.chance(1, 4) ? 31 : s.size(0, 12);
  for (size_t i = 0; i < k; ++i) n += rest[s.below(rest.size())];
  return n;
}
inline Eigen::MatrixXd anyMatrix(pbt::Source& s, int max = 6) {
  int r = int(s.size(0, size_t(max))), c = int(s.size(0, size_t(max)));
  if (s.chance(1, 40)) { r = int(s.size(0, 400)); c = int(s.size(0, 400)); s.label("large matrix"); }
  Eigen::MatrixXd M(r, c);
  bool big = r * c > 100;
  double base = s.anyDouble();
  for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) M(i, j) = big ? base + i * 0.5 + j : s.anyDouble();
  return M;
}
inline std::string anyText(pbt::Source& s) {
  switch (s.below(6)) {
    case 0: return "";
    case 1: return std::string(s.size(0, 3000), char('a' + s.below(26)));
    case 2: return s.pick({std::string("B"), std::string("AB\0S", 4), std::string(" lead and trail "), std::string("\n\r\n"), std::string("\xff\x80\x00", 3)});
    case 3: if (s.chance(1, 10)) { s.label("large string"); return std::string(s.size(100000, 400000), char(s.below(256))); } return "x";
    default: return s.bytes(20);
  }
}
inline Value anyValue(pbt::Source& s) { return s.flip() ? of(anyText(s)) : of(anyMatrix(s)); }
inline void put(sm::MatrixArchive& a, const std::string& n, const Value& v) { if (v.isString) a.setString(n, v.text); else a.setMatrix(n, matrix(v)); }
inline std::string show(const Value& v) { std::ostringstream o; if (v.isString) o << pbt::show(v.text.substr(0, 40)) << "(" << v.text.size() << ")"; else { o << v.rows << "x" << v.cols << "["; for (size_t i = 0; i < v.data.size() && i < 8; ++i) o << v.data[i] << " "; o << "]"; } return o.str(); }

/// everything the archive holds, through its enumeration
inline Model dump(const sm::MatrixArchive& a) {
  Model m;
  for (sm::MatrixArchive::matrix_map_t::const_iterator i = a.begin(); i != a.end(); ++i) { PBT_CHECK(!m.count(i->first), "one entry per name: " << i->first); m[i->first] = of(i->second); }
  for (sm::MatrixArchive::string_map_t::const_iterator i = a.getStrings().begin(); i != a.getStrings().end(); ++i) { PBT_CHECK(!m.count(i->first), "one entry per name: " << i->first); m[i->first] = of(i->second); }
  return m;
}
inline void same(const Model& got, const Model& want, const std::string& what) {
  for (const auto& e : want) {
    auto i = got.find(e.first);
    PBT_CHECK(i != got.end(), what << ": entry " << e.first << " is missing");
    PBT_CHECK(i->second == e.second, what << ": entry " << e.first << " is " << show(i->second) << " expected " << show(e.second));
  }
  for (const auto& e : got) PBT_CHECK(want.count(e.first), what << ": unexpected entry " << e.first);
}
inline std::string slurp(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline void spill(const std::string& p, const std::string& d) { std::ofstream o(p.c_str(), std::ios::binary); o << d; }
}  // namespace mar
#endif
