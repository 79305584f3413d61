// A small interpreter for the part of the MATLAB language that scripts which read and write binary files use.
// What it does not know raises mlang::Unknown, so that a case is given up instead of being judged.
#ifndef VERIF_MLANG_HPP
#define VERIF_MLANG_HPP
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace mlang {
struct Unknown : std::runtime_error { using std::runtime_error::runtime_error; };  // outside the interpreted part
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };    // an error the script raises
struct Val {
  enum Kind { NUM, CHAR, LOGICAL, STRUCT, CELL } kind = NUM;
  std::string cls = "double";
  std::vector<size_t> dims{0, 0};
  std::vector<double> d;
  std::vector<Val> cells;
  std::vector<std::pair<std::string, Val>> fields;
  size_t numel() const { size_t n = 1; for (size_t k : dims) n *= k; return n; }
  size_t rows() const { return dims[0]; }
  size_t cols() const { size_t n = 1; for (size_t i = 1; i < dims.size(); ++i) n *= dims[i]; return n; }
  bool empty() const { return numel() == 0; }
  Val* field(const std::string& n) { for (auto& f : fields) if (f.first == n) return &f.second; return nullptr; }
};
inline Val num(double x) { Val v; v.dims = {1, 1}; v.d = {x}; return v; }
inline Val logical(bool x) { Val v = num(x); v.kind = Val::LOGICAL; v.cls = "logical"; return v; }
inline Val text(const std::string& t) { Val v; v.kind = Val::CHAR; v.cls = "char"; v.dims = {t.empty() ? 0u : 1u, t.size()}; for (char c : t) v.d.push_back(uint8_t(c)); return v; }
inline Val matrix(size_t r, size_t c, const std::vector<double>& d) { Val v; v.dims = {r, c}; v.d = d; return v; }
inline Val structure() { Val v; v.kind = Val::STRUCT; v.cls = "struct"; v.dims = {1, 1}; return v; }
inline std::string str(const Val& v) { std::string t; for (double x : v.d) t += char(uint8_t(int64_t(x))); return t; }
inline bool truth(const Val& v) {
  if (v.kind == Val::STRUCT || v.kind == Val::CELL) throw Error("conversion to logical is not possible");
  if (v.empty()) return false;
  for (double x : v.d) { if (std::isnan(x)) throw Error("NaN is not a truth value"); if (x == 0) return false; }
  return true;
}
inline double scalar(const Val& v) { if (v.kind == Val::STRUCT || v.kind == Val::CELL || v.empty()) throw Error("a number was expected"); return v.d[0]; }

// ---- syntax ----
struct Tok { enum T { END, NL, NUMBER, STRING, ID, OP } t; std::string s; double x; bool spaceBefore, spaceAfter; };
struct Expr { std::string op, s; double x = 0; std::vector<std::shared_ptr<Expr>> a; };
typedef std::shared_ptr<Expr> E;
struct Stmt { std::string op; std::vector<E> lhs; E e; std::string name; std::vector<E> conds; std::vector<std::vector<std::shared_ptr<Stmt>>> blocks; };
typedef std::vector<std::shared_ptr<Stmt>> Block;
struct Function { std::string name; std::vector<std::string> in, out; Block body; };

inline bool keyword(const std::string& s) {
  for (const char* k : {"function", "if", "elseif", "else", "end", "for", "while", "try", "catch", "return", "break", "continue", "switch", "case", "otherwise"}) if (s == k) return true;
  return false;
}
inline std::vector<Tok> lex(const std::string& t) {
  std::vector<Tok> o;
  size_t p = 0;
  std::vector<char> open;
  auto push = [&](Tok::T k, const std::string& s, double x, bool sp) { if (!o.empty()) o.back().spaceAfter = sp; o.push_back(Tok{k, s, x, sp, false}); };
  bool sp = false;
  while (p < t.size()) {
    const char c = t[p];
    if (c == ' ' || c == '\t' || c == '\r') { sp = true; ++p; continue; }
    if (c == '%') {
      if (t.compare(p, 2, "%{") == 0) throw Unknown("block comment");
      while (p < t.size() && t[p] != '\n') ++p;
      continue;
    }
    if (t.compare(p, 3, "...") == 0) { while (p < t.size() && t[p] != '\n') ++p; ++p; sp = true; continue; }
    if (c == '\n') { push(Tok::NL, "\n", 0, sp); sp = true; ++p; continue; }
    if (std::isdigit(uint8_t(c)) || (c == '.' && p + 1 < t.size() && std::isdigit(uint8_t(t[p + 1])))) {
      char* e;
      double x = std::strtod(t.c_str() + p, &e);
      push(Tok::NUMBER, t.substr(p, size_t(e - t.c_str()) - p), x, sp);
      p = size_t(e - t.c_str());
      sp = false;
      continue;
    }
    if (std::isalpha(uint8_t(c))) {
      size_t q = p;
      while (q < t.size() && (std::isalnum(uint8_t(t[q])) || t[q] == '_')) ++q;
      push(Tok::ID, t.substr(p, q - p), 0, sp);
      p = q;
      sp = false;
      continue;
    }
    const bool afterValue = !o.empty() && (o.back().t == Tok::NUMBER || o.back().t == Tok::STRING || (o.back().t == Tok::ID && !keyword(o.back().s)) || (o.back().t == Tok::OP && (o.back().s == ")" || o.back().s == "]" || o.back().s == "}" || o.back().s == "'")));
    if (c == '\'' && !(afterValue && !(sp && !open.empty() && open.back() != '(')) && !(afterValue && open.empty())) {
      std::string s;
      for (++p;; ++p) {
        if (p >= t.size() || t[p] == '\n') throw Unknown("unterminated string");
        if (t[p] == '\'') { if (p + 1 < t.size() && t[p + 1] == '\'') ++p; else break; }
        s += t[p];
      }
      ++p;
      push(Tok::STRING, s, 0, sp);
      sp = false;
      continue;
    }
    static const char* ops[] = {"==", "~=", "<=", ">=", "&&", "||", ".*", "./", ".'", "(", ")", "[", "]", "{", "}", "+", "-", "*", "/", "<", ">", "&", "|", "~", ":", ",", ";", "=", ".", "'", "@", "^"};
    bool ok = false;
    for (const char* op : ops)
      if (t.compare(p, std::strlen(op), op) == 0) {
        if (*op == '(' || *op == '[' || *op == '{') open.push_back(*op);
        if ((*op == ')' || *op == ']' || *op == '}') && !open.empty()) open.pop_back();
        push(Tok::OP, op, 0, sp);
        p += std::strlen(op);
        ok = true;
        break;
      }
    if (!ok) throw Unknown(std::string("character ") + c);
    sp = false;
  }
  push(Tok::NL, "\n", 0, true);
  o.push_back(Tok{Tok::END, "", 0, true, false});
  return o;
}
class Parser {
  std::vector<Tok> t;
  size_t p = 0;
  int matrixDepth = 0;
  const Tok& k() const { return t[p]; }
  bool is(const std::string& s) const { return (k().t == Tok::OP || k().t == Tok::ID || k().t == Tok::NL) && k().s == s; }
  bool op(const std::string& s) { if (k().t == Tok::OP && k().s == s) { ++p; return true; } return false; }
  void need(const std::string& s) { if (!op(s)) throw Unknown("expected " + s + " before " + k().s); }
  static E mk(const std::string& o, std::vector<E> a = {}, const std::string& s = "", double x = 0) { E e(new Expr); e->op = o; e->a = a; e->s = s; e->x = x; return e; }
  bool sepHere() const { return matrixDepth > 0 && k().spaceBefore && !k().spaceAfter && k().t == Tok::OP && (k().s == "+" || k().s == "-"); }
  E binary(int level) {
    static const std::vector<std::vector<std::string>> L = {{"||"}, {"&&"}, {"|"}, {"&"}, {"<", "<=", ">", ">=", "==", "~="}, {":"}, {"+", "-"}, {"*", "/", ".*", "./"}};
    if (level == int(L.size())) return unary();
    E e = binary(level + 1);
    if (level == 5) {
      if (matrixDepth == -1 || !is(":")) return e;
      if (t[p + 1].t == Tok::OP && (t[p + 1].s == ")" || t[p + 1].s == ",")) return e;
      ++p;
      E b = binary(level + 1);
      if (op(":")) { E c = binary(level + 1); return mk("range", {e, b, c}); }
      return mk("range", {e, b});
    }
    for (;;) {
      bool hit = false;
      if (k().t == Tok::OP && !sepHere())
        for (auto& o : L[level]) if (k().s == o) { ++p; E r = binary(level + 1); e = mk(o, {e, r}); hit = true; break; }
      if (!hit) return e;
    }
  }
  E unary() {
    for (const char* o : {"-", "+", "~"}) if (k().t == Tok::OP && k().s == o) { ++p; E e = unary(); return mk(std::string("u") + o, {e}); }
    return postfix();
  }
  std::vector<E> args() {
    std::vector<E> a;
    int m = matrixDepth;
    matrixDepth = 0;
    while (!op(")")) {
      if (k().t == Tok::OP && k().s == ":" && t[p + 1].t == Tok::OP && (t[p + 1].s == ")" || t[p + 1].s == ",")) { ++p; a.push_back(mk("colon")); }
      else a.push_back(expr());
      if (!is(")")) need(",");
    }
    matrixDepth = m;
    return a;
  }
  E postfix() {
    E e;
    if (k().t == Tok::NUMBER) { e = mk("num", {}, "", k().x); ++p; }
    else if (k().t == Tok::STRING) { e = mk("str", {}, k().s); ++p; }
    else if (k().t == Tok::ID && k().s == "end") { ++p; return mk("end"); }
    else if (k().t == Tok::ID && !keyword(k().s)) { e = mk("id", {}, k().s); ++p; }
    else if (op("(")) { int m = matrixDepth; matrixDepth = 0; e = mk("paren", {expr()}); need(")"); matrixDepth = m; }
    else if (op("[")) {
      ++matrixDepth;
      int m = matrixDepth;
      matrixDepth = 1;
      e = mk("matrix");
      E row = mk("row");
      for (;;) {
        if (op("]")) break;
        if (op(";") || is("\n")) { if (is("\n")) ++p; e->a.push_back(row); row = mk("row"); continue; }
        if (op(",")) continue;
        row->a.push_back(expr());
      }
      e->a.push_back(row);
      matrixDepth = m - 1;
    } else throw Unknown("expression at " + k().s);
    for (;;) {
      if (matrixDepth > 0 && k().spaceBefore) return e;
      if (op("(")) { std::vector<E> a = args(); a.insert(a.begin(), e); e = mk("index", a); }
      else if (k().t == Tok::OP && k().s == "." ) {
        ++p;
        if (op("(")) { int m = matrixDepth; matrixDepth = 0; E n = expr(); need(")"); matrixDepth = m; e = mk("dynfield", {e, n}); }
        else { if (k().t != Tok::ID) throw Unknown("field"); e = mk("dynfield", {e, mk("str", {}, k().s)}); ++p; }
      } else if (op("'") || op(".'")) e = mk("transpose", {e});
      else if (op("{")) { int m = matrixDepth; matrixDepth = 0; E n = expr(); need("}"); matrixDepth = m; e = mk("cellindex", {e, n}); }
      else return e;
    }
  }
  E expr() { return binary(0); }
  void eol() { while (is("\n") || is(";") || is(",")) ++p; }
  Block block() {
    Block b;
    for (;;) {
      eol();
      if (k().t == Tok::END) return b;
      if (k().t == Tok::ID) for (const char* w : {"end", "else", "elseif", "catch", "case", "otherwise", "function"}) if (k().s == w) return b;
      b.push_back(statement());
    }
  }
  void close() { if (!is("end")) throw Unknown("expected end before " + k().s); ++p; }
  std::shared_ptr<Stmt> statement() {
    std::shared_ptr<Stmt> s(new Stmt);
    if (k().t == Tok::ID && keyword(k().s)) {
      s->op = k().s;
      ++p;
      if (s->op == "if") {
        s->conds.push_back(expr());
        s->blocks.push_back(block());
        while (is("elseif")) { ++p; s->conds.push_back(expr()); s->blocks.push_back(block()); }
        if (is("else")) { ++p; s->blocks.push_back(block()); }
        close();
      } else if (s->op == "while") { s->conds.push_back(expr()); s->blocks.push_back(block()); close(); }
      else if (s->op == "for") {
        bool par = op("(");
        s->name = k().s;
        ++p;
        need("=");
        s->e = expr();
        if (par) need(")");
        s->blocks.push_back(block());
        close();
      } else if (s->op == "try") {
        s->blocks.push_back(block());
        if (is("catch")) { ++p; if (k().t == Tok::ID && !is("\n")) { s->name = k().s; ++p; } s->blocks.push_back(block()); }
        close();
      } else if (s->op != "return" && s->op != "break" && s->op != "continue") throw Unknown("statement " + s->op);
      return s;
    }
    size_t save = p;
    if (op("[")) {  // several results
      bool ok = true;
      std::vector<E> l;
      try {
        while (!op("]")) { if (op(",")) continue; if (op("~")) { l.push_back(mk("ignored")); continue; } int m = matrixDepth; matrixDepth = 1; l.push_back(postfix()); matrixDepth = m; }
        ok = is("=");
      } catch (Unknown&) { ok = false; matrixDepth = 0; }
      if (ok) { ++p; s->op = "assign"; s->lhs = l; s->e = expr(); return s; }
      p = save;
    }
    E e = expr();
    if (op("=")) { s->op = "assign"; s->lhs = {e}; s->e = expr(); }
    else { s->op = "expr"; s->e = e; }
    return s;
  }

 public:
  explicit Parser(const std::string& src) : t(lex(src)) {}
  Function parse() {
    Function f;
    eol();
    if (!is("function")) throw Unknown("not a function file");
    ++p;
    if (op("[")) { while (!op("]")) { if (op(",")) continue; f.out.push_back(k().s); ++p; } need("="); }
    else if (t[p + 1].t == Tok::OP && t[p + 1].s == "=") { f.out.push_back(k().s); p += 2; }
    f.name = k().s;
    ++p;
    if (op("(")) while (!op(")")) { if (op(",")) continue; f.in.push_back(k().s); ++p; }
    f.body = block();
    if (is("end")) ++p;
    eol();
    if (k().t != Tok::END) throw Unknown("more than one function");
    return f;
  }
};

// ---- evaluation ----
struct File { std::FILE* f; bool big, eof, write; };
class Interp {
  std::map<int, File> files;
  std::map<std::string, Function> functions;
  struct Frame { std::map<std::string, Val> v; size_t nargin; };
  enum Flow { GO, BREAK, CONTINUE, RETURN };
  std::vector<const Val*> endOf;
  std::vector<std::pair<size_t, size_t>> endPos;

 public:
  std::string console;
  Interp() {}
  Interp(const Interp&) = delete;
  ~Interp() { for (auto& f : files) std::fclose(f.second.f); }
  void load(const std::string& path) {
    static std::map<std::string, Function> parsed;
    if (!parsed.count(path)) {
      std::ifstream i(path.c_str(), std::ios::binary);
      if (!i) throw Unknown("cannot read " + path);
      parsed[path] = Parser(std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>())).parse();
    }
    functions[parsed[path].name] = parsed[path];
  }
  size_t openFiles() const { return files.size(); }
  std::vector<Val> call(const std::string& name, const std::vector<Val>& a, size_t nout) {
    auto i = functions.find(name);
    if (i == functions.end()) return builtin(name, a, nout, nullptr);
    Frame fr;
    fr.nargin = a.size();
    if (a.size() > i->second.in.size()) throw Error("too many inputs");
    for (size_t n = 0; n < a.size(); ++n) fr.v[i->second.in[n]] = a[n];
    run(i->second.body, fr);
    std::vector<Val> o;
    for (size_t n = 0; n < std::max<size_t>(nout, 1) && n < i->second.out.size(); ++n) {
      if (!fr.v.count(i->second.out[n])) { if (n < nout) throw Error("output not assigned"); break; }
      o.push_back(fr.v[i->second.out[n]]);
    }
    if (o.size() < nout) throw Error("too many outputs");
    return o;
  }

 private:
  Flow run(const Block& b, Frame& fr) {
    for (auto& s : b) { Flow f = exec(*s, fr); if (f != GO) return f; }
    return GO;
  }
  Flow exec(const Stmt& s, Frame& fr) {
    if (s.op == "return") return RETURN;
    if (s.op == "break") return BREAK;
    if (s.op == "continue") return CONTINUE;
    if (s.op == "if") {
      for (size_t i = 0; i < s.conds.size(); ++i) if (truth(cond(s.conds[i], fr))) return run(s.blocks[i], fr);
      return s.blocks.size() > s.conds.size() ? run(s.blocks.back(), fr) : GO;
    }
    if (s.op == "while") {
      for (size_t n = 0; truth(cond(s.conds[0], fr)); ++n) {
        if (n > 2000000) throw Unknown("a loop that does not end");
        Flow f = run(s.blocks[0], fr);
        if (f == BREAK) break;
        if (f == RETURN) return f;
      }
      return GO;
    }
    if (s.op == "for") {
      Val c = eval(s.e, fr);
      if (c.kind == Val::STRUCT || c.kind == Val::CELL) throw Unknown("loop over a container");
      const size_t r = c.rows(), n = r ? c.cols() : 0;
      for (size_t j = 0; j < n; ++j) {
        Val x = c;
        x.dims = {r, 1};
        x.d.assign(c.d.begin() + long(j * r), c.d.begin() + long((j + 1) * r));
        fr.v[s.name] = x;
        Flow f = run(s.blocks[0], fr);
        if (f == BREAK) break;
        if (f == RETURN) return f;
      }
      return GO;
    }
    if (s.op == "try") {
      try {
        return run(s.blocks[0], fr);
      } catch (Error& e) {
        if (s.blocks.size() < 2) return GO;
        if (!s.name.empty()) { Val me = structure(); me.cls = "MException"; me.fields.push_back({"message", text(e.what())}); fr.v[s.name] = me; }
      }
      return run(s.blocks[1], fr);
    }
    if (s.op == "expr") { multi(s.e, fr, 0); return GO; }
    if (s.op == "assign") {
      std::vector<Val> v = multi(s.e, fr, s.lhs.size());
      if (v.size() < s.lhs.size()) throw Error("not enough results");
      for (size_t i = 0; i < s.lhs.size(); ++i) assign(*s.lhs[i], v[i], fr);
      return GO;
    }
    throw Unknown("statement " + s.op);
  }
  void assign(const Expr& l, const Val& v, Frame& fr) {
    if (l.op == "ignored") return;
    if (l.op == "id") { fr.v[l.s] = v; return; }
    if (l.op == "dynfield" && l.a[0]->op == "id") {
      Val n = eval(l.a[1], fr);
      const std::string name = str(n);
      if (n.kind != Val::CHAR || name.empty() || !std::isalpha(uint8_t(name[0])) || name.size() > 63) throw Error("invalid field name");
      for (char c : name) if (!std::isalnum(uint8_t(c)) && c != '_') throw Error("invalid field name");
      Val& s = fr.v.count(l.a[0]->s) ? fr.v[l.a[0]->s] : (fr.v[l.a[0]->s] = structure());
      if (s.kind != Val::STRUCT) { if (s.empty()) s = structure(); else throw Error("not a struct"); }
      if (Val* f = s.field(name)) *f = v; else s.fields.push_back({name, v});
      return;
    }
    if (l.op == "index" && l.a[0]->op == "id" && l.a.size() == 2) {
      Val& x = fr.v[l.a[0]->s];
      size_t i = size_t(scalar(eval(l.a[1], fr)));
      if (i < 1) throw Error("index");
      if (v.numel() != 1 || x.rows() > 1) throw Unknown("indexed assignment");
      if (x.d.size() < i) { x.d.resize(i); x.dims = {1, i}; }
      x.d[i - 1] = v.d[0];
      return;
    }
    throw Unknown("assignment to " + l.op);
  }
  Val eval(const E& e, Frame& fr) {
    std::vector<Val> v = multi(e, fr, 1);
    if (v.empty()) throw Error("no value");
    return v[0];
  }
  Val cond(const E& e, Frame& fr) {  // | and & short-circuit in conditions
    if (e->op == "paren") return cond(e->a[0], fr);
    if (e->op == "|" || e->op == "&") {
      Val a = cond(e->a[0], fr);
      if (a.numel() == 1 && truth(a) == (e->op == "|")) return a;
      Val b = cond(e->a[1], fr);
      return arith(e->op, a, b);
    }
    return eval(e, fr);
  }
  static double op2(const std::string& o, double x, double y) {
    if (o == "+") return x + y;
    if (o == "-") return x - y;
    if (o == "*" || o == ".*") return x * y;
    if (o == "/" || o == "./") return x / y;
    if (o == "==") return x == y;
    if (o == "~=") return x != y;
    if (o == "<") return x < y;
    if (o == "<=") return x <= y;
    if (o == ">") return x > y;
    if (o == ">=") return x >= y;
    if (o == "&") return x != 0 && y != 0;
    if (o == "|") return x != 0 || y != 0;
    throw Unknown("operator " + o);
  }
  static Val arith(const std::string& o, const Val& a, const Val& b) {
    if (a.kind >= Val::STRUCT || b.kind >= Val::STRUCT) throw Error("operator on a container");
    if ((o == "*" || o == "/") && a.numel() != 1 && b.numel() != 1) throw Unknown("matrix product");
    Val r;
    if (o == "==" || o == "~=" || o[0] == '<' || o[0] == '>' || o == "&" || o == "|") { r.kind = Val::LOGICAL; r.cls = "logical"; }
    if (a.numel() == 1) { r.dims = b.dims; for (double y : b.d) r.d.push_back(op2(o, a.d[0], y)); return r; }
    if (b.numel() == 1) { r.dims = a.dims; for (double x : a.d) r.d.push_back(op2(o, x, b.d[0])); return r; }
    if (a.dims != b.dims) throw Error("sizes do not agree");
    r.dims = a.dims;
    for (size_t i = 0; i < a.d.size(); ++i) r.d.push_back(op2(o, a.d[i], b.d[i]));
    return r;
  }
  Val index(const Val& x, const std::vector<E>& a, Frame& fr) {
    if (x.kind == Val::STRUCT) throw Unknown("struct array");
    if (x.kind == Val::CELL) throw Unknown("cell slices");
    std::vector<std::vector<size_t>> ix;
    std::vector<std::vector<size_t>> shape;
    for (size_t n = 1; n < a.size(); ++n) {
      const size_t extent = a.size() == 2 ? x.numel() : n == 1 ? x.rows() : x.cols();
      std::vector<size_t> v;
      if (a[n]->op == "colon") { for (size_t i = 0; i < extent; ++i) v.push_back(i); shape.push_back({extent, 1}); }
      else {
        endOf.push_back(&x);
        endPos.push_back({n, a.size() - 1});
        Val q;
        try { q = eval(a[n], fr); } catch (...) { endOf.pop_back(); endPos.pop_back(); throw; }
        endOf.pop_back();
        endPos.pop_back();
        if (q.kind == Val::LOGICAL) { for (size_t i = 0; i < q.d.size(); ++i) if (q.d[i]) v.push_back(i); shape.push_back({v.size(), 1}); if (q.rows() == 1) shape.back() = {1, v.size()}; }
        else { for (double y : q.d) { if (!(y >= 1) || y != std::floor(y)) throw Error("index must be a positive integer"); v.push_back(size_t(y) - 1); } shape.push_back(q.dims); }
      }
      for (size_t i : v) if (i >= extent) throw Error("index exceeds array bounds");
      ix.push_back(v);
    }
    Val r = x;
    r.d.clear();
    if (ix.size() == 1) {
      for (size_t i : ix[0]) r.d.push_back(x.d[i]);
      r.dims = shape[0];
      if (a[1]->op != "colon" && ix[0].size() != 1 && (x.rows() == 1 || x.cols() == 1) && (shape[0][0] == 1 || shape[0][1] == 1)) r.dims = x.rows() == 1 ? std::vector<size_t>{1, ix[0].size()} : std::vector<size_t>{ix[0].size(), 1};
      return r;
    }
    if (ix.size() != 2) throw Unknown("indexing with more than two subscripts");
    for (size_t j : ix[1]) for (size_t i : ix[0]) r.d.push_back(x.d[j * x.rows() + i]);
    r.dims = {ix[0].size(), ix[1].size()};
    return r;
  }
  std::vector<Val> multi(const E& e, Frame& fr, size_t nout) {
    const std::string& o = e->op;
    if (o == "num") return {num(e->x)};
    if (o == "str") return {text(e->s)};
    if (o == "paren") return {eval(e->a[0], fr)};
    if (o == "end") {
      if (endOf.empty()) throw Unknown("end");
      const Val& x = *endOf.back();
      return {num(double(endPos.back().second == 1 ? x.numel() : endPos.back().first == 1 ? x.rows() : x.cols()))};
    }
    if (o == "id") {
      auto i = fr.v.find(e->s);
      if (i != fr.v.end()) return {i->second};
      return callAny(e->s, {}, nout, fr);
    }
    if (o == "index") {
      if (e->a[0]->op == "id" && !fr.v.count(e->a[0]->s)) {
        std::vector<Val> args;
        for (size_t n = 1; n < e->a.size(); ++n) args.push_back(eval(e->a[n], fr));
        return callAny(e->a[0]->s, args, nout, fr);
      }
      Val x = eval(e->a[0], fr);
      return {index(x, e->a, fr)};
    }
    if (o == "cellindex") {
      Val x = eval(e->a[0], fr);
      if (x.kind != Val::CELL) throw Error("brace indexing into something that is no cell");
      endOf.push_back(&x);
      endPos.push_back({1, 1});
      double i = scalar(eval(e->a[1], fr));
      endOf.pop_back();
      endPos.pop_back();
      if (!(i >= 1) || i > double(x.cells.size())) throw Error("index exceeds array bounds");
      return {x.cells[size_t(i) - 1]};
    }
    if (o == "dynfield") {
      Val x = eval(e->a[0], fr), n = eval(e->a[1], fr);
      if (x.kind != Val::STRUCT) throw Error("not a struct");
      Val* f = x.field(str(n));
      if (!f) throw Error("no field " + str(n));
      return {*f};
    }
    if (o == "transpose") {
      Val x = eval(e->a[0], fr), r = x;
      if (x.dims.size() != 2 || x.kind >= Val::STRUCT) throw Error("transpose");
      r.dims = {x.cols(), x.rows()};
      for (size_t i = 0; i < x.rows(); ++i) for (size_t j = 0; j < x.cols(); ++j) r.d[i * x.cols() + j] = x.d[j * x.rows() + i];
      return {r};
    }
    if (o == "u-") { Val x = eval(e->a[0], fr); x.kind = Val::NUM; x.cls = "double"; for (double& y : x.d) y = -y; return {x}; }
    if (o == "u+") return {eval(e->a[0], fr)};
    if (o == "u~") { Val x = eval(e->a[0], fr); if (x.kind >= Val::STRUCT) throw Error("not"); x.kind = Val::LOGICAL; x.cls = "logical"; for (double& y : x.d) y = y == 0; return {x}; }
    if (o == "&&" || o == "||") {
      auto one = [&](const E& q) { Val x = eval(q, fr); if (x.kind >= Val::STRUCT || x.numel() != 1) throw Error("operands of || and && must be scalars"); return truth(x); };
      const bool a = one(e->a[0]);
      if (a == (o == "||")) return {logical(a)};
      return {logical(one(e->a[1]))};
    }
    if (o == "range") {
      double a = scalar(eval(e->a[0], fr)), b = scalar(eval(e->a.back(), fr)), st = e->a.size() == 3 ? scalar(eval(e->a[1], fr)) : 1;
      Val r;
      if (st == 0) throw Unknown("step 0");
      for (size_t n = 0;; ++n) { double x = a + double(n) * st; if (st > 0 ? x > b : x < b) break; r.d.push_back(x); if (n > 10000000) throw Unknown("range"); }
      r.dims = {1, r.d.size()};
      return {r};
    }
    if (o == "matrix") {
      Val r;
      bool first = true, chr = false;
      std::vector<std::vector<Val>> rows;
      for (auto& row : e->a) {
        std::vector<Val> vs;
        for (auto& q : row->a) { Val x = eval(q, fr); if (x.kind >= Val::STRUCT) throw Unknown("concatenation of containers"); if (x.kind == Val::CHAR) chr = true; if (!x.empty()) vs.push_back(x); }
        if (!vs.empty()) rows.push_back(vs);
      }
      std::vector<std::vector<double>> m;
      for (auto& vs : rows) {
        size_t h = vs[0].rows();
        std::vector<std::vector<double>> part(h);
        for (auto& x : vs) { if (x.rows() != h) throw Error("dimensions are not consistent"); for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < x.cols(); ++j) part[i].push_back(x.d[j * h + i]); }
        if (!first && m[0].size() != part[0].size()) throw Error("dimensions are not consistent");
        first = false;
        m.insert(m.end(), part.begin(), part.end());
      }
      r.dims = {m.size(), m.empty() ? 0 : m[0].size()};
      for (size_t j = 0; j < r.dims[1]; ++j) for (size_t i = 0; i < r.dims[0]; ++i) r.d.push_back(m[i][j]);
      if (chr) { r.kind = Val::CHAR; r.cls = "char"; }
      return {r};
    }
    if (e->a.size() == 2) return {arith(o, eval(e->a[0], fr), eval(e->a[1], fr))};
    throw Unknown("expression " + o);
  }
  std::vector<Val> callAny(const std::string& n, const std::vector<Val>& a, size_t nout, Frame& fr) {
    if (n == "nargin") return {num(double(fr.nargin))};
    if (functions.count(n)) return call(n, a, nout);
    return builtin(n, a, nout, &fr);
  }
  static std::string format(const std::vector<Val>& a, size_t from) {
    std::string f;
    const std::string raw = str(a.at(from));
    for (size_t i = 0; i < raw.size(); ++i) {
      if (raw[i] == '\\' && i + 1 < raw.size()) {
        const char c = raw[++i];
        f += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c == '"' ? '"' : c;
      } else f += raw[i];
    }
    struct Arg { bool isText; std::string s; double x; };
    std::vector<Arg> q;
    for (size_t i = from + 1; i < a.size(); ++i) {
      if (a[i].kind == Val::CHAR) q.push_back({true, str(a[i]), 0});
      else if (a[i].kind >= Val::STRUCT) throw Error("cannot be formatted");
      else for (double x : a[i].d) q.push_back({false, "", x});
    }
    const bool any = a.size() > from + 1;
    std::string o;
    size_t n = 0;
    for (;;) {
      bool used = false;
      for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { o += f[i]; continue; }
        if (i + 1 < f.size() && f[i + 1] == '%') { o += '%'; ++i; continue; }
        size_t j = i + 1;
        while (j < f.size() && !std::isalpha(uint8_t(f[j]))) ++j;
        if (j >= f.size()) throw Unknown("format " + f);
        const char c = f[j];
        std::string spec = f.substr(i, j - i);
        if (spec.find('*') != spec.npos) throw Unknown("format " + f);
        i = j;
        if (n >= q.size()) {
          if (any) return o;  // output stops where the data end
          char b[200];
          std::snprintf(b, sizeof b, (spec + "s").c_str(), "");
          o += b;
          continue;
        }
        used = true;
        char b[4096];
        const Arg& x = q[n++];
        if (x.isText) std::snprintf(b, sizeof b, ((c == 's' || c == 'c' ? spec : std::string("%")) + "s").c_str(), x.s.c_str());
        else if (c == 'd' || c == 'i' || c == 'u') { if (x.x == std::floor(x.x) && std::fabs(x.x) < 1e15) std::snprintf(b, sizeof b, (spec + "lld").c_str(), (long long)x.x); else std::snprintf(b, sizeof b, (spec + "e").c_str(), x.x); }
        else if (c == 'f' || c == 'g' || c == 'e') std::snprintf(b, sizeof b, (spec + c).c_str(), x.x);
        else if (c == 's' || c == 'c') { if (x.x == std::floor(x.x) && x.x >= 0 && x.x < 256) { const char t[2] = {char(x.x), 0}; std::snprintf(b, sizeof b, (spec + "s").c_str(), t); } else std::snprintf(b, sizeof b, "%g", x.x); }
        else throw Unknown(std::string("conversion ") + c);
        o += b;
      }
      if (n >= q.size() || !used) return o;
    }
  }
  File& file(const Val& v) {
    auto i = files.find(int(scalar(v)));
    if (i == files.end()) throw Error("invalid file identifier");
    return i->second;
  }
  static size_t width(const std::string& p) {
    if (p == "uint8" || p == "int8" || p == "char" || p == "uchar" || p == "schar" || p == "char*1") return 1;
    if (p == "uint16" || p == "int16") return 2;
    if (p == "uint32" || p == "int32" || p == "single" || p == "float32" || p == "float") return 4;
    if (p == "uint64" || p == "int64" || p == "double" || p == "float64") return 8;
    throw Unknown("precision " + p);
  }
  static bool isFloat(const std::string& p) { return p == "single" || p == "float32" || p == "float" || p == "double" || p == "float64"; }
  static bool isSigned(const std::string& p) { return p[0] == 'i' || p == "schar"; }
  std::vector<Val> builtin(const std::string& n, const std::vector<Val>& a, size_t nout, Frame*) {
    auto need = [&](size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw Error("number of arguments of " + n); };
    if (n == "true" || n == "false") return {logical(n == "true")};
    if (n == "Inf" || n == "inf") return {num(std::numeric_limits<double>::infinity())};
    if (n == "NaN" || n == "nan") return {num(std::numeric_limits<double>::quiet_NaN())};
    if (n == "error") {
      need(1, 99);
      throw Error(a.size() == 1 ? str(a[0]) : format(a, 0));
    }
    if (n == "rethrow") { need(1, 1); Val x = a[0]; Val* m = x.field("message"); throw Error(m ? str(*m) : ""); }
    if (n == "sprintf") { need(1, 99); return {text(format(a, 0))}; }
    if (n == "disp") { need(1, 1); return {}; }
    if (n == "fprintf" || n == "warning") {
      need(1, 99);
      if (n == "fprintf" && a[0].kind != Val::CHAR) {
        if (a.size() < 2) throw Error("fprintf");
        if (scalar(a[0]) == 1 || scalar(a[0]) == 2) { console += format(a, 1); return {}; }
        File& f = file(a[0]);
        const std::string o = format(a, 1);
        std::fwrite(o.data(), 1, o.size(), f.f);
        return {};
      }
      console += format(a, 0);
      return {};
    }
    if (n == "fieldnames") {
      need(1, 1);
      if (a[0].kind != Val::STRUCT) throw Error("fieldnames of something that is no struct");
      Val c;
      c.kind = Val::CELL;
      c.cls = "cell";
      for (auto& f : a[0].fields) c.cells.push_back(text(f.first));
      c.dims = {c.cells.size(), 1};
      return {c};
    }
    if (n == "isfield") { need(2, 2); Val x = a[0]; return {logical(x.kind == Val::STRUCT && x.field(str(a[1])))}; }
    if (n == "struct") { need(0, 0); return {structure()}; }
    if (n == "length") { need(1, 1); double m = 0; for (size_t k : a[0].dims) m = std::max(m, double(k)); return {num(a[0].empty() ? 0 : m)}; }
    if (n == "numel") { need(1, 1); return {num(double(a[0].numel()))}; }
    if (n == "ndims") { need(1, 1); return {num(double(a[0].dims.size()))}; }
    if (n == "size") {
      need(1, 2);
      if (a.size() == 2) { size_t k = size_t(scalar(a[1])); if (k < 1) throw Error("dimension"); return {num(k <= a[0].dims.size() ? double(a[0].dims[k - 1]) : 1)}; }
      if (nout > 1) { if (nout != 2) throw Unknown("size"); return {num(double(a[0].rows())), num(double(a[0].cols()))}; }
      Val r;
      for (size_t k : a[0].dims) r.d.push_back(double(k));
      r.dims = {1, r.d.size()};
      return {r};
    }
    if (n == "isempty") { need(1, 1); return {logical(a[0].empty())}; }
    if (n == "islogical") { need(1, 1); return {logical(a[0].kind == Val::LOGICAL)}; }
    if (n == "isnumeric") { need(1, 1); return {logical(a[0].kind == Val::NUM)}; }
    if (n == "ischar") { need(1, 1); return {logical(a[0].kind == Val::CHAR)}; }
    if (n == "isstruct") { need(1, 1); return {logical(a[0].kind == Val::STRUCT)}; }
    if (n == "iscell") { need(1, 1); return {logical(a[0].kind == Val::CELL)}; }
    if (n == "isa") { need(2, 2); return {logical(a[0].cls == str(a[1]) || (str(a[1]) == "numeric" && a[0].kind == Val::NUM) || (str(a[1]) == "float" && (a[0].cls == "double" || a[0].cls == "single")))}; }
    if (n == "isreal") { need(1, 1); return {logical(a[0].kind < Val::STRUCT)}; }
    if (n == "isscalar") { need(1, 1); return {logical(a[0].numel() == 1)}; }
    if (n == "isvector") { need(1, 1); return {logical(a[0].dims.size() == 2 && (a[0].rows() == 1 || a[0].cols() == 1) && !a[0].empty())}; }
    if (n == "isrow") { need(1, 1); return {logical(a[0].dims.size() == 2 && a[0].rows() == 1)}; }
    if (n == "ismatrix") { need(1, 1); return {logical(a[0].dims.size() == 2)}; }
    if (n == "isequal" || n == "strcmp") { need(2, 2); return {logical((n == "isequal" || (a[0].kind == Val::CHAR && a[1].kind == Val::CHAR)) && a[0].dims == a[1].dims && a[0].d == a[1].d)}; }
    if (n == "isletter" || n == "isspace") {
      need(1, 1);
      Val r = a[0];
      r.kind = Val::LOGICAL;
      r.cls = "logical";
      for (double& x : r.d) x = a[0].kind == Val::CHAR && x < 128 && (n == "isletter" ? std::isalpha(int(x)) : std::isspace(int(x))) ? 1 : 0;
      return {r};
    }
    if (n == "any" || n == "all") {
      need(1, 1);
      if (a[0].dims.size() != 2 || (a[0].rows() > 1 && a[0].cols() > 1)) throw Unknown(n);
      bool r = n == "all";
      for (double x : a[0].d) { if (n == "any") r = r || x != 0; else r = r && x != 0; }
      return {logical(r)};
    }
    if (n == "numel" || n == "prod" || n == "sum") { need(1, 1); double r = n == "sum" ? 0 : 1; for (double x : a[0].d) r = n == "sum" ? r + x : r * x; return {num(r)}; }
    if (n == "floor" || n == "abs") { need(1, 1); Val r = a[0]; for (double& x : r.d) x = n == "abs" ? std::fabs(x) : std::floor(x); return {r}; }
    if (n == "min" || n == "max") { need(2, 2); return {num(n == "min" ? std::min(scalar(a[0]), scalar(a[1])) : std::max(scalar(a[0]), scalar(a[1])))}; }
    if (n == "double") { need(1, 1); Val r = a[0]; r.kind = Val::NUM; r.cls = "double"; return {r}; }
    if (n == "char") { need(1, 1); Val r = a[0]; r.kind = Val::CHAR; r.cls = "char"; return {r}; }
    if (n == "logical") { need(1, 1); Val r = a[0]; r.kind = Val::LOGICAL; r.cls = "logical"; for (double& x : r.d) x = x != 0; return {r}; }
    if (n == "zeros" || n == "ones") { need(2, 2); Val r; r.dims = {size_t(scalar(a[0])), size_t(scalar(a[1]))}; r.d.assign(r.numel(), n == "ones"); return {r}; }
    if (n == "strtrim") {  // removes white space and null characters... of a row of characters
      need(1, 1);
      if (a[0].kind != Val::CHAR) throw Error("strtrim needs characters");
      if (a[0].rows() > 1) throw Unknown("strtrim of several rows");
      const std::string t = str(a[0]);
      auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13) || c == 0; };
      size_t b = 0, e = t.size();
      while (b < e && ws(t[b])) ++b;
      while (e > b && ws(t[e - 1])) --e;
      return {text(t.substr(b, e - b))};
    }
    if (n == "reshape") {
      need(2, 3);
      Val r = a[0];
      const size_t h = size_t(a.size() == 3 ? scalar(a[1]) : a[1].d.at(0)), w = size_t(a.size() == 3 ? scalar(a[2]) : a[1].d.at(1));
      if (h * w != r.numel()) throw Error("the number of elements must not change");
      r.dims = {h, w};
      return {r};
    }
    if (n == "exist") throw Unknown(n);
    if (n == "fopen") {
      need(1, 3);
      std::string mode = a.size() > 1 ? str(a[1]) : "r", fmt = a.size() > 2 ? str(a[2]) : "n", m;
      for (char c : mode) if (c != 'b' && c != 't') m += c;
      if (fmt != "n" && fmt != "native" && fmt != "l" && fmt != "ieee-le" && fmt != "b" && fmt != "ieee-be") throw Unknown("format " + fmt);
      std::FILE* f = std::fopen(str(a[0]).c_str(), m.c_str());
      if (!f) return {num(-1), text("No such file or directory")};
      int id = 3;
      while (files.count(id)) ++id;
      files[id] = File{f, fmt[0] == 'b' || fmt == "ieee-be", false, m != "r"};
      return {num(id), text("")};
    }
    if (n == "fclose") {
      need(1, 1);
      File& f = file(a[0]);
      std::fclose(f.f);
      files.erase(int(scalar(a[0])));
      return {num(0)};
    }
    if (n == "feof") { need(1, 1); return {num(file(a[0]).eof)}; }
    if (n == "ftell") { need(1, 1); return {num(double(std::ftell(file(a[0]).f)))}; }
    if (n == "fread") {
      need(1, 3);
      File& f = file(a[0]);
      std::string prec = a.size() > 2 ? str(a[2]) : "uint8", src = prec, dst = "double";
      if (!prec.empty() && prec[0] == '*') src = dst = prec.substr(1);
      else if (prec.find("=>") != prec.npos) { src = prec.substr(0, prec.find("=>")); dst = prec.substr(prec.find("=>") + 2); }
      size_t lim = ~size_t(0), h = 0;
      bool two = false;
      if (a.size() > 1) {
        if (a[1].numel() == 1) { if (!std::isinf(a[1].d[0])) lim = size_t(a[1].d[0]); }
        else if (a[1].numel() == 2) { two = true; h = size_t(a[1].d[0]); if (!std::isinf(a[1].d[1])) lim = h * size_t(a[1].d[1]); }
        else throw Error("size");
      }
      const size_t w = width(src);
      Val r;
      while (r.d.size() < lim) {
        uint8_t b[8];
        size_t got = std::fread(b, 1, w, f.f);
        if (got < w) { f.eof = true; break; }
        if (f.big) for (size_t i = 0; i < w / 2; ++i) std::swap(b[i], b[w - 1 - i]);
        if (isFloat(src)) { if (w == 8) { double x; std::memcpy(&x, b, 8); r.d.push_back(x); } else { float x; std::memcpy(&x, b, 4); r.d.push_back(double(x)); } }
        else {
          uint64_t u = 0;
          for (size_t i = 0; i < w; ++i) u |= uint64_t(b[i]) << (8 * i);
          if (isSigned(src) && w < 8 && (u >> (8 * w - 1))) u |= ~uint64_t(0) << (8 * w);
          r.d.push_back(isSigned(src) ? double(int64_t(u)) : double(u));
        }
      }
      const size_t cnt = r.d.size();
      if (cnt == 0) r.dims = {0, 0};
      else if (two && h) { const size_t c = (cnt + h - 1) / h; if (c == 1 && cnt < h) r.dims = {cnt, 1}; else { r.d.resize(c * h); r.dims = {h, c}; } }
      else r.dims = {cnt, 1};
      if (dst == "char") { for (double& x : r.d) if (x < 0) x = 0; r.kind = Val::CHAR; r.cls = "char"; }
      else if (dst == "double" || dst == "float64") {}
      else { width(dst); r.cls = dst; }
      return {r, num(double(cnt))};
    }
    if (n == "fwrite") {
      need(2, 3);
      File& f = file(a[0]);
      if (a[1].kind >= Val::STRUCT) throw Error("cannot be written");
      const std::string prec = a.size() > 2 ? str(a[2]) : "uint8";
      const size_t w = width(prec);
      size_t cnt = 0;
      for (double x : a[1].d) {
        uint8_t b[8];
        if (prec == "char" && x > 127) throw Unknown("the encoding of a character");
        if (isFloat(prec)) { if (w == 8) std::memcpy(b, &x, 8); else { float y = float(x); std::memcpy(b, &y, 4); } }
        else {
          const double lo = isSigned(prec) ? -std::ldexp(1.0, int(8 * w) - 1) : 0, hi = std::ldexp(1.0, int(8 * w) - (isSigned(prec) ? 1 : 0));
          double y = std::isnan(x) ? 0 : std::round(x);
          uint64_t u;
          if (y <= lo) u = isSigned(prec) ? uint64_t(1) << (8 * w - 1) : 0;
          else if (y >= hi) u = isSigned(prec) ? (uint64_t(1) << (8 * w - 1)) - 1 : ~uint64_t(0);
          else u = y < 0 ? uint64_t(int64_t(y)) : uint64_t(y);
          for (size_t i = 0; i < w; ++i) b[i] = uint8_t(u >> (8 * i));
        }
        if (f.big) for (size_t i = 0; i < w / 2; ++i) std::swap(b[i], b[w - 1 - i]);
        if (!f.write) throw Error("file is not open for writing");
        cnt += std::fwrite(b, w, 1, f.f);
      }
      return {num(double(cnt))};
    }
    throw Unknown("function " + n);
  }
};
}  // namespace mlang
#endif
