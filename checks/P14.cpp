// P14: a matrix archive is a faithful named container.
#include "mar.hpp"
PBT_PROPERTY("P14",
             "Histories of up to 60 operations (every setter, createMatrix, mutable access, clear of one or all, lookups of every kind) over eight colliding legal names and generated "
             "illegal ones, against a map; after every operation the whole archive is compared. A case is non-trivial when a name changes its kind or an existing entry is cleared.")
using namespace mar;
using sm::MatrixArchive;
typedef sm::MatrixArchiveException Ex;

static std::string key(pbt::Source& s) { return s.pick({"a", "b", "c", "A", "a_1", "b2", "abcdefghijklmnopqrstuvwxyz_12345", "z"}); }
static std::string badName(pbt::Source& s) {
  switch (s.below(7)) {
    case 0: return "";
    case 1: return std::string(s.size(33, 70), 'a');
    case 2: return std::string(1, s.pick({'0', '9', '_', ' ', '-', '.', '\n', '\0', '@', '[', '`', '{'})) + "abc";
    case 3: { std::string n = key(s); if (n.size() > 20) n.resize(20); n.insert(1 + s.below(n.size()), 1, s.pick({' ', '-', '.', '/', '\n', '\0', '@', '[', '`', '{', ':', '\x7f', '~'})); return n; }
    case 4: return "a\xe4";
    case 5: return "\xe4""a";
    default: { std::string n = s.bytes(40); if (legal(n)) n += ' '; return n; }
  }
}
static void lookups(MatrixArchive& a, const Model& m, const std::string& n) {
  const MatrixArchive& c = a;
  auto it = m.find(n);
  bool mat = it != m.end() && !it->second.isString, str = it != m.end() && it->second.isString;
  Eigen::MatrixXd M = Eigen::MatrixXd::Constant(2, 2, 5);
  Eigen::VectorXd v = Eigen::VectorXd::Constant(3, 5);
  double d = 5;
  std::string t = "five";
  if (mat) {
    c.getMatrix(n, M);
    PBT_CHECK(of(M) == it->second && of(c.getMatrix(n)) == it->second && of(a.getMatrix(n)) == it->second, "getMatrix " << n);
    PBT_CHECK(c.find(n) != c.end() && c.find(n)->first == n && of(c.find(n)->second) == it->second, "find " << n);
  } else {
    PBT_THROWS(c.getMatrix(n, M), Ex, n);
    PBT_THROWS(c.getMatrix(n), Ex, n);
    PBT_THROWS(a.getMatrix(n), Ex, n);
    PBT_CHECK(c.find(n) == c.end(), "find " << n);
  }
  if (mat && it->second.cols == 1) {
    c.getVector(n, v);
    PBT_CHECK(of(Eigen::MatrixXd(v)) == it->second, "getVector " << n);
  } else PBT_THROWS(c.getVector(n, v), Ex, n);
  if (mat && it->second.cols == 1 && it->second.rows == 1) {
    c.getScalar(n, d);
    double e = c.getScalar(n);
    PBT_CHECK(pbt::sameBits(d, it->second.data[0]) && pbt::sameBits(e, d), "getScalar " << n);
  } else {
    PBT_THROWS(c.getScalar(n, d), Ex, n);
    PBT_THROWS(c.getScalar(n), Ex, n);
  }
  if (str) {
    c.getString(n, t);
    PBT_CHECK(t == it->second.text && c.getString(n) == t && a.getString(n) == t, "getString " << n);
  } else {
    PBT_THROWS(c.getString(n, t), Ex, n);
    PBT_THROWS(c.getString(n), Ex, n);
    PBT_THROWS(a.getString(n), Ex, n);
  }
}

PBT(histories, 12000, 150000) {
  MatrixArchive a;
  const MatrixArchive& c = a;
  Model m;
  size_t n = s.size(0, 60);
  PBT_EQ(a.maxNameSize(), size_t(32), "longest name");
  for (size_t step = 0; step < n; ++step) {
    bool bad = s.chance(1, 8);
    std::string k = bad ? badName(s) : key(s);
    bool ok = legal(k);
    Value v;
    bool set = false, threw = false;
    std::string what;
    auto was = m.find(k);
    bool wasString = was != m.end() && was->second.isString, wasThere = was != m.end();
    bool either = false;
    try {
      switch (s.below(12)) {
        case 0: { what = "setMatrix"; Eigen::MatrixXd M = anyMatrix(s, 4); v = of(M); set = true; a.setMatrix(k, M); break; }
        case 1: { what = "setMatrix(fixed expression)"; Eigen::Matrix<double, 2, 3> M; for (int i = 0; i < 6; ++i) M(i % 2, i / 2) = s.real(10); v = of(Eigen::MatrixXd(M.transpose() * 2)); set = true; a.setMatrix(k, M.transpose() * 2); break; }
        case 2: { what = "setMatrixXd"; Eigen::MatrixXd M = anyMatrix(s, 4); v = of(M); set = true; a.setMatrixXd(k, M); break; }
        case 3: {
          what = "setVector";
          Eigen::MatrixXd M = anyMatrix(s, 3);
          if (s.flip()) M.resize(3, 1), M << 1, 2, s.real(5);
          v = of(M);
          set = true;
          if (M.cols() != 1) ok = false;
          a.setVector(k, M);
          break;
        }
        case 4: { what = "setVectorXd"; Eigen::VectorXd x(int(s.below(4))); for (int i = 0; i < x.size(); ++i) x[i] = s.anyDouble(); v = of(Eigen::MatrixXd(x)); set = true; a.setVectorXd(k, x); break; }
        case 5: { what = "setScalar"; double d = s.anyDouble(); v = of(Eigen::MatrixXd(Eigen::MatrixXd::Constant(1, 1, d))); set = true; a.setScalar(k, d); break; }
        case 6: case 7: { what = "setString"; std::string t = anyText(s); v = of(t); set = true; a.setString(k, t); break; }
        case 8: {
          what = "createMatrix";
          int r = int(s.below(4)), co = int(s.below(4));
          bool over = s.flip();
          set = true;
          either = !over && wasString;  // replacing a string without leave is not specified
          if (!over && wasThere && !wasString) ok = false;
          Eigen::MatrixXd& M = a.createMatrix(k, r, co, over);
          PBT_CHECK(M.rows() == r && M.cols() == co, "size of the created matrix");
          for (int j = 0; j < co; ++j) for (int i = 0; i < r; ++i) M(i, j) = i + 10 * j + 0.5;
          v = of(M);
          break;
        }
        case 9: {
          what = "write access";
          if (!wasThere) break;
          if (wasString) { std::string& t = a.getString(k); t += "!"; m[k].text += "!"; }
          else { Eigen::MatrixXd& M = a.getMatrix(k); if (M.size()) { M(M.rows() - 1, 0) = 4; m[k].data[size_t(M.rows() - 1)] = 4; } }
          break;
        }
        case 10:
          what = "clear";
          if (s.chance(1, 6)) { a.clear(); m.clear(); k = "everything"; }
          else { a.clear(k); if (wasThere) { s.nontrivial(); s.label(wasString ? "string cleared" : "matrix cleared"); } m.erase(k); }
          break;
        default: what = "lookup"; lookups(a, m, k); break;
      }
    } catch (const Ex& e) {
      threw = true;
    }
    PBT_NOTE(s, what << " " << pbt::show(k) << " " << show(v));
    if (set) {
      if (either) { if (!threw) m[k] = v; }
      else {
        PBT_CHECK(threw == !ok, what << " " << pbt::show(k) << (ok ? " is accepted" : " is refused with an exception"));
        if (ok) { if (wasThere && wasString != v.isString) { s.nontrivial(); s.label("kind changed"); } m[k] = v; }
        else s.label("refused");
      }
    } else PBT_CHECK(!threw, what << " " << pbt::show(k) << " does not throw");
    same(dump(c), m, "after " + what);
    size_t mats = 0;
    for (const auto& e : m) mats += !e.second.isString;
    PBT_CHECK(c.size() == m.size() && c.sizeMatrices() == mats && c.sizeStrings() == m.size() - mats, "sizes after " << what << ": " << c.size() << " " << c.sizeMatrices() << " " << c.sizeStrings());
  }
  for (const char* k : {"a", "b", "A", "z", "", "a b"}) lookups(a, m, k);
}

PBT(names, 30000, 300000) {
  std::string k = s.flip() ? badName(s) : s.chance(1, 3) ? std::string(s.size(28, 36), 'Q') : s.str("abzABZ019_ -.", 12);
  PBT_NOTE(s, pbt::show(k));
  s.nontrivial();
  MatrixArchive a;
  a.setScalar("a", 3);
  a.setString("b", "x");
  Model m = dump(a);
  bool ok = legal(k), threw = false;
  int how = int(s.below(6));
  try {
    switch (how) {
      case 0: a.setMatrix(k, Eigen::Matrix2d(Eigen::Matrix2d::Zero())); break;
      case 1: a.setVector(k, Eigen::Vector2d(1, 2)); break;
      case 2: a.setScalar(k, 1); break;
      case 3: a.setString(k, "y"); break;
      case 4: a.createMatrix(k, 1, 2, true).setZero(); break;
      default: a.setMatrixXd(k, Eigen::MatrixXd::Zero(1, 1)); break;
    }
  } catch (const Ex&) {
    threw = true;
  }
  PBT_CHECK(threw == !ok, pbt::show(k) << (ok ? " is a legal name" : " is not a legal name") << ", setter " << how);
  if (!ok) same(dump(a), m, "a refused name leaves the archive alone");
}
