// P37: the MATLAB engine wrapper, against a model of MATLAB's engine library (lib/fakematlab).
#include "fakematlab/model.hpp"
#include "fakematlab/model.cpp"
#include "pbt.hpp"
#include <Eigen/Core>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sm/matlab/Engine.hpp>
#include <iostream>
PBT_PROPERTY("P37",
             "A case is a history on the engine wrapper: start and stop, puts and gets of scalars, truth values, texts and matrices, variables of every class and dimension made by MATLAB itself, queries, "
             "commands with answers of any length, a command line, while the engine fails to open, evaluate, take a variable or close. A case is non-trivial when an operation is refused or fails, or a "
             "variable of MATLAB's own making is read.")
typedef sm::matlab::Engine Eng;
namespace mx = fakematlab;
namespace {
enum Why { OK = 0, NOENGINE = 1, NAME = 2, MISSING = 4, EMPTY = 8, TYPE = 16, SIZE = 32, PUT = 64, EXEC = 128 };
/// runs f; the kinds of failure it reported
template <class F> int outcome(F f) {
  using namespace sm::matlab;
  try { f(); return OK; }
  catch (const EngineNotInitializedException&) { return NOENGINE; }
  catch (const InvalidVariableNameException&) { return NAME; }
  catch (const NoSuchVariableException&) { return MISSING; }
  catch (const EmptyVariableException&) { return EMPTY; }
  catch (const InvalidTypeException&) { return TYPE; }
  catch (const InvalidSizeException&) { return SIZE; }
  catch (const EnginePutException&) { return PUT; }
  catch (const EngineExecutionException&) { return EXEC; }
}
bool legal(const std::string& n) {
  for (char c : n) if (!std::isalnum((unsigned char)c) && c != '_') return false;
  return n.empty() || !std::isdigit((unsigned char)n[0]);
}
std::string name(pbt::Source& s) {
  if (s.chance(1, 10)) return s.pick({"", "1a", "a b", "a;b", "_x", "\xc3\xa9", "a.b", "x'"});
  return s.pick({"a", "b", "c", "M", "long_Name_0"});
}
bool num(mxClassID c) { return c >= mxDOUBLE_CLASS && c <= mxUINT64_CLASS; }
size_t count(const mxArray& a) { size_t n = 1; for (auto d : a.dims) n *= d; return n; }
template <class T> void fill(mxArray& a, pbt::Source& s) {
  for (size_t i = 0; i < count(a); ++i) { const double d = double(s.range(-100, 100)); const T v = T(std::is_unsigned<T>::value && d < 0 ? -d : d); std::memcpy(&a.data[i * sizeof(T)], &v, sizeof(T)); }
}
mxArray variable(pbt::Source& s) {
  const mxClassID c = s.pick<mxClassID>({mxDOUBLE_CLASS, mxDOUBLE_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxCHAR_CLASS, mxCHAR_CLASS, mxLOGICAL_CLASS, mxLOGICAL_CLASS});
  std::vector<mwSize> d;
  if (s.chance(1, 3)) d = {1, 1};
  else for (size_t k = s.chance(1, 8) ? 3 : 2; k; --k) d.push_back(s.chance(1, 10) ? 0 : 1 + s.below(4));
  if (c == mxCHAR_CLASS && s.chance(1, 15)) d = {1, s.size(100, 6000)};  // a long text
  mxArray a = mx::make(c, d);
  switch (c) {
    case mxDOUBLE_CLASS: for (size_t i = 0; i < count(a); ++i) { const double v = s.anyDouble(); std::memcpy(&a.data[8 * i], &v, 8); } break;
    case mxSINGLE_CLASS: fill<float>(a, s); break;
    case mxINT8_CLASS: fill<int8_t>(a, s); break;
    case mxUINT16_CLASS: fill<uint16_t>(a, s); break;
    case mxINT32_CLASS: fill<int32_t>(a, s); break;
    case mxINT64_CLASS: fill<int64_t>(a, s); break;
    case mxUINT64_CLASS: fill<uint64_t>(a, s); break;
    case mxCHAR_CLASS: for (size_t i = 0, n = s.below(26); i < count(a); ++i) { const mxChar v = mxChar('a' + (i < 64 ? s.below(26) : (n + i * i) % 26)); std::memcpy(&a.data[2 * i], &v, 2); } break;
    default: for (size_t i = 0; i < count(a); ++i) a.data[i] = s.flip(); break;
  }
  return a;
}
bool bits(double a, double b) { return !std::memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
std::string show(int w) { return std::to_string(w); }
/// one literal of a MATLAB text in quotes; false when it is none
bool unquote(const std::string& q, std::string& t) {
  if (q.size() < 2 || q[0] != '\'' || q.back() != '\'') return false;
  for (size_t i = 1; i + 1 < q.size(); ++i) {
    if (q[i] == '\'') { if (i + 2 >= q.size() || q[i + 1] != '\'') return false; ++i; }
    t += q[i];
  }
  return true;
}
struct Hist {
  pbt::Source& s;
  std::unique_ptr<Eng> e;
  bool up = false;
  std::string text;
  void settle(const std::string& op) {
    text += op + "; ";
    PBT_CHECK(mx::world().misuse.empty(), mx::world().misuse << " after " << text);
    PBT_CHECK(mx::world().alive.empty(), mx::world().alive.size() << " arrays are never destroyed after " << text);
    PBT_CHECK(mx::world().engines.size() == size_t(up), mx::world().engines.size() << " engines are open instead of " << up << " after " << text);
  }
  template <class F> bool run(const std::string& op, int allowed, F f) {
    const int got = outcome(f);
    text += op + "; ";
    if (allowed == OK) PBT_CHECK(got == OK, op << " failed (" << got << ") in " << text);
    else { s.nontrivial(); PBT_CHECK(got & allowed, op << " gave " << got << " instead of one of " << allowed << " in " << text); }
    return got == OK;
  }
  int access(const std::string& n) const { return (up ? 0 : NOENGINE) | (legal(n) ? 0 : NAME); }
};
}  // namespace

PBT(histories, 120000, 1500000) {
  mx::World& w = mx::world();
  w = mx::World();
  Hist h{s, nullptr, false, ""};
  auto construct = [&] {
    h.e.reset();
    h.up = false;
    w.failOpen = s.chance(1, 8);
    alignas(Eng) static unsigned char room[sizeof(Eng)];
    switch (s.below(4)) {
      case 0: case 1: h.e.reset(new Eng()); break;
      case 2: h.e.reset(new Eng(true)); h.up = !w.failOpen; break;
      case 3: {  // in storage that held something else
        std::memset(room, 0x5a, sizeof room);
        Eng* p = new (room) Eng(false);
        PBT_CHECK(!p->isInitialized(), "an engine that was not started says it is");
        p->~Eng();
        h.e.reset(new Eng(false));
        break;
      }
    }
    w.failOpen = false;
    PBT_EQ(h.e->isInitialized(), h.up, "isInitialized of a new engine");
    h.settle("construct");
    if (!h.up && s.chance(3, 4)) { PBT_CHECK(h.e->initialize(), "initialize"); h.up = true; h.settle("initialize"); }
  };
  construct();
  for (size_t k = s.size(1, 30); k; --k) {
    Eng& e = *h.e;
    const std::string n = name(s), N = " " + pbt::show(n);
    const bool there = w.vars.count(n) > 0;
    const mxArray v = there ? w.vars[n] : mxArray();
    switch (s.below(20)) {
      case 0: {
        w.failOpen = s.chance(1, 4);
        const bool want = h.up || !w.failOpen;
        const int before = w.opened;
        PBT_EQ(e.initialize(), want, "initialize in " << h.text);
        PBT_EQ(w.opened, before + (!h.up && want), "engines opened by initialize in " << h.text);
        h.up = want;
        w.failOpen = false;
        h.settle("initialize");
        break;
      }
      case 1: if (s.chance(1, 3)) { w.failClose = s.chance(1, 4); PBT_EQ(e.stop(), !h.up || !w.failClose, "stop in " << h.text); h.up = false; w.failClose = false; h.settle("stop"); } break;
      case 2: if (s.chance(1, 4)) { w.failClose = s.chance(1, 3); h.e.reset(); h.up = false; h.settle("destroy"); w.failClose = false; construct(); } break;
      case 3: PBT_EQ(e.isInitialized(), h.up, "isInitialized in " << h.text); break;
      case 4: {
        w.failEval = s.chance(1, 4);
        PBT_EQ(e.good(), h.up && !w.failEval, "good in " << h.text);
        w.failEval = false;
        h.settle("good");
        break;
      }
      case 5: case 6: case 7: {  // what is put arrives
        w.failPut = s.chance(1, 12);
        int bad = h.access(n);
        if (!bad && (w.failPut || n.empty() || n[0] == '_')) bad = PUT;
        mxArray want;
        bool ok = false;
        switch (s.below(9)) {
          case 0: { const double x = s.anyDouble(); ok = h.run("put double" + N, bad, [&] { e.put(n, x); }); want = mx::make(mxDOUBLE_CLASS, {1, 1}); std::memcpy(want.data.data(), &x, 8); break; }
          case 1: { const int x = int(s.anyInt(-2147483648LL, 2147483647LL)); ok = h.run("put int" + N, bad, [&] { e.put(n, x); }); const double d = x; want = mx::make(mxDOUBLE_CLASS, {1, 1}); std::memcpy(want.data.data(), &d, 8); break; }
          case 2: { const uint64_t x = s.bits64(); ok = h.run("put uint64" + N, bad, [&] { e.put(n, x); }); const double d = double(x); want = mx::make(mxDOUBLE_CLASS, {1, 1}); std::memcpy(want.data.data(), &d, 8); break; }
          case 3: { const bool x = s.flip(); ok = h.run("put bool" + N, bad, [&] { e.put(n, x); }); want = mx::make(mxLOGICAL_CLASS, {1, 1}); want.data[0] = x; break; }
          case 4: { const std::string x = s.chance(1, 40) ? std::string(s.size(300, 9000), char('a' + s.below(26))) : s.str("abc XYZ'%", 300); ok = h.run("put text" + N, bad, [&] { e.put(n, x); }); want = mx::make(mxCHAR_CLASS, {x.empty() ? size_t(0) : 1, x.size()}); for (size_t i = 0; i < x.size(); ++i) want.data[2 * i] = (unsigned char)x[i]; break; }
          default: {
            const int r = int(s.below(5)), c = int(s.below(5));
            Eigen::MatrixXd M(r, c);
            for (int i = 0; i < M.size(); ++i) M.data()[i] = s.anyDouble();
            Eigen::MatrixXd D = M;
            switch (s.below(5)) {
              case 0: ok = h.run("putEigen" + N, bad, [&] { e.putEigen(n, M); }); break;
              case 1: D = M.transpose(); ok = h.run("putEigen transposed" + N, bad, [&] { e.putEigen(n, M.transpose()); }); break;
              case 2: { Eigen::MatrixXi I(r, c); for (int i = 0; i < I.size(); ++i) I.data()[i] = int(s.anyInt(-2147483648LL, 2147483647LL)); D = I.cast<double>(); ok = h.run("putEigen int" + N, bad, [&] { e.putEigen(n, I); }); break; }
              case 3: { Eigen::Matrix<float, 3, 1> f(float(s.real(1)), 2, 3); D = f.cast<double>(); ok = h.run("putEigen float" + N, bad, [&] { e.putEigen(n, f); }); break; }
              case 4: { Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> R = M; ok = h.run("putEigen by rows" + N, bad, [&] { e.putEigen(n, R); }); break; }
            }
            want = mx::make(mxDOUBLE_CLASS, {mwSize(D.rows()), mwSize(D.cols())});
            if (D.size()) std::memcpy(want.data.data(), D.data(), 8 * size_t(D.size()));
          }
        }
        w.failPut = false;
        if (ok) {
          PBT_CHECK(w.vars.count(n), "nothing arrived in " << h.text);
          const mxArray& g = w.vars[n];
          PBT_CHECK(g.cls == want.cls && g.dims == want.dims && g.data == want.data, "another value arrived in " << h.text);
        } else {
          PBT_CHECK((w.vars.count(n) > 0) == there && (!there || w.vars[n].data == v.data), "a refused put changed the variable in " << h.text);
        }
        h.settle("");
        break;
      }
      case 8: case 9: { s.nontrivial(); const std::string m = s.pick({"a", "b", "c", "M"}); w.vars[m] = variable(s); h.text += "MATLAB sets " + m + "; "; break; }
      case 10: {
        double x = 7.5;
        bool found = false;
        int bad = h.access(n);
        if (!bad && there) bad = (num(v.cls) ? 0 : TYPE) | (count(v) == 0 ? EMPTY : count(v) > 1 ? TYPE : 0);
        if (h.run("get double" + N, bad, [&] { found = e.get(n, x); })) {
          PBT_EQ(found, there, "found in " << h.text);
          mx::world().alive.insert(&v);
          if (there) { const double want = mxGetScalar(&v); PBT_CHECK(bits(x, want), "got " << x << " instead of " << want << " in " << h.text); }
          mx::world().alive.erase(&v);
          if (!there) PBT_EQ(x, 7.5, "a variable that does not exist changed the result");
        }
        h.settle("");
        break;
      }
      case 11: {
        std::string x = "before";
        bool found = false;
        int bad = h.access(n);
        if (!bad && there) bad = (v.cls == mxCHAR_CLASS ? 0 : TYPE) | (count(v) == 0 ? EMPTY : 0);
        if (h.run("get text" + N, bad, [&] { found = e.get(n, x); })) {
          PBT_EQ(found, there, "found in " << h.text);
          std::string want;
          if (there) for (size_t i = 0; i < count(v); ++i) want += char(v.data[2 * i]);
          else want = "before";
          PBT_EQ(x, want, "text in " << h.text);
        }
        h.settle("");
        break;
      }
      case 12: {
        bool x = false, y = true, found = false;
        int bad = h.access(n);
        if (!bad && there) bad = (v.cls == mxLOGICAL_CLASS ? 0 : TYPE) | (count(v) == 0 ? EMPTY : count(v) > 1 ? TYPE : 0);
        if (h.run("get bool" + N, bad, [&] { found = e.get(n, x) && e.get(n, y); })) {
          PBT_EQ(found, there, "found in " << h.text);
          if (there) PBT_CHECK(x == (v.data[0] != 0) && y == x, "truth value in " << h.text);
        }
        h.settle("");
        break;
      }
      case 13: case 14: {
        Eigen::MatrixXd M = Eigen::MatrixXd::Constant(2, 3, 4.0);
        bool found = false;
        int bad = h.access(n);
        if (!bad && there) bad = (v.cls == mxDOUBLE_CLASS ? 0 : TYPE) | (count(v) == 0 ? EMPTY : 0) | (v.dims.size() != 2 ? SIZE : 0);
        if (h.run("getEigen" + N, bad, [&] { found = e.getEigen(n, M); })) {
          PBT_EQ(found, there, "found in " << h.text);
          if (there) {
            PBT_CHECK(size_t(M.rows()) == v.dims[0] && size_t(M.cols()) == v.dims[1], M.rows() << "x" << M.cols() << " in " << h.text);
            PBT_CHECK(!std::memcmp(M.data(), v.data.data(), v.data.size()), "another matrix in " << h.text);
          } else PBT_CHECK(M.rows() == 2 && M.cols() == 3, "a variable that does not exist changed the result");
        }
        h.settle("");
        break;
      }
      case 15: case 16: {
        const int bad = h.access(n), miss = bad ? bad : there ? 0 : MISSING;
        bool r = false;
        switch (s.below(5)) {
          case 0: if (h.run("exists" + N, bad, [&] { r = e.exists(n); })) PBT_EQ(r, there, "exists in " << h.text); break;
          case 1: if (h.run("isScalar" + N, miss, [&] { r = e.isScalar(n); })) PBT_EQ(r, count(v) == 1, "isScalar in " << h.text); break;
          case 2: if (h.run("isEmpty" + N, miss, [&] { r = e.isEmpty(n); })) PBT_EQ(r, count(v) == 0, "isEmpty in " << h.text); break;
          case 3: if (h.run("isCharOrString" + N, miss, [&] { r = e.isCharOrString(n); })) PBT_EQ(r, v.cls == mxCHAR_CLASS, "isCharOrString in " << h.text); break;
          case 4: {
            size_t rows = 77, cols = 78;
            if (h.run("getDimensions" + N, bad, [&] { r = e.getDimensions(n, rows, cols); })) {
              PBT_EQ(r, there, "getDimensions in " << h.text);
              size_t rest = 1;
              for (size_t i = 1; i < v.dims.size(); ++i) rest *= v.dims[i];
              PBT_CHECK(there ? rows == v.dims[0] && cols == rest : rows == 77 && cols == 78, "dimensions " << rows << "x" << cols << " in " << h.text);
            }
          }
        }
        h.settle("");
        break;
      }
      case 17: {
        const std::string c = s.str("abc=1;()", 20);
        const size_t len = s.pick<size_t>({0, 1, 2, 10, 250, 254, 255, 256, 257, 258, 300, 5000});
        w.answer = std::string(len, 'x');
        for (size_t i = 0; i < std::min<size_t>(len, 20); ++i) w.answer[i] = s.pick({'x', 'y', '\n', ' '});
        const bool line = s.flip();
        if (!w.answer.empty()) w.answer.back() = line ? '\n' : 'z';
        w.failEval = s.chance(1, 8);
        std::string got;
        const size_t before = w.commands.size();
        if (h.run("executeCommand", h.up ? (w.failEval ? EXEC : OK) : NOENGINE, [&] { got = e.executeCommand(c); })) {
          PBT_CHECK(w.commands.size() == before + 1 && w.commands.back() == c, "the command is not the one that was given in " << h.text);
          std::string want = w.answer;
          if (!want.empty() && want.back() == '\n') want.pop_back();
          if (w.answer.size() <= 256) PBT_EQ(got, want, "answer in " << h.text);
          else PBT_CHECK(got.size() >= 255 && want.compare(0, got.size(), got) == 0, "the answer is no beginning of what MATLAB printed in " << h.text);
        }
        w.failEval = false;
        h.settle("");
        break;
      }
      case 18: {
        const std::string d = s.chance(1, 4) ? s.pick({"it's", "'", "a''b", "c:\\x'y"}) : s.str("abc/ .-_", 20);
        const size_t before = w.commands.size();
        w.answer = "";
        if (h.run("changeWorkingDirectory " + pbt::show(d), h.up ? OK : NOENGINE, [&] { e.changeWorkingDirectory(d); })) {
          PBT_CHECK(w.commands.size() == before + 1, "no single command in " << h.text);
          std::string c = w.commands.back(), t;
          const size_t a = c.find('\''), b = c.rfind('\'');
          PBT_CHECK(c.compare(0, 2, "cd") == 0 && a != c.npos && unquote(c.substr(a, b - a + 1), t) && t == d, "MATLAB is told " << pbt::show(c) << " for " << pbt::show(d));
        }
        h.settle("");
        break;
      }
      case 19: {
        if (!s.chance(1, 3) || !h.up) break;
        std::string input;
        std::vector<std::string> want;
        bool quit = false;
        for (size_t i = s.below(4); i; --i) {
          const std::string c = s.chance(1, 6) ? s.pick({"exit", "quit"}) : s.chance(1, 6) ? std::string(s.pick<size_t>({253, 254, 255, 256, 600}), 'c') : s.str("abc=1;", 20);
          if (!quit) { if (c == "exit" || c == "quit") quit = true; else want.push_back(c); }
          input += c;
          if (i > 1 || s.flip()) input += "\n";
          else if (c.empty() && !quit && !want.empty()) want.pop_back();  // nothing at all after the last line end
        }
        const std::string f = pbt::scratch() + "/stdin", o = pbt::scratch() + "/stdout";
        { std::ofstream t(f, std::ios::binary); t.write(input.data(), std::streamsize(input.size())); }
        const size_t before = w.commands.size();
        w.answer = "";
        std::cout.flush(); std::fflush(stdout);
        const int so = ::dup(1), fo = ::open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::dup2(fo, 1); ::close(fo);
        if (!std::freopen(f.c_str(), "r", stdin)) PBT_FAIL("freopen");
        std::cin.clear();
        const int got = outcome([&] { e.openCommandLine(); });
        std::cout.flush(); std::fflush(stdout);
        ::dup2(so, 1); ::close(so);
        PBT_EQ(got, int(OK), "openCommandLine in " << h.text);
        const std::vector<std::string> g(w.commands.begin() + long(before), w.commands.end());
        std::string gs, ws;
        for (auto& c : g) gs += pbt::show(c) + " ";
        for (auto& c : want) ws += pbt::show(c) + " ";
        PBT_CHECK(g == want, "of the input " << pbt::show(input) << " MATLAB was given " << gs << "instead of " << ws);
        h.settle("openCommandLine");
        break;
      }
    }
  }
  w.failClose = s.chance(1, 8);
  h.e.reset();
  h.up = false;
  h.settle("destroy");
}
