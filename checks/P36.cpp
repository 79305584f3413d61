// P36: lsma lists what the archives hold.
#include "mar.hpp"
#include <fcntl.h>
#include <iostream>
#include <limits>
#include <unistd.h>
PBT_PROPERTY("P36",
             "A case writes one to three archive files by an independent writer (blocks of both kinds, names replaced later in the file, damage) and runs lsma's main on them; what it prints on its "
             "standard output is read back. A case is non-trivial when at least two entries are listed, a file is missing or damaged, or a name occurs twice.")
int lsma_main(int, char**);
namespace {
struct Run { int status; bool threw; std::string out, err; };
Run lsma(const std::vector<std::string>& args) {
  Run r{0, false, "", ""};
  std::vector<std::string> a(1, "lsma");
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& x : a) argv.push_back(&x[0]);
  argv.push_back(nullptr);
  const std::string fo = pbt::scratch() + "/out", fe = pbt::scratch() + "/err";
  std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
  const int so = ::dup(1), se = ::dup(2), o = ::open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = ::open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  ::dup2(o, 1); ::dup2(e, 2); ::close(o); ::close(e);
  try {
    r.status = lsma_main(int(a.size()), argv.data());
  } catch (const std::exception&) {
    r.threw = true;  // the program ends by std::terminate
  }
  std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
  ::dup2(so, 1); ::dup2(se, 2); ::close(so); ::close(se);
  std::ifstream i(fo, std::ios::binary), j(fe, std::ios::binary);
  r.out.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
  r.err.assign(std::istreambuf_iterator<char>(j), std::istreambuf_iterator<char>());
  return r;
}
void expect(const std::string& out, size_t& p, const std::string& want, const std::string& what) {
  PBT_CHECK(out.compare(p, want.size(), want) == 0, what << ": expected " << pbt::show(want.substr(0, 300)) << " at " << p << ", found " << pbt::show(out.substr(p, 300)));
  p += want.size();
}
/// reads the listing of one archive
void listing(const std::string& out, size_t& p, const std::string& prefix, const mar::Model& m) {
  for (auto& e : m)
    if (e.second.isString) expect(out, p, prefix + e.first + " : " + e.second.text + "\n", "string " + e.first);
  for (auto& e : m) {
    const mar::Value& v = e.second;
    if (v.isString) continue;
    expect(out, p, prefix + e.first + " :\n", "matrix " + e.first);
    if (v.data.empty()) {  // nothing but line ends
      const size_t n = std::max<size_t>(1, v.rows);
      size_t k = 0;
      while (k < n && p < out.size() && out[p] == '\n') { ++p; ++k; }
      PBT_CHECK(k > 0, "an empty matrix is not ended: " << pbt::show(out.substr(p, 100)));
      continue;
    }
    for (uint32_t i = 0; i < v.rows; ++i) {
      const size_t nl = out.find('\n', p);
      PBT_CHECK(nl != out.npos, "row " << i << " of " << e.first << " is missing");
      std::istringstream row(out.substr(p, nl - p));
      p = nl + 1;
      std::string t;
      uint32_t j = 0;
      for (; row >> t; ++j) {
        PBT_CHECK(j < v.cols, "row " << i << " of " << e.first << " has more than " << v.cols << " numbers");
        const double want = v.data[i + size_t(j) * v.rows];
        char* end;
        const double got = std::strtod(t.c_str(), &end);
        PBT_CHECK(!*end, "not a number: " << pbt::show(t));
        if (std::isnan(want) || std::isnan(got)) PBT_CHECK(std::isnan(want) && std::isnan(got), e.first << "(" << i << "," << j << ") is listed as " << t << " instead of " << want);
        else PBT_CHECK(got == want || std::fabs(got - want) <= 5.001e-6 * std::fabs(want) + std::numeric_limits<double>::denorm_min(), e.first << "(" << i << "," << j << ") is listed as " << t << " instead of " << want);
      }
      PBT_CHECK(j == v.cols, "row " << i << " of " << e.first << " has " << j << " numbers instead of " << v.cols);
    }
  }
}
}  // namespace

PBT(listing, 12000, 150000) {
  const size_t nf = s.chance(1, 40) ? 0 : s.size(1, 3);
  std::vector<std::string> paths;
  std::vector<mar::Model> models;
  std::vector<bool> good;
  size_t entries = 0;
  for (size_t f = 0; f < nf; ++f) {
    const std::string path = pbt::scratch() + "/" + s.pick({"a", "b c", "d:e", "\xc3\xa9"}) + std::to_string(f) + ".ama";
    ::unlink(path.c_str());
    mar::Model m;
    std::string bytes;
    for (size_t n = s.size(0, 5); n; --n) {
      std::string name = s.chance(1, 8) ? std::string(32, 'n') : s.pick({"a", "b", "C", "zz_1", "name_of_entry"});
      mar::Value v;
      v.isString = s.chance(1, 3);
      if (v.isString) v.text = s.flip() ? s.str("abc :\n%", 20) : s.bytes(12);
      else {
        v.rows = uint32_t(s.below(5));
        v.cols = uint32_t(s.below(5));
        for (size_t k = 0; k < size_t(v.rows) * v.cols; ++k) v.data.push_back(s.anyDouble());
      }
      if (m.count(name)) s.nontrivial();
      m[name] = v;
      bytes += mar::block(name, v, s.flip());
    }
    bool ok = true;
    const int harm = int(s.below(12));
    if (harm == 0) { ok = false; }  // the file does not exist
    else {
      if (harm == 1 && !bytes.empty()) { bytes.resize(bytes.size() - 1 - s.below(std::min<size_t>(bytes.size() - 1, 40) + (bytes.size() == 1 ? 1 : 0))); std::vector<mar::Block> b; ok = mar::parse(bytes, b) == bytes.size(); if (ok) { m.clear(); for (auto& x : b) m[x.name] = x.v; } }
      std::ofstream o(path, std::ios::binary);
      o.write(bytes.data(), std::streamsize(bytes.size()));
    }
    if (!ok) s.nontrivial();
    paths.push_back(path);
    models.push_back(m);
    good.push_back(ok);
    if (ok) entries += m.size();
  }
  if (entries >= 2) s.nontrivial();
  auto contents = [&](const std::string& f) { std::ifstream i(f, std::ios::binary); return i ? "+" + std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()) : std::string(); };
  std::vector<std::string> before;
  for (auto& f : paths) before.push_back(contents(f));
  const Run r = lsma(paths);
  for (size_t f = 0; f < nf; ++f) PBT_CHECK(contents(paths[f]) == before[f], "the listed file " << paths[f] << " changed");
  if (nf == 0) {
    PBT_CHECK(!r.threw && r.status != 0 && r.out.empty() && r.err.find("USAGE") != r.err.npos, "without arguments: status " << r.status << ", " << pbt::show(r.err));
    return;
  }
  size_t p = 0;
  bool failed = false;
  for (size_t f = 0; f < nf && !failed; ++f) {
    if (!good[f]) { failed = true; break; }
    listing(r.out, p, nf > 1 ? paths[f] + ":" : std::string(), models[f]);
  }
  if (failed) PBT_CHECK(r.threw || r.status != 0, "a file that cannot be read is not reported");
  else PBT_CHECK(!r.threw && r.status == 0, "status " << r.status << (r.threw ? ", an exception" : "") << " on good files");
  if (!failed) PBT_CHECK(p == r.out.size(), "more than the entries is printed: " << pbt::show(r.out.substr(p, 300)));
}
