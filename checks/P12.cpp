// P12: matrix archives survive save and load bit-exactly, in the documented format.
#include "mar.hpp"
#include "locales.hpp"
#include "filelimit.hpp"
PBT_PROPERTY("P12",
             "Archives of up to eight entries: matrices of every small size (empty ones included) and up to 400x400 with arbitrary doubles (NaN payloads, infinities, denormals), "
             "strings of arbitrary bytes up to 400 kB; name filters that hit, miss or contain foreign names; saving, appending, merging and overwriting, "
             "with files written and parsed by an independent implementation of the block format. A case is non-trivial when the archive has at least two entries.")
using namespace mar;
using sm::MatrixArchive;
typedef std::set<std::string> Names;

static Model content(pbt::Source& s, size_t max) {
  Model m;
  size_t n = s.size(0, max);
  for (size_t i = 0; i < n; ++i) m[name(s)] = anyValue(s);
  return m;
}
static void fill(MatrixArchive& a, const Model& m) { for (const auto& e : m) put(a, e.first, e.second); }
static Names filter(pbt::Source& s, const Model& m) {
  Names f;
  if (s.flip()) return f;
  s.label("filtered");
  for (const auto& e : m) if (s.flip()) f.insert(e.first);
  if (s.flip()) f.insert("notThere");
  if (f.empty()) f.insert(name(s));
  return f;
}
static Model restricted(const Model& m, const Names& f) { Model r; for (const auto& e : m) if (f.empty() || f.count(e.first)) r[e.first] = e.second; return r; }
static Model merged(Model a, const Model& b) { for (const auto& e : b) a[e.first] = e.second; return a; }
static void note(pbt::Source& s, const char* w, const Model& m) { if (!s.describing()) return; s.notes() << w << " {"; for (const auto& e : m) s.notes() << e.first << "=" << show(e.second) << " "; s.notes() << "}; "; }
static std::string path(const char* n) { return pbt::scratch() + "/" + n; }

static void saveFile(pbt::Source& s, const MatrixArchive& a, const std::string& p, const Names& f) {
  if (f.empty() && s.flip()) { if (s.flip()) a.save(p); else a.save(boost::filesystem::path(p)); }
  else if (s.flip()) a.save(boost::filesystem::path(p), f);
  else { std::ofstream o(p.c_str(), std::ios::binary); a.save(o, f); }
}
static void loadFile(pbt::Source& s, MatrixArchive& a, const std::string& p, const Names& f) {
  if (f.empty() && s.flip()) { if (s.flip()) a.load(p); else a.load(boost::filesystem::path(p)); }
  else a.load(boost::filesystem::path(p), f);
}
static std::string encode(pbt::Source& s, const Model& m, bool shuffle) {
  std::vector<std::string> names;
  for (const auto& e : m) names.push_back(e.first);
  std::string d;
  std::vector<size_t> p = s.permutation(names.size());
  for (size_t i = 0; i < names.size(); ++i) { const std::string& n = names[shuffle ? p[i] : i]; d += block(n, m.at(n), !shuffle || s.flip()); }
  return d;
}
/// what the bytes of a file mean, later blocks winning
static Model meaning(const std::string& d, const char* what) {
  std::vector<Block> b;
  size_t end = parse(d, b);
  PBT_CHECK(end == d.size(), what << ": the file follows the block format, broken at byte " << end << " of " << d.size());
  Model m;
  for (const Block& x : b) m[x.name] = x.v;
  return m;
}

PBT(save_and_load, 6000, 60000) {
  Model m = content(s, 8);
  if (m.size() > 1) s.nontrivial();
  note(s, "archive", m);
  MatrixArchive a, b;
  fill(a, m);
  Names f = filter(s, m), g = filter(s, m);
  std::string p = path("a.ama");
  if (s.flip()) spill(p, std::string(s.below(5000), 'A'));  // overwritten
  saveFile(s, a, p, f);
  same(dump(a), m, "saving leaves the archive alone");
  Model w = restricted(m, f);
  same(meaning(slurp(p), "written"), w, "parsed independently");
  std::vector<Block> blocks;
  parse(slurp(p), blocks);
  PBT_EQ(blocks.size(), w.size(), "one block per entry");
  loadFile(s, b, p, g);
  same(dump(b), restricted(w, g), "loaded");
  PBT_EQ(b.size(), restricted(w, g).size(), "number of entries");
}

// archives of hundreds of entries, written and read in one go, in part and piece by piece
PBT(many_entries, 300, 3000) {
  const size_t n = s.size(9, 600);
  const uint64_t k = s.bits64() | 1;
  PBT_NOTE(s, n << " entries");
  s.nontrivial();
  Model m;
  for (size_t i = 0; i < n; ++i) {
    std::string e = "e" + std::to_string(i);
    const uint64_t h = k * (i + 1) >> 32;
    if (h % 5 == 0) e += std::string(32 - e.size(), 'x');  // the longest name
    if (h % 3 == 0) m[e] = of(std::string(h % 40, char('a' + h % 26)));
    else m[e] = of(Eigen::MatrixXd(Eigen::MatrixXd::Constant(long(h % 4), long(h / 4 % 4), double(h))));
  }
  MatrixArchive a, b, c;
  fill(a, m);
  PBT_EQ(a.size(), m.size(), "number of entries");
  const std::string p = path("many.ama");
  saveFile(s, a, p, Names());
  same(meaning(slurp(p), "written"), m, "parsed independently");
  loadFile(s, b, p, Names());
  same(dump(b), m, "loaded");
  Names f;
  for (const auto& e : m) if (k * (e.first.size() + uint64_t(e.first[1])) >> 60 & 1) f.insert(e.first);
  if (f.empty()) return;
  a.save(boost::filesystem::path(p), f);
  c.load(boost::filesystem::path(p));
  same(dump(c), restricted(m, f), "loaded what the filter had let through");
}

PBT(foreign_files, 6000, 60000) {
  Model m = content(s, 8), old = content(s, 4);
  if (m.size() > 1) s.nontrivial();
  note(s, "file", m);
  note(s, "archive", old);
  std::string d = encode(s, m, true), p = path("f.ama");
  if (s.chance(1, 3) && !m.empty()) {  // a repeated name: the later block counts
    std::string n = m.begin()->first;
    d = block(n, anyValue(s)) + d;
    s.label("repeated name");
  }
  spill(p, d);
  MatrixArchive a;
  fill(a, old);
  Names g = filter(s, merged(old, m));
  loadFile(s, a, p, g);
  same(dump(a), merged(old, restricted(m, g)), "merged, loaded entries replacing those of the same name");
  PBT_CHECK(slurp(p) == d, "loading leaves the file alone");
}

PBT(appending, 6000, 60000) {
  std::string p = path("h.ama");
  std::remove(p.c_str());
  Model expect;
  size_t rounds = s.size(1, 4);
  if (s.flip()) { expect = content(s, 4); spill(p, encode(s, expect, false)); }
  for (size_t i = 0; i < rounds; ++i) {
    Model m = content(s, 4);
    note(s, "append", m);
    if (m.size() > 1) s.nontrivial();
    MatrixArchive a;
    fill(a, m);
    Names f = filter(s, m);
    std::string before = slurp(p);
    bool app = s.chance(4, 5);
    if (app) {
      if (f.empty() && s.flip()) { if (s.flip()) a.append(p); else a.append(boost::filesystem::path(p)); }
      else a.append(boost::filesystem::path(p), f);
      expect = merged(expect, restricted(m, f));
      PBT_CHECK(slurp(p).compare(0, before.size(), before) == 0, "what was in the file stays");
    } else {
      a.save(boost::filesystem::path(p), f);
      expect = restricted(m, f);
    }
    same(dump(a), m, "appending leaves the archive alone");
    same(meaning(slurp(p), "appended"), expect, "parsed independently");
    MatrixArchive b;
    b.load(p);
    same(dump(b), expect, "loaded");
  }
}

PBT(stream_output, 6000, 60000) {
  Model m = content(s, 6);
  if (m.size() > 1) s.nontrivial();
  note(s, "archive", m);
  MatrixArchive a;
  fill(a, m);
  Names f = filter(s, m);
  std::ostringstream o;
  std::string pre = s.bytes(5);
  o << pre;
  // whatever the stream was formatted for before
  if (s.flip()) o.fill(s.pick({'*', '0', '\0', ' '}));
  if (s.flip()) o << std::hex << std::showbase << std::uppercase << std::showpos;
  if (s.flip()) o.precision(1);
  a.save(o, f);
  PBT_CHECK(o.str().compare(0, pre.size(), pre) == 0, "prefix stays");
  same(meaning(o.str().substr(pre.size()), "stream"), restricted(m, f), "parsed independently");
  // the documented layout, entry by entry
  std::vector<Block> b;
  std::string d = o.str().substr(pre.size());
  parse(d, b);
  std::string again;
  for (const Block& x : b) again += block(x.name, x.v);
  PBT_CHECK(again == d, "names are right-aligned in 32 characters padded with spaces");
}

PBT(unwritable, 500, 5000) {
  Model m = content(s, 4);
  m["a"] = anyValue(s);
  s.nontrivial();
  MatrixArchive a;
  fill(a, m);
  std::string none = path("none") + "/x.ama";
  PBT_THROWS(a.save(none), sm::MatrixArchiveException, "missing directory");
  PBT_THROWS(a.append(none), sm::MatrixArchiveException, "missing directory");
  PBT_THROWS(a.load(none), sm::MatrixArchiveException, "missing file");
  PBT_THROWS(a.save(std::string("/dev/full")), sm::MatrixArchiveException, "no space left");
  PBT_THROWS(a.append(std::string("/dev/full")), sm::MatrixArchiveException, "no space left");
  std::ostringstream o;
  o.setstate(std::ios::badbit);
  PBT_THROWS(a.save(o, Names()), sm::MatrixArchiveException, "broken stream");
  same(dump(a), m, "unchanged");
}

// a disk that runs full: the archive is either written completely or the failure is reported
PBT(full_disk, 3000, 40000) {
  Model m = content(s, 6), before = content(s, 3);
  m["a"] = anyValue(s);
  before["b"] = anyValue(s);
  MatrixArchive a, b;
  fill(a, m);
  fill(b, before);
  const std::string p = path("full"), q = path("fits");
  const bool append = s.flip();
  auto write = [&](const std::string& to) {
    boost::filesystem::remove(to);
    b.save(to);
    return [&a, append, to]() { if (append) a.append(to); else a.save(to); };
  };
  write(q)();
  auto job = write(p);
  const size_t had = slurp(p).size(), size = slurp(q).size(), room = s.flip() ? size_t(s.below(size + 1)) : s.chance(1, 3) ? size + size_t(s.below(3)) : size - std::min(size, size_t(s.below(40)));
  PBT_NOTE(s, (append ? "append to " : "save over ") << had << " bytes: " << size << " bytes, room for " << room);
  s.label(room < size ? "full" : "fits");
  s.nontrivial();
  bool reported = false;
  {
    FileLimit limit(room);
    try { job(); } catch (const sm::MatrixArchiveException&) { reported = true; }
  }
  PBT_CHECK(reported == (room < size), (reported ? "refused, although there is room" : "the file is truncated, which is not reported"));
  if (!reported) PBT_CHECK(slurp(p) == slurp(q), "the whole file is written");
  else if (append) PBT_CHECK(slurp(p).compare(0, had, slurp(q), 0, had) == 0, "what was there before is kept");
  same(dump(a), m, "unchanged");
}

// written in a program of one locale and read in a program of another
PBT(locales, 1000, 10000) {
  Model m = content(s, 8);
  m["a"] = anyValue(s);
  s.nontrivial();
  MatrixArchive a, b;
  fill(a, m);
  const std::string p = path("locale");
  const bool w = s.flip(), r = s.flip();
  PBT_NOTE(s, "other locale when writing: " << w << ", when reading: " << r);
  { OtherLocale l(w); a.save(p); }
  same(meaning(slurp(p), "the file"), m, "the bytes");
  { OtherLocale l(r); b.load(p); }
  same(dump(b), m, "reloaded");
}
