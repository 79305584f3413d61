// P13: loading a damaged or foreign matrix archive fails cleanly.
#include "mar.hpp"
PBT_PROPERTY("P13",
             "Byte sequences made from valid archives by truncation at every kind of position, byte changes, insertions, removals, hostile sizes (up to 2^32-1) and block splices, arbitrary bytes, "
             "and (thorough) coverage-guided fuzzing, loaded into empty and filled archives with and without a name filter; the oracle is an independent parser. A case is "
             "non-trivial when at least one whole block precedes the damage or the damage is inside a block.")
using namespace mar;
using sm::MatrixArchive;
typedef std::set<std::string> Names;

static void loadBytes(pbt::Source& s, const std::string& d, const Names& f) {
  std::string p = pbt::scratch() + "/d.ama";
  spill(p, d);
  MatrixArchive a;
  Model before;
  if (s.flip()) { before["keep"] = of(std::string("old")); before["a"] = anyValue(s); for (const auto& e : before) put(a, e.first, e.second); }
  bool threw = false;
  try {
    a.load(boost::filesystem::path(p), f);
  } catch (const sm::MatrixArchiveException&) {
    threw = true;
  }
  // what may be in the archive: the blocks before the first damage, in order
  std::vector<Block> b;
  size_t end = parse(d, b);
  Model want = before;
  bool bad = end != d.size(), unsure = false;
  if (!b.empty() || end < d.size()) s.nontrivial();
  for (const Block& x : b) {
    if (!f.empty() && !f.count(x.name)) { if (x.name.find_first_of(std::string("\t\n\v\f\r\0", 6)) != std::string::npos) unsure = true; continue; }
    if (!legal(x.name)) {
      // surrounding white space other than blanks, or a name ended early, may or may not be tolerated
      if (x.name.find_first_of(std::string("\t\n\v\f\r\0", 6)) != std::string::npos) unsure = true;
      bad = true;
      break;
    }
    want[x.name] = x.v;
  }
  for (const Block& x : b) if (uint64_t(x.v.rows) * x.v.cols == 0 && (x.v.rows > 100000 || x.v.cols > 100000)) unsure = true;  // absurd but empty
  s.label(bad ? "damaged" : "valid");
  if (!unsure) {
    PBT_CHECK(threw == bad, (bad ? "damage is reported" : "a valid file loads"));
    same(dump(a), want, bad ? "blocks before the damage are exact" : "loaded");
  } else {
    s.label("tolerance case");
    for (const auto& e : dump(a)) {
      bool known = before.count(e.first) && before.at(e.first) == e.second;
      for (const Block& x : b) known = known || (x.v == e.second && x.name.find(e.first) != std::string::npos);
      PBT_CHECK(known, "entry " << e.first << " = " << show(e.second) << " comes from the bytes");
    }
  }
  // still usable
  a.setScalar("after", 2);
  a.setString("keep", "new");
  Model now = dump(a);
  std::string q = pbt::scratch() + "/e.ama";
  a.save(q);
  MatrixArchive c;
  c.load(q);
  same(dump(c), now, "the archive stays usable");
}

static std::string damaged(pbt::Source& s) {
  std::string d;
  size_t n = s.size(0, 4);
  std::vector<size_t> starts;
  for (size_t i = 0; i < n; ++i) { starts.push_back(d.size()); d += block(s.chance(1, 12) ? s.pick({"1a", "a b", "", "a\tb", "-"}) : name(s), anyValue(s), s.flip()); }
  size_t edits = s.size(0, 3);
  for (size_t i = 0; i < edits && !d.empty(); ++i) {
    size_t at = s.below(d.size());
    if (s.flip() && !starts.empty()) at = std::min(d.size() - 1, s.pick(starts) + s.below(48));
    switch (s.below(8)) {
      case 0: d.resize(at); PBT_NOTE(s, "cut at " << at); break;
      case 1: d[at] = char(d[at] ^ (1 << s.below(8))); PBT_NOTE(s, "bit at " << at); break;
      case 2: d[at] = char(s.below(256)); PBT_NOTE(s, "byte at " << at); break;
      case 3: d.erase(at, s.size(1, 10)); PBT_NOTE(s, "erased at " << at); break;
      case 4: d.insert(at, s.bytes(10)); PBT_NOTE(s, "inserted at " << at); break;
      case 5: case 6: {  // a size field
        if (starts.empty()) break;
        size_t f = s.pick(starts) + 33 + 4 * s.below(2);
        uint32_t x = s.pick({0xffffffffu, 0x80000000u, 0x7fffffffu, 0x10000u, 0x20000000u, 0x40000000u, 1u, 0u, 2u, 100000u});
        if (s.chance(1, 4)) x = uint32_t(s.bits64());
        if (f + 4 <= d.size()) for (int k = 0; k < 4; ++k) d[f + size_t(k)] = char(x >> (8 * k));
        if (s.flip() && f + 8 <= d.size()) { uint32_t y = s.pick({0xffffffffu, 0x80000000u, 0x10000u, 0x20000000u, 0u, 8u}); for (int k = 0; k < 4; ++k) d[f + 4 + size_t(k)] = char(y >> (8 * k)); }
        PBT_NOTE(s, "size " << x);
        break;
      }
      default: d += s.pick({"A", "S", "B", "X", "\n"}); break;
    }
  }
  return d;
}
static Names filter(pbt::Source& s) { Names f; if (s.chance(1, 4)) { f.insert("a"); f.insert("matrix"); if (s.flip()) f.insert("C"); } return f; }
static pbt::Options opts(bool fuzz) { pbt::Options o; o.fuzz = fuzz; o.hang_s = 20; return o; }

PBT(damaged_archives, 25000, 300000, opts(false)) {
  std::string d = damaged(s);
  PBT_NOTE(s, pbt::show(d.substr(0, 300)) << " (" << d.size() << ")");
  loadBytes(s, d, filter(s));
}
PBT(every_truncation, 1500, 20000, opts(false)) {
  std::string d = block("a", anyValue(s)) + block(name(s), anyValue(s));
  if (d.size() > 2000) d.resize(2000);
  size_t at = s.below(d.size() + 1), k = s.size(1, 20);
  for (size_t i = 0; i < k && at + i <= d.size(); ++i) loadBytes(s, d.substr(0, at + i), Names());
}
PBT(arbitrary_bytes, 20000, 200000, opts(true)) {
  std::string d = s.bytes(200);
  if (s.flip()) d = s.pick({"A", "S"}) + std::string(s.below(32), ' ') + d;
  loadBytes(s, d, filter(s));
}
PBT(not_a_file, 50, 200) {
  s.nontrivial();
  MatrixArchive a;
  a.setScalar("x", 1);
  PBT_THROWS(a.load(pbt::scratch()), sm::MatrixArchiveException, "a directory");
  PBT_THROWS(a.load(pbt::scratch() + "/nothing" + std::to_string(s.below(1000))), sm::MatrixArchiveException, "missing");
  PBT_CHECK(a.size() == 1 && a.getScalar("x") == 1, "unchanged");
}
