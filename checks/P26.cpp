// P26: HashId and Id round trips, order, hashing.
#include "pbt.hpp"
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include "selfrun.hpp"
#include <unordered_set>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/unordered_set.hpp>
#include <sm/Id.hpp>
#include <sm/hash_id.hpp>

namespace verif {
SM_DEFINE_ID(CamId);
SM_DEFINE_ID(FrameId);
class DerivedHash : public sm::HashId {};
}  // namespace verif
SM_DEFINE_ID_HASH(verif::CamId);
SM_DEFINE_HASHID_HASH(verif::DerivedHash);

PBT_PROPERTY("P26",
             "128-bit values are drawn from bit patterns, single bits, repeated bytes and neighbours of another id; hexadecimal text is "
             "drawn from valid ids, mutated ids and arbitrary strings; integer ids from edges and uniform 64-bit values, with archive "
             "format chosen. A case is non-trivial when it exercises ids differing in at most one 64-bit half, malformed text, a wrap-around "
             "or an archive round trip.")

using sm::HashId;
using U = uint64_t;

static U word(pbt::Source& s) {
  switch (s.below(5)) {
    case 0: return s.below(3);
    case 1: return ~s.below(3);
    case 2: return U(1) << s.below(64);
    case 3: { U b = s.below(256), v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | b; return v; }
    default: return s.bits64();
  }
}
struct W { U a, b; };
static W words(pbt::Source& s) { W w; w.a = word(s); w.b = word(s); return w; }
static HashId mk(W w) { U x[2] = {w.a, w.b}; return HashId(x); }

PBT(hash_round_trip, 40000, 600000) {
  W w = words(s);
  HashId h = mk(w);
  PBT_NOTE(s, std::hex << w.a << ":" << w.b);
  if (w.a != w.b) s.nontrivial();
  U o[2] = {1, 2};
  h.toUint64(o);
  PBT_CHECK(o[0] == w.a && o[1] == w.b, "toUint64");
  PBT_EQ(h.isValid(), (w.a != 0 || w.b != 0), "validity");
  std::string x = h.hexString();
  PBT_EQ(x.size(), size_t(32), "hex length");
  PBT_CHECK(x.find_first_not_of("0123456789abcdef") == std::string::npos, x);
  HashId g;
  PBT_CHECK(!g.isValid(), "default id is invalid");
  PBT_CHECK(g.fromHexString(x), "own hex accepted");
  PBT_CHECK(g == h && !(g != h), "hex round trip " << x << " -> " << g.hexString());
  std::string up = x;
  for (char& c : up) c = char(std::toupper(c));
  HashId g2;
  PBT_CHECK(g2.fromHexString(up) && g2 == h, "upper case hex");
  std::ostringstream os;
  os << h;
  PBT_EQ(os.str(), x, "stream");
  HashId c(h), d;
  d = h;
  PBT_CHECK(c == h && d == h, "copies");
  c.fromUint64(o);
  PBT_CHECK(c == h, "fromUint64");
  c.setInvalid();
  PBT_CHECK(!c.isValid() && c == HashId() && c.hexString() == std::string(32, '0'), "setInvalid");
}

PBT(hash_hex_value, 4000, 40000) {  // hexadecimal text denotes the bytes of the id, two digits per byte, in memory order
  W w = words(s);
  HashId h = mk(w);
  s.nontrivial();
  unsigned char b[16];
  U x[2] = {w.a, w.b};
  std::memcpy(b, x, 16);
  std::string e = pbt::hex(std::string(reinterpret_cast<char*>(b), 16));
  PBT_NOTE(s, e);
  PBT_EQ(h.hexString(), e, "");
}

PBT(hash_order, 60000, 900000) {
  W a = words(s), b = words(s);
  switch (s.below(5)) {
    case 0: b = a; break;
    case 1: b.a = a.a; s.nontrivial(); break;
    case 2: b.b = a.b; s.nontrivial(); break;
    case 3: b = a; (s.flip() ? b.a : b.b) ^= U(1) << s.below(64); s.nontrivial(); break;
    default: break;
  }
  W c = s.flip() ? words(s) : W{a.a, b.b};
  HashId x = mk(a), y = mk(b), z = mk(c);
  PBT_NOTE(s, x.hexString() << " " << y.hexString());
  bool eq = a.a == b.a && a.b == b.b;
  PBT_EQ(x == y, eq, "equality");
  PBT_EQ(x != y, !eq, "inequality");
  PBT_EQ(int(x < y) + int(x == y) + int(x > y), 1, "trichotomy");
  PBT_EQ(x < y, y > x, "mirrored");
  PBT_EQ(x > y, y < x, "mirrored");
  PBT_CHECK(!(x < y && y < z) || x < z, "transitivity <");
  PBT_CHECK(!(x > y && y > z) || x > z, "transitivity >");
  if (eq) {
    PBT_EQ(x.hashToSizeT(), y.hashToSizeT(), "equal ids hash equally");
    PBT_EQ(x.hashToSizeTFast(), y.hashToSizeTFast(), "");
  }
  PBT_EQ(std::hash<HashId>()(x), x.hashToSizeT(), "std::hash");
  verif::DerivedHash dh;
  U w[2] = {a.a, a.b};
  dh.fromUint64(w);
  PBT_EQ(std::hash<verif::DerivedHash>()(dh), x.hashToSizeT(), "derived std::hash");
}

PBT(hash_spread, 2000, 20000) {  // the container hash uses both halves: ids differing in one bit get different hash values
  W a = words(s);
  s.nontrivial();
  HashId x = mk(a);
  for (int i = 0; i < 128; ++i) {
    W b = a;
    (i < 64 ? b.a : b.b) ^= U(1) << (i % 64);
    PBT_CHECK(mk(b).hashToSizeT() != x.hashToSizeT(), "bit " << i);
  }
}

PBT(hash_malformed_text, 40000, 600000) {
  W w = words(s);
  HashId h = mk(w);
  std::string t = h.hexString();
  switch (s.below(4)) {
    case 0: t = s.bytes(40); break;
    case 1: t.resize(s.size(0, 31)); break;
    case 2: t += s.str("0123456789abcdefg ", 4); break;
    default: {
      size_t n = s.size(1, 3);
      for (size_t i = 0; i < n; ++i) t[s.below(32)] = s.flip() ? char(s.below(256)) : s.pick({'x', 'X', ' ', '+', '-', 'g', 'G', '/', ':', '@', '`', '\t', '\0'});
    }
  }
  PBT_NOTE(s, pbt::show(t));
  bool ok = t.size() == 32 && t.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
  if (!ok) s.nontrivial();
  HashId g = h;
  bool r = g.fromHexString(t);
  PBT_EQ(r, ok, "accepted exactly when 32 hexadecimal digits: " << pbt::show(t));
  if (!r) PBT_CHECK(g == h, "a refused text leaves the id unchanged");
}

PBT(hash_random_ids, 200, 2000) {
  size_t n = s.size(2, 400);
  s.nontrivial();
  std::set<std::string> seen;
  std::unordered_set<HashId> us;
  std::set<HashId> os;
  for (size_t i = 0; i < n; ++i) {
    HashId h = HashId::random();
    if (s.flip()) h.randomize();
    PBT_CHECK(h.isValid(), "random id valid");
    U o[2];
    h.toUint64(o);
    PBT_CHECK(o[0] != o[1], "both halves are random");
    seen.insert(h.hexString());
    us.insert(h);
    os.insert(h);
  }
  PBT_EQ(seen.size(), n, "distinct");
  PBT_EQ(us.size(), n, "unordered_set");
  PBT_EQ(os.size(), n, "set");
}

PBT(hash_random_threads, 10, 100, pbt::Options{60, true, 2}) {
  size_t T = s.size(2, 6), n = s.size(50, 2000);
  s.nontrivial();
  std::vector<std::vector<HashId>> v(T);
  std::vector<std::thread> th;
  for (size_t t = 0; t < T; ++t) th.emplace_back([&, t] { for (size_t i = 0; i < n; ++i) v[t].push_back(HashId::random()); });
  for (auto& t : th) t.join();
  std::set<HashId> all;
  for (auto& x : v) all.insert(x.begin(), x.end());
  PBT_EQ(all.size(), T * n, "ids created concurrently are distinct");
}

// ids made by different runs of a program, even within the same moment: the harness starts itself anew to make them
static OtherRun idsOfARun("P26_RANDOM_IDS", [](const char* n) { for (int i = std::atoi(n); i; --i) std::printf("%s\n", HashId::random().hexString().c_str()); });
PBT(hash_random_runs, 15, 100, pbt::Options{60, true, 2}) {
  const size_t runs = s.size(2, 4), n = s.size(1, 50);
  PBT_NOTE(s, runs << " runs with " << n << " ids each");
  s.nontrivial();
  std::set<std::string> all;
  size_t made = 0;
  for (size_t r = 0; r < runs; ++r) {
    std::vector<std::string> l;
    if (!OtherRun::lines("P26_RANDOM_IDS", std::to_string(n), l)) s.discard();
    all.insert(l.begin(), l.end());
    made += l.size();
  }
  PBT_EQ(made, runs * n, "ids made");
  PBT_EQ(all.size(), made, "ids of different runs are distinct");
}

// ---- Id --------------------------------------------------------------------------------------------
template <typename IA, typename OA, typename T>
static T archived(const T& v) {
  std::stringstream ss;
  {
    OA oa(ss);
    oa << boost::serialization::make_nvp("v", v);
  }
  T r(7);
  IA ia(ss);
  ia >> boost::serialization::make_nvp("v", r);
  return r;
}

PBT(id_laws, 40000, 600000) {
  U a = word(s), b = s.flip() ? word(s) : a + s.below(3) - 1;
  verif::CamId x(a), y(b);
  PBT_NOTE(s, a << " " << b);
  if (a != b) s.nontrivial();
  PBT_EQ(x.getId(), a, "getId");
  PBT_EQ(x.value(), a, "value");
  PBT_EQ(x == y, a == b, "");
  PBT_EQ(x != y, a != b, "");
  PBT_EQ(x < y, a < b, "");
  PBT_EQ(x > y, a > b, "");
  PBT_EQ(x <= y, a <= b, "");
  PBT_EQ(x >= y, a >= b, "");
  PBT_EQ(x.isBinaryEqual(y), a == b, "");
  PBT_EQ(x.isSet(), a != ~U(0), "isSet");
  if (a == b) {
    PBT_EQ(std::hash<verif::CamId>()(x), std::hash<verif::CamId>()(y), "hash");
    PBT_EQ(boost::hash<verif::CamId>()(x), boost::hash<verif::CamId>()(y), "hash");
  } else {
    PBT_CHECK(std::hash<verif::CamId>()(x) != std::hash<verif::CamId>()(y), "hash keeps the value apart");
  }
  std::ostringstream os;
  os << x;
  PBT_EQ(os.str(), std::to_string(a), "stream");
  verif::CamId z = x;
  sm::Id old = z++;
  PBT_EQ(old.getId(), a, "post-increment value");
  PBT_EQ(z.getId(), a + 1, "post-increment effect");
  sm::Id& ref = ++z;
  PBT_EQ(z.getId(), a + 2, "pre-increment");
  PBT_CHECK(&ref == &z, "pre-increment returns itself");
  z = y;
  PBT_EQ(z.getId(), b, "assignment");
  x.swap(z);
  PBT_CHECK(x.getId() == b && z.getId() == a, "swap");
  verif::FrameId f((sm::Id(a)));
  PBT_EQ(f.getId(), a, "conversion");
  f.clear();
  PBT_CHECK(!f.isSet() && !verif::CamId().isSet() && !sm::Id().isSet(), "cleared and default ids are not set");
  PBT_CHECK(f == sm::Id(), "cleared equals default");
  f.setRandom();
  PBT_CHECK(f.isSet(), "random id is set");
}

PBT(id_archives, 3000, 40000) {
  U a = word(s);
  s.nontrivial();
  verif::CamId x(a);
  PBT_NOTE(s, a);
  PBT_EQ((archived<boost::archive::binary_iarchive, boost::archive::binary_oarchive>(x).getId()), a, "binary");
  PBT_EQ((archived<boost::archive::text_iarchive, boost::archive::text_oarchive>(x).getId()), a, "text");
  PBT_EQ((archived<boost::archive::xml_iarchive, boost::archive::xml_oarchive>(x).getId()), a, "xml");
}

PBT(id_containers, 3000, 40000) {  // ids as keys against a model keyed by the integer
  std::map<U, int> model;
  std::map<verif::CamId, int> m;
  std::unordered_set<verif::CamId> us;
  boost::unordered_set<verif::CamId> bs;
  size_t n = s.size(1, 40);
  s.nontrivial();
  for (size_t i = 0; i < n; ++i) {
    U k = s.flip() ? s.below(8) : word(s);
    if (s.chance(1, 4)) {
      model.erase(k); m.erase(verif::CamId(k)); us.erase(verif::CamId(k)); bs.erase(verif::CamId(k));
    } else {
      model[k] = int(i); m[verif::CamId(k)] = int(i); us.insert(verif::CamId(k)); bs.insert(verif::CamId(k));
    }
  }
  PBT_EQ(m.size(), model.size(), "map size");
  PBT_EQ(us.size(), model.size(), "unordered_set size");
  PBT_EQ(bs.size(), model.size(), "boost set size");
  auto it = m.begin();
  for (auto& kv : model) {
    PBT_EQ(it->first.getId(), kv.first, "order");
    PBT_EQ(it->second, kv.second, "value");
    ++it;
    PBT_CHECK(us.count(verif::CamId(kv.first)) && bs.count(verif::CamId(kv.first)), "found");
  }
}
