// P38: serialization and comparison of OpenCV types, against a stand-in for OpenCV's core (lib/fakecv).
#include "pbt.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <sm/opencv/serialization.hpp>
#include <deque>
#include <sstream>
PBT_PROPERTY("P38",
             "A case is a sequence of OpenCV matrices (any size, depth and number of channels, owned, borrowed with padded rows, or views of a larger matrix), points and key points written to one archive "
             "(text, binary or XML) and read back in order, into new, reused or viewing matrices; or a pair of matrices that are compared. A case is non-trivial when a matrix is a view, is padded, or "
             "is loaded into an existing matrix, or when the compared matrices differ in a single byte.")
namespace {
struct Pic {
  cv::Mat m;                       ///< what is handed to the library
  cv::Mat whole;                   ///< the matrix that m views
  std::vector<unsigned char> mem;  ///< borrowed storage
  bool odd = false;
};
void noise(pbt::Source& s, uchar* p, size_t n) {
  const uint64_t k = s.bits64();
  for (size_t i = 0; i < n; ++i) p[i] = uchar((k * (i + 1) * 0x9E3779B97F4A7C15ull) >> 56);
}
int type(pbt::Source& s) { return CV_MAKETYPE(int(s.below(7)), int(1 + (s.chance(1, 4) ? s.below(12) : s.below(4)))); }
/// a matrix of the given size, stored in any way
Pic pic(pbt::Source& s, int r, int c, int t) {
  Pic p;
  const size_t e = cv::Mat(1, 1, t).elemSize();
  switch (s.below(4)) {
    case 0: p.m.create(r, c, t); p.whole = p.m; if (p.m.data) noise(s, p.m.data, size_t(r) * size_t(c) * e); break;
    case 1: {  // borrowed, rows padded
      const size_t st = size_t(c) * e + s.below(9);
      p.mem.resize(r ? size_t(r - 1) * st + size_t(c) * e : 0);
      noise(s, p.mem.data(), p.mem.size());
      if (p.mem.empty()) p.m.create(r, c, t); else p.m = cv::Mat(r, c, t, p.mem.data(), st);
      p.whole = p.m;
      p.odd = true;
      break;
    }
    default: {  // a view
      if (r == 0 || c == 0) { p.m.create(r, c, t); p.whole = p.m; break; }
      const int l = int(s.below(4)), o = int(s.below(4)), R = int(s.below(4)), b = int(s.below(4));
      p.whole.create(o + r + b, l + c + R, t);
      noise(s, p.whole.data, size_t(p.whole.rows) * p.whole.step);
      p.m = p.whole(cv::Rect(l, o, c, r));
      p.odd = true;
    }
  }
  return p;
}
Pic pic(pbt::Source& s) { return pic(s, int(s.below(6)), int(s.below(6)), type(s)); }
std::string bytes(const cv::Mat& m) {
  std::string b;
  for (int y = 0; y < m.rows; ++y) b.append(reinterpret_cast<const char*>(m.data + size_t(y) * m.step.buf[0]), size_t(m.cols) * m.elemSize());
  return b;
}
std::string store(const Pic& p) { return p.mem.empty() ? bytes(p.whole) : std::string(p.mem.begin(), p.mem.end()); }
std::string show(const cv::Mat& m) { return std::to_string(m.rows) + "x" + std::to_string(m.cols) + " of type " + std::to_string(m.type()) + " rows of " + std::to_string(size_t(m.step)) + (m.isContinuous() ? " continuous" : ""); }
bool same(const cv::Mat& a, const cv::Mat& b) { return a.rows == b.rows && a.cols == b.cols && a.type() == b.type() && bytes(a) == bytes(b); }
struct Quiet {
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
bool equal(const cv::Mat& a, const cv::Mat& b) { Quiet q; return sm::opencv::isBinaryEqual(a, b); }
template <class OA, class IA> void archived(pbt::Source& s, bool anyFloat, const char* name) {
  auto f = [&] { float x = float(anyFloat ? s.anyDouble() : s.signedLog(1e-30, 1e30)); return x; };
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  std::vector<int> kind;
  std::deque<Pic> pics;  // they keep their place
  std::vector<cv::Point2f> pts;
  std::vector<cv::KeyPoint> keys;
  std::vector<std::vector<cv::KeyPoint>> lists;
  const size_t n = s.size(1, 5);
  auto key = [&] { return cv::KeyPoint(cv::Point2f(f(), f()), f(), f(), f(), int(s.anyInt(-2147483648LL, 2147483647LL)), int(s.anyInt(-2147483648LL, 2147483647LL))); };
  {
    OA oa(ss);
    for (size_t i = 0; i < n; ++i) {
      kind.push_back(int(s.below(6)));
      switch (kind.back()) {
        default: {
          pics.push_back(pic(s));
          if (pics.back().odd) s.nontrivial();
          const std::string before = store(pics.back());
          const cv::Mat& m = pics.back().m;
          oa << boost::serialization::make_nvp("mat", m);
          PBT_EQ(store(pics.back()), before, "saving changed " << show(m));
          break;
        }
        case 3: { pts.push_back(cv::Point2f(f(), f())); const cv::Point2f& p = pts.back(); oa << boost::serialization::make_nvp("point", p); break; }
        case 4: { keys.push_back(key()); const cv::KeyPoint& k = keys.back(); oa << boost::serialization::make_nvp("key", k); break; }
        case 5: { lists.emplace_back(); for (size_t j = s.below(4); j; --j) lists.back().push_back(key()); const std::vector<cv::KeyPoint>& l = lists.back(); oa << boost::serialization::make_nvp("list", l); break; }
      }
    }
  }
  auto fl = [&](float a, float b) { return !std::memcmp(&a, &b, sizeof a); };
  auto sameKey = [&](const cv::KeyPoint& a, const cv::KeyPoint& b) { return fl(a.pt.x, b.pt.x) && fl(a.pt.y, b.pt.y) && fl(a.size, b.size) && fl(a.angle, b.angle) && fl(a.response, b.response) && a.octave == b.octave && a.class_id == b.class_id; };
  size_t ip = 0, it = 0, ik = 0, il = 0;
  {
    IA ia(ss);
    for (int k : kind) {
      switch (k) {
        default: {
          const Pic& want = pics[ip++];
          Pic got;
          switch (s.below(4)) {
            case 0: break;
            case 1: got = pic(s); s.nontrivial(); break;
            default: got = pic(s, want.m.rows, want.m.cols, want.m.type()); s.nontrivial(); break;  // of the right size already
          }
          cv::Mat target = got.m;
          const cv::Mat seen = got.m;
          // what lies around the pixels of the target stays as it is
          const std::string inside = bytes(got.m), around = store(got);
          ia >> boost::serialization::make_nvp("mat", target);
          PBT_CHECK(same(target, want.m), name << ": " << show(want.m) << " came back as " << show(target) << (target.rows == want.m.rows && target.cols == want.m.cols && target.type() == want.m.type() ? " with other bytes" : "") << ", read into " << show(got.m));
          PBT_CHECK(equal(target, want.m) && equal(want.m, target), name << ": what came back is not isBinaryEqual to " << show(want.m));
          if (seen.data && !seen.empty()) {
            // a matrix that has the size and type already is filled where it is
            if (same(seen, want.m)) s.label("filled in place");
            if (seen.rows == want.m.rows && seen.cols == want.m.cols && seen.type() == want.m.type())
              PBT_CHECK(same(seen, want.m), name << ": reading " << show(want.m) << " into " << show(seen) << " did not reach the other headers of the same pixels");
            const std::string mine = bytes(seen);
            for (int y = 0; y < seen.rows; ++y) std::memcpy(seen.data + size_t(y) * seen.step.buf[0], inside.data() + size_t(y) * size_t(seen.cols) * seen.elemSize(), size_t(seen.cols) * seen.elemSize());
            PBT_EQ(store(got), around, name << ": reading " << show(want.m) << " into " << show(seen) << " changed bytes around it");
          }
          break;
        }
        case 3: { cv::Point2f p; ia >> boost::serialization::make_nvp("point", p); PBT_CHECK(fl(p.x, pts[it].x) && fl(p.y, pts[it].y), name << ": point"); ++it; break; }
        case 4: { cv::KeyPoint p; ia >> boost::serialization::make_nvp("key", p); PBT_CHECK(sameKey(p, keys[ik]), name << ": key point"); ++ik; break; }
        case 5: { std::vector<cv::KeyPoint> l(s.below(3)); ia >> boost::serialization::make_nvp("list", l); PBT_EQ(l.size(), lists[il].size(), name << ": key points"); for (size_t j = 0; j < l.size(); ++j) PBT_CHECK(sameKey(l[j], lists[il][j]), name << ": key point " << j); ++il; break; }
      }
    }
  }
}
}  // namespace

PBT(archives, 150000, 2000000) {
  switch (s.below(3)) {
    case 0: archived<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(s, true, "binary"); break;
    case 1: archived<boost::archive::text_oarchive, boost::archive::text_iarchive>(s, false, "text"); break;
    default: archived<boost::archive::xml_oarchive, boost::archive::xml_iarchive>(s, false, "XML"); break;
  }
}

PBT(comparison, 300000, 3000000) {
  Pic a = pic(s), b;
  const bool alike = s.chance(3, 4);
  if (alike) {
    b = pic(s, a.m.rows, a.m.cols, a.m.type());
    for (int y = 0; a.m.data && b.m.data && y < a.m.rows; ++y) std::memcpy(b.m.data + size_t(y) * b.m.step.buf[0], a.m.data + size_t(y) * a.m.step.buf[0], size_t(a.m.cols) * a.m.elemSize());
  } else {
    int r = a.m.rows, c = a.m.cols, t = a.m.type();
    switch (s.below(4)) { case 0: r = int(s.below(6)); break; case 1: c = int(s.below(6)); break; case 2: std::swap(r, c); break; default: t = type(s); }
    b = pic(s, r, c, t);
    for (size_t i = 0, e = b.m.elemSize(); b.m.data && a.m.data && i < size_t(b.m.rows) * size_t(b.m.cols) * e; ++i) {  // the same bytes as far as they go
      const size_t ra = size_t(a.m.cols) * a.m.elemSize(), rb = size_t(b.m.cols) * e;
      if (i >= size_t(a.m.rows) * ra) break;
      b.m.data[(i / rb) * b.m.step.buf[0] + i % rb] = a.m.data[(i / ra) * a.m.step.buf[0] + i % ra];
    }
    if (a.m.rows != b.m.rows || a.m.cols != b.m.cols || a.m.type() != b.m.type()) s.nontrivial();
  }
  const size_t row = size_t(b.m.cols) * b.m.elemSize();
  if (b.m.data && row && b.m.rows && s.flip()) {
    const size_t i = s.below(size_t(b.m.rows) * row);
    b.m.data[(i / row) * b.m.step.buf[0] + i % row] ^= uchar(1u << s.below(8));
    s.nontrivial();
  }
  const bool want = same(a.m, b.m);
  PBT_EQ(equal(a.m, b.m), want, "isBinaryEqual of " << show(a.m) << " and " << show(b.m));
  PBT_EQ(equal(b.m, a.m), want, "isBinaryEqual the other way round of " << show(a.m) << " and " << show(b.m));
  PBT_CHECK(equal(a.m, a.m) && equal(b.m, b.m), "a matrix is not isBinaryEqual to itself");
}
