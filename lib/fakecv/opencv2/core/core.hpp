// A stand-in for OpenCV's core: points and 2-dimensional matrices with headers that share, view and own storage as OpenCV's do.
#ifndef VERIF_FAKE_CV_CORE
#define VERIF_FAKE_CV_CORE
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>
typedef unsigned char uchar;
typedef unsigned short ushort;
#define CV_CN_SHIFT 3
#define CV_DEPTH_MAX (1 << CV_CN_SHIFT)
#define CV_8U 0
#define CV_8S 1
#define CV_16U 2
#define CV_16S 3
#define CV_32S 4
#define CV_32F 5
#define CV_64F 6
#define CV_MAT_DEPTH_MASK (CV_DEPTH_MAX - 1)
#define CV_MAT_DEPTH(flags) ((flags) & CV_MAT_DEPTH_MASK)
#define CV_MAKETYPE(depth, cn) (CV_MAT_DEPTH(depth) + (((cn)-1) << CV_CN_SHIFT))
#define CV_MAKE_TYPE CV_MAKETYPE
#define CV_MAT_TYPE(flags) ((flags) & 0xfff)
#define CV_MAT_CN(flags) ((((flags) >> CV_CN_SHIFT) & 511) + 1)
#define CV_8UC1 CV_MAKETYPE(CV_8U, 1)
#define CV_8UC3 CV_MAKETYPE(CV_8U, 3)
#define CV_32FC1 CV_MAKETYPE(CV_32F, 1)
#define CV_64FC1 CV_MAKETYPE(CV_64F, 1)
namespace cv {
using ::uchar;
using ::ushort;
class Exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
template <class T> struct Point_ { T x = 0, y = 0; Point_() {} Point_(T a, T b) : x(a), y(b) {} bool operator==(const Point_& o) const { return x == o.x && y == o.y; } };
typedef Point_<float> Point2f;
typedef Point_<double> Point2d;
typedef Point_<int> Point2i;
typedef Point2i Point;
struct Size { int width = 0, height = 0; Size() {} Size(int w, int h) : width(w), height(h) {} int area() const { return width * height; } bool operator==(const Size& o) const { return width == o.width && height == o.height; } bool operator!=(const Size& o) const { return !(*this == o); } };
struct Rect { int x = 0, y = 0, width = 0, height = 0; Rect() {} Rect(int a, int b, int w, int h) : x(a), y(b), width(w), height(h) {} };
struct Range { int start, end; Range(int a, int b) : start(a), end(b) {} };
/// the bytes of one row; one number and an array at once, as in OpenCV
struct MatStep {
  size_t buf[2] = {0, 0};
  size_t* p = buf;
  MatStep() {}
  MatStep(const MatStep& o) { buf[0] = o.buf[0]; buf[1] = o.buf[1]; }
  MatStep& operator=(const MatStep& o) { buf[0] = o.buf[0]; buf[1] = o.buf[1]; return *this; }
  MatStep& operator=(size_t s) { buf[0] = s; return *this; }
  operator size_t() const { return buf[0]; }
  size_t& operator[](int i) { return buf[i]; }
  const size_t& operator[](int i) const { return buf[i]; }
};
class Mat {
 public:
  enum { MAGIC_VAL = 0x42FF0000, AUTO_STEP = 0, CONTINUOUS_FLAG = 1 << 14, SUBMATRIX_FLAG = 1 << 15 };
  int flags = MAGIC_VAL, dims = 0, rows = 0, cols = 0;
  uchar* data = nullptr;
  uchar *datastart = nullptr, *dataend = nullptr;
  MatStep step;
  struct MatSize { const Mat* m; Size operator()() const { return Size(m->cols, m->rows); } int operator[](int i) const { return i ? m->cols : m->rows; } bool operator==(const MatSize& o) const { return (*this)() == o(); } bool operator!=(const MatSize& o) const { return !(*this == o); } } size{this};

  Mat() {}
  Mat(int r, int c, int t) { create(r, c, t); }
  Mat(Size s, int t) { create(s.height, s.width, t); }
  Mat(int r, int c, int t, void* p, size_t st = AUTO_STEP) {
    flags = MAGIC_VAL | (t & 0xfff);
    dims = 2; rows = r; cols = c;
    data = datastart = static_cast<uchar*>(p);
    step[1] = elemSize();
    step[0] = st == AUTO_STEP ? size_t(c) * elemSize() : st;
    if (r == 1) step[0] = size_t(c) * elemSize();
    dataend = data + (r ? step[0] * size_t(r - 1) + size_t(c) * elemSize() : 0);
    continuity();
  }
  Mat(const Mat& o) { *this = o; }
  Mat(const Mat& o, const Rect& q) { view(o, q); }
  Mat& operator=(const Mat& o) {
    if (this == &o) return *this;
    flags = o.flags; dims = o.dims; rows = o.rows; cols = o.cols; data = o.data; datastart = o.datastart; dataend = o.dataend; step = o.step; store = o.store;
    return *this;
  }
  Mat operator()(const Rect& q) const { return Mat(*this, q); }
  Mat row(int y) const { return Mat(*this, Rect(0, y, cols, 1)); }
  Mat col(int x) const { return Mat(*this, Rect(x, 0, 1, rows)); }
  Mat rowRange(int a, int b) const { return Mat(*this, Rect(0, a, cols, b - a)); }
  Mat colRange(int a, int b) const { return Mat(*this, Rect(a, 0, b - a, rows)); }
  void create(Size s, int t) { create(s.height, s.width, t); }
  void create(int r, int c, int t) {
    t &= 0xfff;
    if (dims == 2 && rows == r && cols == c && type() == t && data) return;
    if (r < 0 || c < 0) throw Exception("OpenCV(stand-in) Assertion failed: s >= 0 in create");
    release();
    flags = MAGIC_VAL | t;
    dims = 2; rows = r; cols = c;
    step[1] = elemSize();
    step[0] = size_t(c) * elemSize();
    const size_t n = size_t(r) * step[0];
    if (n) {
      uchar* p = new uchar[n];
      std::memset(p, 0xcd, n);
      store = std::shared_ptr<uchar>(p, [](uchar* q) { delete[] q; });
      data = datastart = p;
      dataend = p + n;
    }
    continuity();
  }
  void release() { store.reset(); data = datastart = dataend = nullptr; rows = cols = 0; step[0] = step[1] = 0; }
  int type() const { return CV_MAT_TYPE(flags); }
  int depth() const { return CV_MAT_DEPTH(flags); }
  int channels() const { return CV_MAT_CN(flags); }
  size_t elemSize1() const { static const size_t z[] = {1, 1, 2, 2, 4, 4, 8, 2}; return z[depth()]; }
  size_t elemSize() const { return elemSize1() * size_t(channels()); }
  size_t step1(int i = 0) const { return step[i] / elemSize1(); }
  size_t total() const { return size_t(rows) * size_t(cols); }
  bool empty() const { return !data || total() == 0; }
  bool isContinuous() const { return (flags & CONTINUOUS_FLAG) != 0; }
  bool isSubmatrix() const { return (flags & SUBMATRIX_FLAG) != 0; }
  uchar* ptr(int y = 0) { return data + step[0] * size_t(y); }
  const uchar* ptr(int y = 0) const { return data + step[0] * size_t(y); }
  template <class T> T* ptr(int y = 0) { return reinterpret_cast<T*>(data + step[0] * size_t(y)); }
  template <class T> const T* ptr(int y = 0) const { return reinterpret_cast<const T*>(data + step[0] * size_t(y)); }
  template <class T> T& at(int y, int x) { return ptr<T>(y)[x]; }
  template <class T> const T& at(int y, int x) const { return ptr<T>(y)[x]; }
  Mat clone() const { Mat m; copyTo(m); return m; }
  void copyTo(Mat& m) const {
    if (empty()) { m.release(); if (dims == 2) { m.flags = flags; m.dims = 2; m.rows = rows; m.cols = cols; } return; }
    m.create(rows, cols, type());
    if (m.data == data) return;
    for (int y = 0; y < rows; ++y) std::memmove(m.ptr(y), ptr(y), size_t(cols) * elemSize());
  }
  void copyTo(Mat&& m) const { copyTo(m); }

 private:
  std::shared_ptr<uchar> store;
  void continuity() {
    flags &= ~CONTINUOUS_FLAG;
    if (rows <= 1 || step[0] == size_t(cols) * elemSize()) flags |= CONTINUOUS_FLAG;
  }
  void view(const Mat& o, const Rect& q) {
    if (q.x < 0 || q.y < 0 || q.width < 0 || q.height < 0 || q.x + q.width > o.cols || q.y + q.height > o.rows) throw Exception("OpenCV(stand-in) Assertion failed: roi");
    *this = o;
    rows = q.height; cols = q.width;
    data += size_t(q.y) * step[0] + size_t(q.x) * elemSize();
    if (q.width < o.cols || q.height < o.rows) flags |= SUBMATRIX_FLAG;
    continuity();
    if (rows <= 0 || cols <= 0) { release(); }
  }
};
template <class T> class Mat_;
}  // namespace cv
#endif
