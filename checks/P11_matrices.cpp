// P11, matrices: every storage class, scalar and archive format.
#include "ser.hpp"
#include <Eigen/Geometry>
using namespace ser;

template <class T> static T scalar(pbt::Source& s, bool finite) {
  if (std::is_integral<T>::value) return T(s.anyInt(int64_t(std::numeric_limits<T>::min()), int64_t(std::min<uint64_t>(uint64_t(std::numeric_limits<T>::max()), uint64_t(INT64_MAX)))));
  if (!finite) return T(s.anyDouble());
  switch (s.below(4)) {
    case 0: return T(s.real(1000));
    case 1: return T(s.signedLog(1e-30, 1e30));
    case 2: return T(std::is_same<T, double>::value ? s.signedLog(1e-300, 1e300) : s.signedLog(1e-36, 1e36));
    default: return T(1) / T(3 + int(s.below(100)));
  }
}
static int dim(pbt::Source& s, int fixed) { return fixed != Eigen::Dynamic ? fixed : int(s.chance(1, 4) ? 0 : s.size(0, 6)); }

template <class M> static M make(pbt::Source& s, bool finite) {
  int r = dim(s, M::RowsAtCompileTime), c = dim(s, M::ColsAtCompileTime);
  M m(M::Zero(r, c));
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = scalar<typename M::Scalar>(s, finite);
  if (r * c > 1) s.nontrivial();
  if (r * c == 0) { s.nontrivial(); s.label("empty"); }
  return m;
}

/// writes an A and reads it as a B
template <class A, class B> static void convert(pbt::Source& s) {
  Format f = Format(s.below(3));
  bool finite = f != BINARY;
  A a = make<A>(s, finite);
  PBT_NOTE(s, name(f) << " " << a.rows() << "x" << a.cols() << " " << kin::str(a) << " into " << int(B::RowsAtCompileTime) << "x" << int(B::ColsAtCompileTime));
  int trailer = int(s.below(100000));
  std::string d = write(f, a, trailer);
  struct { unsigned char before[64]; B m; unsigned char after[64]; } box;
  std::memset(box.before, 0xa5, sizeof box.before);
  std::memset(box.after, 0x5a, sizeof box.after);
  int r0 = B::RowsAtCompileTime == Eigen::Dynamic ? int(s.below(5)) : int(B::RowsAtCompileTime), c0 = B::ColsAtCompileTime == Eigen::Dynamic ? int(s.below(5)) : int(B::ColsAtCompileTime);
  box.m = B::Constant(r0, c0, typename B::Scalar(42));
  bool fits = (B::RowsAtCompileTime == Eigen::Dynamic || B::RowsAtCompileTime == a.rows()) && (B::ColsAtCompileTime == Eigen::Dynamic || B::ColsAtCompileTime == a.cols());
  bool threw = false;
  int t = -1;
  try {
    t = read(f, d, box.m);
  } catch (const sm::eigen::SerializationException&) {
    threw = true;
  }
  PBT_CHECK(threw == !fits, (fits ? "matching dimensions are accepted" : "other dimensions are rejected"));
  for (unsigned char c : box.before) PBT_CHECK(c == 0xa5, "nothing written before the destination");
  for (unsigned char c : box.after) PBT_CHECK(c == 0x5a, "nothing written behind the destination");
  if (!fits) { s.label("rejected"); return; }
  PBT_EQ(t, trailer, "archive in step");
  PBT_EQ(int(box.m.rows()), int(a.rows()), "rows");
  PBT_EQ(int(box.m.cols()), int(a.cols()), "columns");
  if (int(A::IsRowMajor) == int(B::IsRowMajor)) {
    typedef Eigen::Matrix<typename A::Scalar, Eigen::Dynamic, Eigen::Dynamic> X;
    const X back = box.m, sent = a;
    if (f == BINARY) PBT_CHECK(identical(back, sent), "bit-identical, got " << kin::str(back));
    else PBT_CHECK(printedEqual(sent, back), "equal, got " << kin::str(back));
  }
}
template <class A> static void same(pbt::Source& s) { convert<A, A>(s); }

enum { Dyn = Eigen::Dynamic };
PBT(matrix_round_trip, 30000, 300000) {
  switch (s.below(16)) {
    case 0: return same<Eigen::MatrixXd>(s);
    case 1: return same<Eigen::Matrix<double, Dyn, Dyn, Eigen::RowMajor> >(s);
    case 2: return same<Eigen::VectorXd>(s);
    case 3: return same<Eigen::RowVectorXd>(s);
    case 4: return same<Eigen::Matrix<double, 3, Dyn> >(s);
    case 5: return same<Eigen::Matrix<double, Dyn, 4> >(s);
    case 6: return same<Eigen::Matrix3d>(s);
    case 7: return same<Eigen::Vector4d>(s);
    case 8: return same<Eigen::Matrix<double, 1, 3> >(s);
    case 9: return same<Eigen::Matrix<double, 2, 5, Eigen::RowMajor> >(s);
    case 10: return same<Eigen::MatrixXf>(s);
    case 11: return same<Eigen::Matrix<float, 3, Dyn> >(s);
    case 12: return same<Eigen::MatrixXi>(s);
    case 13: return same<Eigen::Matrix<int, Dyn, 3> >(s);
    case 14: return same<Eigen::Matrix<int64_t, 2, Dyn> >(s);
    default: return same<Eigen::Matrix<unsigned short, 2, 2> >(s);
  }
}
PBT(matrix_dimensions, 20000, 200000) {
  switch (s.below(12)) {
    case 0: return convert<Eigen::MatrixXd, Eigen::Matrix3d>(s);
    case 1: return convert<Eigen::MatrixXd, Eigen::Vector2d>(s);
    case 2: return convert<Eigen::Matrix2d, Eigen::Matrix<double, 2, 3> >(s);
    case 3: return convert<Eigen::Matrix<double, 4, 3>, Eigen::Matrix<double, 3, 4> >(s);
    case 4: return convert<Eigen::MatrixXd, Eigen::Matrix<double, 3, Dyn> >(s);
    case 5: return convert<Eigen::MatrixXd, Eigen::Matrix<double, Dyn, 2> >(s);
    case 6: return convert<Eigen::Matrix3d, Eigen::MatrixXd>(s);
    case 7: return convert<Eigen::VectorXd, Eigen::MatrixXd>(s);
    case 8: return convert<Eigen::Matrix<double, 2, Dyn>, Eigen::Matrix<double, Dyn, 3> >(s);
    case 9: return convert<Eigen::MatrixXi, Eigen::Vector3i>(s);
    case 10: return convert<Eigen::VectorXd, Eigen::RowVectorXd>(s);
    default: return convert<Eigen::MatrixXf, Eigen::Matrix<float, 1, Dyn> >(s);
  }
}
PBT(geometric_transform, 8000, 80000) {
  Format f = Format(s.below(3));
  Eigen::Transform<double, 3, Eigen::Affine> T, U;
  T.matrix() = make<Eigen::Matrix4d>(s, f != BINARY);
  U.matrix().setConstant(7);
  int t = int(s.below(1000));
  PBT_EQ(read(f, write(f, T, t), U), t, "archive in step");
  if (f == BINARY) PBT_CHECK(identical(T.matrix(), U.matrix()), "bit-identical");
  else PBT_CHECK(printedEqual(T.matrix(), U.matrix()), "equal");
}
