// Included by P28.cpp (plain build), P28_ndebug.cpp (NDEBUG) and P28_always.cpp (NDEBUG and SM_ALWAYS_ASSERT).
// Wraps every assertion macro in a function that counts how often each operand is evaluated.
#include <sm/assert_macros.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <Eigen/Core>
#include "P28_macros.hpp"

namespace P28_NS {
using p28::Boom;
using p28::Call;
template <typename T>
struct Op {
  T v;
  int* n;
  T operator()() const { ++*n; return v; }
};

template <typename T>
void run(Call<T>& c) {
  Op<T> a{c.a, &c.na}, b{c.b, &c.nb}, d{c.d, &c.nd};
  const int* p = c.p;
  c.line = 0;
  try {
    switch (c.macro) {
#define M2(ID, NAME) case ID: c.line = __LINE__; NAME(Boom, a(), b(), "msg " << c.tag); break;
#define M1(ID, NAME) case ID: c.line = __LINE__; NAME(Boom, a(), "msg " << c.tag); break;
#define M3(ID, NAME) case ID: c.line = __LINE__; NAME(Boom, a(), b(), d(), "msg " << c.tag); break;
#define MP(ID, NAME) case ID: c.line = __LINE__; NAME(Boom, p, "msg " << c.tag); break;
      M2(0, SM_ASSERT_LT) M2(1, SM_ASSERT_LE) M2(2, SM_ASSERT_GT) M2(3, SM_ASSERT_GE) M2(4, SM_ASSERT_EQ) M2(5, SM_ASSERT_NE)
      M1(6, SM_ASSERT_POSITIVE) M1(7, SM_ASSERT_NONNEGATIVE) M1(8, SM_ASSERT_NEGATIVE) M1(9, SM_ASSERT_NONPOSITIVE) M1(10, SM_ASSERT_ZERO)
      M3(11, SM_ASSERT_GE_LT) M3(12, SM_ASSERT_GT_LE) M3(13, SM_ASSERT_GE_LE) M3(14, SM_ASSERT_NEAR)
      M1(15, SM_ASSERT_FINITE) M1(16, SM_ASSERT_NOTNAN)
      MP(17, SM_ASSERT_NOTNULL) MP(18, SM_ASSERT_NULL)
      case 19: c.line = __LINE__; SM_ASSERT_TRUE(Boom, a() < b(), "msg " << c.tag); break;
      case 20: c.line = __LINE__; SM_ASSERT_FALSE(Boom, a() < b(), "msg " << c.tag); break;
      M2(100, SM_ASSERT_LT_DBG) M2(101, SM_ASSERT_LE_DBG) M2(102, SM_ASSERT_GT_DBG) M2(103, SM_ASSERT_GE_DBG) M2(104, SM_ASSERT_EQ_DBG) M2(105, SM_ASSERT_NE_DBG)
      M1(106, SM_ASSERT_POSITIVE_DBG) M1(107, SM_ASSERT_NONNEGATIVE_DBG) M1(108, SM_ASSERT_NEGATIVE_DBG) M1(109, SM_ASSERT_NONPOSITIVE_DBG) M1(110, SM_ASSERT_ZERO_DBG)
      M3(111, SM_ASSERT_GE_LT_DBG) M3(112, SM_ASSERT_GT_LE_DBG) M3(113, SM_ASSERT_GE_LE_DBG) M3(114, SM_ASSERT_NEAR_DBG)
      M1(115, SM_ASSERT_FINITE_DBG) M1(116, SM_ASSERT_NOTNAN_DBG)
      MP(117, SM_ASSERT_NOTNULL_DBG)
      case 119: c.line = __LINE__; SM_ASSERT_TRUE_DBG(Boom, a() < b(), "msg " << c.tag); break;
      case 120: c.line = __LINE__; SM_ASSERT_FALSE_DBG(Boom, a() < b(), "msg " << c.tag); break;
      default: c.macro = -1;
    }
  } catch (const Boom& e) {
    c.threw = true;
    c.what = e.what();
  }
}
template void run<double>(Call<double>&);
template void run<float>(Call<float>&);
template void run<long>(Call<long>&);

bool matFinite(const Eigen::MatrixXd& m, bool dbg, std::string& what) {
  try {
    if (dbg) { SM_ASSERT_MAT_IS_FINITE_DBG(Boom, m, "mat message"); }
    else { SM_ASSERT_MAT_IS_FINITE(Boom, m, "mat message"); }
  } catch (const Boom& e) { what = e.what(); return false; }
  return true;
}
void always(int k, const std::string& m, int& line) {
  if (k == 0) { line = __LINE__; SM_THROW(Boom, m << 1); }
  else if (k == 1) { line = 77; SM_THROW_SFP(Boom, sm::source_file_pos("fn", "some.cpp", 77), m << 1); }
  else if (k == 2) { line = __LINE__; sm::sm_assert_throw<Boom>(false, m + "1", SM_SOURCE_FILE_POS); }
  else if (k == 3) { sm::sm_assert_throw<Boom>(true, m, SM_SOURCE_FILE_POS); }
  else { line = __LINE__; SM_THROW_DBG(Boom, m << 1); }
}
}  // namespace P28_NS
