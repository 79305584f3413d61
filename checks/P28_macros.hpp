#pragma once
#include <stdexcept>
#include <string>
#include <Eigen/Core>
#include <sm/assert_macros.hpp>
namespace p28 {
SM_DEFINE_EXCEPTION(Boom, std::runtime_error);
template <typename T>
struct Call {
  int macro;
  T a, b, d;
  const int* p;
  std::string tag;
  int na, nb, nd, line;
  bool threw;
  std::string what;
};
}  // namespace p28
#define P28_DECL(NS)                                                        \
  namespace NS {                                                            \
  template <typename T> void run(p28::Call<T>& c);                          \
  bool matFinite(const Eigen::MatrixXd& m, bool dbg, std::string& what);    \
  void always(int k, const std::string& m, int& line);                      \
  }
P28_DECL(plain)
P28_DECL(ndebug)
P28_DECL(alwaysassert)
