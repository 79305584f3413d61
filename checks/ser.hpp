// Shared by the serialisation checks: archives over string streams.
#ifndef VERIF_SER_HPP
#define VERIF_SER_HPP
#include "kin.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <sm/eigen/serialization.hpp>
#include <sstream>
namespace ser {
enum Format { BINARY, TEXT, XML };
inline const char* name(Format f) { return f == BINARY ? "binary" : f == TEXT ? "text" : "xml"; }
template <class OA, class T> std::string writeA(const T& x, int trailer) {
  std::ostringstream o;
  {
    OA a(o);
    a << boost::serialization::make_nvp("object", x) << boost::serialization::make_nvp("trailer", trailer);
  }
  return o.str();
}
template <class IA, class T> int readA(const std::string& d, T& x) {
  std::istringstream i(d);
  IA a(i);
  int t = -1;
  a >> boost::serialization::make_nvp("object", x) >> boost::serialization::make_nvp("trailer", t);
  return t;
}
/// the object followed by a number, so that a reader out of step is noticed
template <class T> std::string write(Format f, const T& x, int trailer) {
  return f == BINARY ? writeA<boost::archive::binary_oarchive>(x, trailer) : f == TEXT ? writeA<boost::archive::text_oarchive>(x, trailer) : writeA<boost::archive::xml_oarchive>(x, trailer);
}
template <class T> int read(Format f, const std::string& d, T& x) {
  return f == BINARY ? readA<boost::archive::binary_iarchive>(d, x) : f == TEXT ? readA<boost::archive::text_iarchive>(d, x) : readA<boost::archive::xml_iarchive>(d, x);
}
template <class M> bool identical(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { const typename M::Scalar x = a(i, j), y = b(i, j); if (std::memcmp(&x, &y, sizeof x)) return false; }
  return true;
}
template <class M> bool printedEqual(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      double x = double(a(i, j)), y = double(b(i, j)), e = std::is_same<typename M::Scalar, double>::value ? 5e-16 : std::is_same<typename M::Scalar, float>::value ? 3e-7 : 0;
      if (!(std::fabs(x - y) <= e * std::fabs(x))) return false;
    }
  return true;
}
}  // namespace ser
#endif
