// Stand-in for the header of the numpy_eigen package, which sm_python includes first and which is not part of the repository.
// The converters that numpy_eigen registers at run time are replaced by lib/pyembed.hpp.
#include <Python.h>
#include <boost/python.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/cstdint.hpp>
#include <Eigen/Core>
