// Embeds the interpreter and the module libsm_python (compiled from /repo/sm_python/src) in a check.
// numpy_eigen is not part of the repository: matrices cross as nested lists (row by row), vectors as flat lists.
#ifndef VERIF_PYEMBED_HPP
#define VERIF_PYEMBED_HPP
#include <Python.h>
#include <boost/python.hpp>
#include <Eigen/Core>
#include <cstdlib>
#include <string>
#include <vector>
#include "pbt.hpp"

extern "C" PyObject* PyInit_libsm_python();

namespace pyembed {
namespace bp = boost::python;

template <typename M>
struct Conv {
  enum { R = M::RowsAtCompileTime, C = M::ColsAtCompileTime, V = (C == 1) };
  static PyObject* convert(const M& m) {
    bp::list l;
    for (int i = 0; i < m.rows(); ++i) {
      if (V) { l.append(double(m(i, 0))); continue; }
      bp::list r;
      for (int j = 0; j < m.cols(); ++j) r.append(double(m(i, j)));
      l.append(r);
    }
    // an empty matrix keeps its number of columns
    if (!V && m.rows() == 0) { bp::tuple t = bp::make_tuple("empty", int(m.cols())); return bp::incref(t.ptr()); }
    return bp::incref(l.ptr());
  }
  static bool dims(PyObject* o, long& r, long& c) {
    if (PyTuple_Check(o) && !V) { r = 0; c = PyLong_AsLong(PyTuple_GetItem(o, 1)); return true; }
    if (!PyList_Check(o)) return false;
    r = PyList_Size(o);
    c = 1;
    if (V) {
      for (long i = 0; i < r; ++i)
        if (!PyFloat_Check(PyList_GetItem(o, i)) && !PyLong_Check(PyList_GetItem(o, i))) return false;
      return true;
    }
    if (r == 0) { c = 0; return true; }
    for (long i = 0; i < r; ++i) {
      PyObject* w = PyList_GetItem(o, i);
      if (!PyList_Check(w)) return false;
      const long n = PyList_Size(w);
      if (i && n != c) return false;
      c = n;
    }
    return true;
  }
  static void* convertible(PyObject* o) {
    long r, c;
    if (!dims(o, r, c)) return nullptr;
    if (R != Eigen::Dynamic && r != long(R)) return nullptr;
    if (C != Eigen::Dynamic && c != long(C)) return nullptr;
    return o;
  }
  static void construct(PyObject* o, bp::converter::rvalue_from_python_stage1_data* data) {
    void* st = reinterpret_cast<bp::converter::rvalue_from_python_storage<M>*>(data)->storage.bytes;
    long r, c;
    dims(o, r, c);
    M* m = new (st) M();
    m->resize(r, c);
    for (long i = 0; i < r; ++i)
      for (long j = 0; j < c; ++j) {
        PyObject* w = PyList_GetItem(o, i);
        (*m)(i, j) = PyFloat_AsDouble(V ? w : PyList_GetItem(w, j));
      }
    data->convertible = st;
  }
  static void reg() {
    bp::to_python_converter<M, Conv<M>>();
    bp::converter::registry::push_back(&convertible, &construct, bp::type_id<M>());
  }
};

inline void registerEigen() {
  Conv<Eigen::Matrix<double, 1, 1>>::reg();
  Conv<Eigen::Matrix<double, 2, 1>>::reg();
  Conv<Eigen::Matrix<double, 3, 1>>::reg();
  Conv<Eigen::Matrix<double, 4, 1>>::reg();
  Conv<Eigen::Matrix<double, 5, 1>>::reg();
  Conv<Eigen::Matrix<double, 6, 1>>::reg();
  Conv<Eigen::Matrix<double, 2, 2>>::reg();
  Conv<Eigen::Matrix<double, 3, 3>>::reg();
  Conv<Eigen::Matrix<double, 4, 4>>::reg();
  Conv<Eigen::Matrix<double, 5, 5>>::reg();
  Conv<Eigen::Matrix<double, 6, 6>>::reg();
  Conv<Eigen::Matrix<double, 3, 4>>::reg();
  Conv<Eigen::Matrix<double, 4, 3>>::reg();
  Conv<Eigen::Matrix<double, 4, 6>>::reg();
  Conv<Eigen::Matrix<double, 3, 6>>::reg();
  Conv<Eigen::MatrixXd>::reg();
  Conv<Eigen::VectorXd>::reg();
}

inline bp::object& module() {
  static bp::object* m = [] {
    // every Python object is an allocation of its own, so that the sanitizer sees a use after its release
    PyPreConfig pre;
    PyPreConfig_InitPythonConfig(&pre);
    pre.use_environment = 0;
    pre.utf8_mode = 1;
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;
    Py_PreInitialize(&pre);
    PyImport_AppendInittab("libsm_python", &PyInit_libsm_python);
    Py_DontWriteBytecodeFlag = 1;
    Py_NoSiteFlag = 1;
    Py_IgnoreEnvironmentFlag = 1;
    Py_InitializeEx(0);
    registerEigen();
    return new bp::object(bp::import("libsm_python"));
  }();
  return *m;
}

/// the type and message of the Python exception that is pending; clears it
inline std::string pending(std::string* type = nullptr) {
  PyObject *t = nullptr, *v = nullptr, *b = nullptr;
  PyErr_Fetch(&t, &v, &b);
  PyErr_NormalizeException(&t, &v, &b);
  std::string name = t ? reinterpret_cast<PyTypeObject*>(t)->tp_name : "none", msg;
  if (v) {
    PyObject* s = PyObject_Str(v);
    if (s) { const char* c = PyUnicode_AsUTF8(s); msg = c ? c : "?"; Py_DECREF(s); }
  }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
  PyErr_Clear();
  if (type) *type = name;
  return name + ": " + msg;
}
/// calls f; a Python exception becomes a failure of the case
template <typename F>
auto py(F f) -> decltype(f()) {
  try {
    return f();
  } catch (const bp::error_already_set&) {
    PBT_FAIL("Python raised " << pending());
  }
}
/// the type name of the Python exception that f raises, or ""
template <typename F>
std::string raised(F f, std::string* msg = nullptr) {
  try {
    f();
  } catch (const bp::error_already_set&) {
    std::string t, m = pending(&t);
    if (msg) *msg = m;
    return t;
  }
  return "";
}
template <typename T>
T as(const bp::object& o, const char* what) {
  bp::extract<T> x(o);
  if (!x.check()) PBT_FAIL(what << ": the result is a " << Py_TYPE(o.ptr())->tp_name);
  return x();
}
inline std::string className(const bp::object& o) { return Py_TYPE(o.ptr())->tp_name; }
/// runs a piece of Python in a namespace of its own that knows the module as sm; returns the namespace
inline bp::dict run(const std::string& code, bp::dict ns = bp::dict()) {
  ns["__builtins__"] = bp::import("builtins");
  ns["sm"] = module();
  bp::exec(code.c_str(), ns, ns);
  return ns;
}
/// the package sm of /repo/sm_python/python, around this module; what it draws with is replaced by empty modules
inline bp::object& package() {
  static bp::object* p = [] {
    module();
    const char* r = std::getenv("VERIF_REPO");
    bp::dict ns;
    ns["repo"] = std::string(r ? r : "/repo");
    run("import sys, types\n"
        "sys.dont_write_bytecode = True\n"
        "for n in ('numpy_eigen', 'pylab', 'matplotlib', 'matplotlib.axes'):\n"
        "    sys.modules[n] = types.ModuleType(n)\n"
        "sys.modules['matplotlib'].axes = sys.modules['matplotlib.axes']\n"
        "try:\n"
        "    sys.path.append('/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2])\n"
        "    import numpy\n"
        "except ImportError:\n"
        "    sys.modules['numpy'] = types.ModuleType('numpy')\n"
        "sys.path.insert(0, repo + '/sm_python/python')\n"
        "sys.modules['sm.libsm_python'] = sys.modules['libsm_python']\n", ns);
    return new bp::object(bp::import("sm"));
  }();
  return *p;
}
}  // namespace pyembed
#endif
