// The project's own C++ (lanczos.h, eigen_operators.h, pylinop.h and the bindings in _lanczos.cpp), unchanged, instantiated
// for a scalar that is a reference to a symbolic Python expression. Built by nativebuild.py from the current sources.
#include <type_traits>
#include <concepts>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <stdio.h>
#include <functional>
#include <algorithm>
#include <numeric>
#include <array>
#include <vector>
#include <utility>
#include <limits>
#include <complex>
#include <chrono>
#include <stdexcept>
#include <string>
#include <tuple>
#include <memory>
#include <cassert>
#include <cstdint>
#include <span>
#define eigen_assert(x) do { if (!(x)) throw std::out_of_range("eigen assertion: " #x); } while (0)
#include <Python.h>
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>

static PyObject *cb_to_S = nullptr, *cb_sqrt = nullptr, *cb_div = nullptr, *zero_ = nullptr;
static inline PyObject* chk(PyObject* p){ if (!p) throw pybind11::error_already_set(); return p; }
template< int K > struct Sym {
  using SymF = Sym< K >;
  PyObject* p;
  static PyObject* mk_zero(){ if (!zero_) throw std::runtime_error("not initialised"); Py_INCREF(zero_); return zero_; }
  struct Steal {};
  Sym() : p(mk_zero()) {}
  Sym(Steal, PyObject* q) : p(chk(q)) {}
  Sym(const Sym& o) : p(o.get()) { Py_INCREF(p); }
  Sym(Sym&& o) noexcept : p(o.p) { o.p = nullptr; }
  template< typename T, typename = std::enable_if_t< std::is_arithmetic_v< T > > >
  Sym(T x) {
    if constexpr (std::is_integral_v< T >){
      if (x == T(0)){ p = mk_zero(); return; }
      PyObject* i = chk(PyLong_FromLongLong((long long) x)); p = PyObject_CallOneArg(cb_to_S, i); Py_DECREF(i); chk(p);
    } else {
      PyObject* i = chk(PyFloat_FromDouble((double) x)); p = PyObject_CallOneArg(cb_to_S, i); Py_DECREF(i); chk(p);
    }
  }
  ~Sym(){ Py_XDECREF(p); }
  PyObject* get() const { if (!p) return zero_; return p; }
  SymF& operator=(const SymF& o){ PyObject* q = o.get(); Py_INCREF(q); PyObject* old = p; p = q; Py_XDECREF(old); return *this; }
  SymF& operator=(SymF&& o) noexcept { if (this != &o){ PyObject* old = p; p = o.p; o.p = nullptr; Py_XDECREF(old); } return *this; }
  explicit Sym(const Sym< 1 - K >& o) : p(o.get()) { Py_INCREF(p); }
  friend SymF operator+(const SymF& a, const SymF& b){ return SymF(Steal{}, PyNumber_Add(a.get(), b.get())); }
  friend SymF operator-(const SymF& a, const SymF& b){ return SymF(Steal{}, PyNumber_Subtract(a.get(), b.get())); }
  friend SymF operator*(const SymF& a, const SymF& b){ return SymF(Steal{}, PyNumber_Multiply(a.get(), b.get())); }
  friend SymF operator/(const SymF& a, const SymF& b){ return SymF(Steal{}, PyObject_CallFunctionObjArgs(cb_div, a.get(), b.get(), NULL)); }
  SymF operator-() const { return SymF(Steal{}, PyNumber_Negative(get())); }
  SymF operator+() const { return *this; }
  SymF& operator+=(const SymF& b){ *this = *this + b; return *this; }
  SymF& operator-=(const SymF& b){ *this = *this - b; return *this; }
  SymF& operator*=(const SymF& b){ *this = *this * b; return *this; }
  SymF& operator/=(const SymF& b){ *this = *this / b; return *this; }
  static bool cmp(const SymF& a, const SymF& b, int op){
    PyObject* r = chk(PyObject_RichCompare(a.get(), b.get(), op)); int t = PyObject_IsTrue(r); Py_DECREF(r);
    if (t < 0) throw pybind11::error_already_set();
    return t != 0;
  }
  friend bool operator<(const SymF& a, const SymF& b){ return cmp(a, b, Py_LT); }
  friend bool operator<=(const SymF& a, const SymF& b){ return cmp(a, b, Py_LE); }
  friend bool operator>(const SymF& a, const SymF& b){ return cmp(a, b, Py_GT); }
  friend bool operator>=(const SymF& a, const SymF& b){ return cmp(a, b, Py_GE); }
  friend bool operator==(const SymF& a, const SymF& b){ return cmp(a, b, Py_EQ); }
  friend bool operator!=(const SymF& a, const SymF& b){ return cmp(a, b, Py_NE); }
  explicit operator bool() const { return cmp(*this, SymF(), Py_NE); }
};
template< int K > inline Sym< K > sqrt(const Sym< K >& a){ return Sym< K >(typename Sym< K >::Steal{}, PyObject_CallOneArg(cb_sqrt, a.get())); }
template< int K > inline Sym< K > abs(const Sym< K >& a){ return Sym< K >(typename Sym< K >::Steal{}, PyNumber_Absolute(a.get())); }
template< int K > inline Sym< K > fabs(const Sym< K >& a){ return abs(a); }
template< int K > inline Sym< K > abs2(const Sym< K >& a){ return a * a; }
template< int K > inline Sym< K > conj(const Sym< K >& a){ return a; }
template< int K > inline Sym< K > real(const Sym< K >& a){ return a; }
template< int K > inline Sym< K > imag(const Sym< K >&){ return Sym< K >(); }
template< int K > inline Sym< K > fma(const Sym< K >& a, const Sym< K >& b, const Sym< K >& c){ return a * b + c; }
template< int K > inline Sym< K > hypot(const Sym< K >& a, const Sym< K >& b){ return sqrt(a * a + b * b); }
template< int K > inline Sym< K > pow(const Sym< K >& a, int k){ Sym< K > r(1); for (int i = 0; i < (k < 0 ? -k : k); ++i) r *= a; return k < 0 ? Sym< K >(1) / r : r; }
template< int K > inline bool isnan(const Sym< K >& a){ PyObject* x = a.get(); return PyFloat_Check(x) && std::isnan(PyFloat_AsDouble(x)); }
template< int K > inline bool isinf(const Sym< K >& a){ PyObject* x = a.get(); return PyFloat_Check(x) && std::isinf(PyFloat_AsDouble(x)); }
template< int K > inline bool isfinite(const Sym< K >& a){ PyObject* x = a.get(); return !(PyFloat_Check(x) && !std::isfinite(PyFloat_AsDouble(x))); }
template< int K > inline Sym< K > fmax(const Sym< K >& a, const Sym< K >& b){ return a < b ? b : a; }
template< int K > inline Sym< K > fmin(const Sym< K >& a, const Sym< K >& b){ return b < a ? b : a; }
namespace std {
  using ::sqrt; using ::abs; using ::fabs; using ::conj; using ::real; using ::imag; using ::fma; using ::hypot; using ::pow; using ::isnan; using ::isinf; using ::isfinite; using ::fmax; using ::fmin;
  template< int K > struct numeric_limits< Sym< K > > : numeric_limits< double > {
    using SymF = Sym< K >;
    static SymF epsilon(){ return SymF(0); }
    static SymF min(){ return SymF(0); }
    static SymF denorm_min(){ return SymF(0); }
    static SymF round_error(){ return SymF(0); }
    static SymF quiet_NaN(){ return SymF(numeric_limits< double >::quiet_NaN()); }
    static SymF infinity(){ return SymF(numeric_limits< double >::infinity()); }
    static SymF max(){ return SymF(numeric_limits< double >::infinity()); }
    static SymF lowest(){ return SymF(-numeric_limits< double >::infinity()); }
  };
  template< typename T > concept sym_floating_point = floating_point< T > || same_as< T, Sym< 0 > > || same_as< T, Sym< 1 > >;
}
typedef Sym< 0 > Sym64; typedef Sym< 1 > Sym32;
#include <Eigen/Core>
namespace Eigen {
  template< int K > struct NumTraits< Sym< K > > : GenericNumTraits< Sym< K > > {
    using SymF = Sym< K >;
    typedef SymF Real; typedef SymF NonInteger; typedef SymF Nested; typedef SymF Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 10, AddCost = 100, MulCost = 100 };
    static inline Real epsilon(){ return SymF(0); }
    static inline Real dummy_precision(){ return SymF(0); }
    static inline int digits10(){ return 15; }
  };
}
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#include <Eigen/SparseCore>
#include <pybind11/eigen.h>
#include <pybind11/stl.h>
#include <pybind11/functional.h>
namespace pybind11 { namespace detail {
  template< int K > struct npy_format_descriptor< Sym< K > > {
    static constexpr auto name = const_name("object");
    static constexpr int value = npy_api::NPY_OBJECT_;
    static pybind11::dtype dtype(){ return reinterpret_borrow< pybind11::dtype >(npy_api::get().PyArray_DescrFromType_(value)); }
  };
  template< int K > struct type_caster< Sym< K > > {
    using SymF = Sym< K >;
    PYBIND11_TYPE_CASTER(SymF, const_name("sym"));
    // scalars arrive tagged with the precision they stand for: (expression, 32 or 64)
    bool load(handle src, bool){ if (!PyTuple_Check(src.ptr()) || PyLong_AsLong(PyTuple_GetItem(src.ptr(), 1)) != (K ? 32 : 64)) return false;
      PyObject* r = PyObject_CallOneArg(cb_to_S, PyTuple_GetItem(src.ptr(), 0)); if (!r){ PyErr_Clear(); return false; } value = SymF(typename SymF::Steal{}, r); return true; }
    static handle cast(const SymF& s, return_value_policy, handle){ PyObject* x = s.get(); Py_INCREF(x); return x; }
  };
}}
#define floating_point sym_floating_point
#define noexcept
#include "lanczos.h"
#include "eigen_operators.h"
#include "pylinop.h"
#pragma push_macro("PYBIND11_MODULE")
#undef PYBIND11_MODULE
#define PYBIND11_MODULE(name, m, ...) static void primate_bindings(pybind11::module_& m)
#define double Sym64
#define float Sym32
#include "_lanczos.cpp"
#undef double
#undef float
#undef noexcept
#undef floating_point
#pragma pop_macro("PYBIND11_MODULE")

PYBIND11_MODULE(SYM_MODULE, m){
  m.def("init", [](py::object a, py::object b, py::object c, py::object z){ cb_to_S = a.release().ptr(); cb_sqrt = b.release().ptr(); cb_div = c.release().ptr(); zero_ = z.release().ptr(); });
  primate_bindings(m);
#ifdef WITH_ORTH
  m.def("orth_vector", [](py::array_t< Sym64, py::array::f_style >& v, py::array_t< Sym64, py::array::f_style >& U, int start, int p, bool reverse){
    Eigen::Map< Vector< Sym64 > > vm(v.mutable_data(), v.size()); Eigen::Map< const DenseMatrix< Sym64 > > um(U.data(), U.shape(0), U.shape(1));
    orth_vector< Sym64 >(vm, um, start, p, reverse);
  });
#endif
}
