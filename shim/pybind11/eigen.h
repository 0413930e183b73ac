#pragma once
#include <Eigen/Core>

#include "numpy.h"

namespace pybind11 {
namespace detail {

template <typename T>
struct is_eigen_matrix : std::false_type {};
template <typename S, int R, int C, int O, int MR, int MC>
struct is_eigen_matrix<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};

template <typename M>
PyObject* eigen_array(const M& m, handle base, bool writeable) {
  using S = typename M::Scalar;
  constexpr bool vec = M::IsVectorAtCompileTime;
  npy_intp dims[2], strides[2];
  const npy_intp e = sizeof(S);
  int nd;
  if (vec) {
    nd = 1;
    dims[0] = m.size();
    strides[0] = e * m.innerStride();
  } else {
    nd = 2;
    dims[0] = m.rows();
    dims[1] = m.cols();
    strides[0] = e * m.rowStride();
    strides[1] = e * m.colStride();
  }
  if (base) {
    PyObject* a = PyArray_New(&PyArray_Type, nd, dims, npy_type<S>(), strides,
                              const_cast<S*>(m.data()), 0,
                              writeable ? NPY_ARRAY_WRITEABLE : 0, nullptr);
    if (!a) throw error_already_set();
    base.inc_ref();
    PyArray_SetBaseObject(reinterpret_cast<PyArrayObject*>(a), base.ptr());
    return a;
  }
  PyObject* a = PyArray_New(&PyArray_Type, nd, dims, npy_type<S>(), nullptr,
                            nullptr, 0,
                            (nd == 2 && !M::IsRowMajor) ? NPY_ARRAY_F_CONTIGUOUS
                                                        : 0,
                            nullptr);
  if (!a) throw error_already_set();
  auto* out =
      static_cast<S*>(PyArray_DATA(reinterpret_cast<PyArrayObject*>(a)));
  // storage orders agree by construction
  if (m.size()) std::memcpy(out, m.data(), sizeof(S) * m.size());
  return a;
}

template <typename M>
struct type_caster<M, std::enable_if_t<is_eigen_matrix<M>::value>> {
  static constexpr bool is_class = false;
  using S = typename M::Scalar;
  M value;
  M& ref() { return value; }
  M* pointer() { return &value; }
  bool load(handle src, bool convert) {
    const int t = npy_type<S>();
    if (!src) return false;
    if (!convert) {
      if (!PyArray_Check(src.ptr())) return false;
      if (!PyArray_EquivTypenums(
              PyArray_TYPE(reinterpret_cast<PyArrayObject*>(src.ptr())), t))
        return false;
    }
    object any = reinterpret_steal<object>(PyArray_FromAny(
        src.ptr(), nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr));
    if (!any) {
      PyErr_Clear();
      return false;
    }
    auto* a0 = reinterpret_cast<PyArrayObject*>(any.ptr());
    if (PyArray_NDIM(a0) != 1 && PyArray_NDIM(a0) != 2) return false;
    object o = reinterpret_steal<object>(
        PyArray_FromAny(any.ptr(), PyArray_DescrFromType(t), 0, 0,
                        NPY_ARRAY_FORCECAST | NPY_ARRAY_ALIGNED, nullptr));
    if (!o) {
      PyErr_Clear();
      return false;
    }
    auto* a = reinterpret_cast<PyArrayObject*>(o.ptr());
    npy_intp r, c, rs, cs;
    constexpr int R = M::RowsAtCompileTime, C = M::ColsAtCompileTime;
    if (PyArray_NDIM(a) == 2) {
      r = PyArray_DIM(a, 0);
      c = PyArray_DIM(a, 1);
      rs = PyArray_STRIDE(a, 0);
      cs = PyArray_STRIDE(a, 1);
      if ((R != Eigen::Dynamic && r != R) || (C != Eigen::Dynamic && c != C))
        return false;
    } else {
      npy_intp n = PyArray_DIM(a, 0);
      npy_intp st = PyArray_STRIDE(a, 0);
      if (M::IsVectorAtCompileTime) {
        if ((R != Eigen::Dynamic && C != Eigen::Dynamic) && n != R * C)
          return false;
        if (C == 1) {
          r = n;
          c = 1;
          rs = st;
          cs = 0;
        } else {
          r = 1;
          c = n;
          rs = 0;
          cs = st;
        }
      } else if (R != Eigen::Dynamic && C != Eigen::Dynamic) {
        return false;
      } else if (C != Eigen::Dynamic) {
        if (C != n) return false;
        r = 1;
        c = n;
        rs = 0;
        cs = st;
      } else {
        if (R != Eigen::Dynamic && R != n) return false;
        r = n;
        c = 1;
        rs = st;
        cs = 0;
      }
    }
    value.resize(r, c);
    const char* p = static_cast<const char*>(PyArray_DATA(a));
    for (npy_intp i = 0; i < r; ++i)
      for (npy_intp j = 0; j < c; ++j)
        value(i, j) = *reinterpret_cast<const S*>(p + i * rs + j * cs);
    return true;
  }
  static handle cast_impl(const M* src, bool writeable,
                          return_value_policy policy, handle parent) {
    switch (policy) {
      case return_value_policy::reference_internal:
        return eigen_array(*src, parent ? parent : handle(Py_None), writeable);
      case return_value_policy::reference:
      case return_value_policy::automatic_reference:
        return eigen_array(*src, handle(Py_None), writeable);
      default:
        return eigen_array(*src, handle(), true);
    }
  }
  static handle cast(M&& src, return_value_policy, handle) {
    return eigen_array(src, handle(), true);
  }
  static handle cast(M& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference)
      policy = return_value_policy::copy;
    return cast_impl(&src, true, policy, parent);
  }
  static handle cast(const M& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference)
      policy = return_value_policy::copy;
    return cast_impl(&src, false, policy, parent);
  }
};

}  // namespace detail
}  // namespace pybind11
