#pragma once
#define PY_ARRAY_UNIQUE_SYMBOL mini_pybind_ARRAY_API
#ifndef MINI_PYBIND_CORE
#define NO_IMPORT_ARRAY
#endif
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include "pybind11.h"
//
#include <numpy/arrayobject.h>

namespace pybind11 {

struct array {
  enum { c_style = NPY_ARRAY_C_CONTIGUOUS, f_style = NPY_ARRAY_F_CONTIGUOUS,
         forcecast = 0x40000000 };
};

namespace detail {
template <typename T>
constexpr int npy_type() {
  if constexpr (std::is_same_v<T, float>) return NPY_FLOAT;
  else if constexpr (std::is_same_v<T, double>) return NPY_DOUBLE;
  else if constexpr (std::is_same_v<T, bool>) return NPY_BOOL;
  else if constexpr (std::is_integral_v<T> && sizeof(T) == 1)
    return std::is_signed_v<T> ? NPY_INT8 : NPY_UINT8;
  else if constexpr (std::is_integral_v<T> && sizeof(T) == 2)
    return std::is_signed_v<T> ? NPY_INT16 : NPY_UINT16;
  else if constexpr (std::is_integral_v<T> && sizeof(T) == 4)
    return std::is_signed_v<T> ? NPY_INT32 : NPY_UINT32;
  else
    return std::is_signed_v<T> ? NPY_INT64 : NPY_UINT64;
}
}  // namespace detail

template <typename T, int Flags = array::forcecast>
class array_t : public object {
 public:
  using has_load_into = void;
  array_t() : array_t(size_t(0)) {}
  array_t(handle h, borrow_t b) : object(h, b) {}
  array_t(handle h, steal_t s) : object(h, s) {}
  template <int F2>
  array_t(const array_t<T, F2>& o) : object(o) {}  // NOLINT
  explicit array_t(size_t n) { alloc({static_cast<npy_intp>(n)}); }
  explicit array_t(std::initializer_list<size_t> shape) {
    std::vector<npy_intp> d(shape.begin(), shape.end());
    alloc(d);
  }
  PyArrayObject* arr() const { return reinterpret_cast<PyArrayObject*>(m_ptr); }
  const T* data() const { return static_cast<const T*>(PyArray_DATA(arr())); }
  T* mutable_data() {
    if (!PyArray_ISWRITEABLE(arr()))
      throw std::domain_error("array is not writeable");
    return static_cast<T*>(PyArray_DATA(arr()));
  }
  ssize_t ndim() const { return PyArray_NDIM(arr()); }
  ssize_t size() const { return PyArray_SIZE(arr()); }
  ssize_t shape(ssize_t i) const {
    if (i >= ndim()) throw index_error("invalid axis");
    return PyArray_DIM(arr(), i);
  }
  static bool load_into(handle src, bool convert, array_t& out) {
    const int t = detail::npy_type<T>();
    if (!convert) {
      if (!PyArray_Check(src.ptr())) return false;
      auto* a = reinterpret_cast<PyArrayObject*>(src.ptr());
      if (!PyArray_EquivTypenums(PyArray_TYPE(a), t)) return false;
      if ((Flags & array::c_style) && !PyArray_IS_C_CONTIGUOUS(a)) return false;
    }
    PyObject* r = PyArray_FromAny(
        src.ptr(), PyArray_DescrFromType(t), 0, 0,
        ((Flags & array::c_style) ? NPY_ARRAY_C_CONTIGUOUS : 0) |
            NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST,
        nullptr);
    if (!r) {
      PyErr_Clear();
      return false;
    }
    out = array_t(handle(r), steal_t{});
    return true;
  }

 private:
  void alloc(std::vector<npy_intp> d) {
    m_ptr = PyArray_SimpleNew(d.size(), d.data(), detail::npy_type<T>());
    if (!m_ptr) throw error_already_set();
  }
};

}  // namespace pybind11
