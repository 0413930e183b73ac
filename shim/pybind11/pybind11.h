// A small stand-in for the parts of pybind11 that OpenSfM's bindings use.
//
// The submodule opensfm/src/third_party/pybind11 is empty in this tree and no
// copy of pybind11 exists in the sandbox, so the repository's own binding
// sources (*/python/pybind.cc, ba_helpers.cc, types.cc, features/*) cannot be
// compiled with the real thing.  This header implements, over the plain
// CPython and numpy C APIs, the interface those sources rely on with
// pybind11's documented semantics (overload resolution in two passes, return
// value policies, keep_alive, pickling support, exception translation).
// It is a seam of the simulation, not a product: nothing in /repo uses it.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_NAMESPACE_BEGIN(name) namespace name {
#define PYBIND11_NAMESPACE_END(name) }

namespace pybind11 {

using ssize_t = Py_ssize_t;

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

// ---------------------------------------------------------------- handles
template <typename T>
T cast_handle(PyObject* h);

class object;
class handle;
namespace detail {
class item_accessor;
class attr_accessor;
}  // namespace detail

class handle {
 public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}  // NOLINT
  PyObject* ptr() const { return m_ptr; }
  PyObject*& ptr() { return m_ptr; }
  const handle& inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle& dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(const handle& o) const { return m_ptr == o.m_ptr; }
  template <typename T>
  T cast() const {
    return cast_handle<T>(m_ptr);
  }
  template <typename K>
  detail::item_accessor operator[](const K& key) const;
  detail::attr_accessor attr(const char* name) const;

 protected:
  PyObject* m_ptr = nullptr;
};

class error_already_set : public std::exception {
 public:
  error_already_set() {
    PyErr_Fetch(&type, &value, &trace);
  }
  error_already_set(const error_already_set& o)
      : type(o.type), value(o.value), trace(o.trace) {
    Py_XINCREF(type);
    Py_XINCREF(value);
    Py_XINCREF(trace);
  }
  ~error_already_set() override {
    Py_XDECREF(type);
    Py_XDECREF(value);
    Py_XDECREF(trace);
  }
  void restore() {
    PyErr_Restore(type, value, trace);
    type = value = trace = nullptr;
  }
  const char* what() const noexcept override { return "python error"; }

 private:
  PyObject *type = nullptr, *value = nullptr, *trace = nullptr;
};

#define MINI_PY_EXC(name)                        \
  class name : public std::runtime_error {       \
   public:                                       \
    using std::runtime_error::runtime_error;     \
    name() : std::runtime_error("") {}           \
  };
MINI_PY_EXC(stop_iteration)
MINI_PY_EXC(index_error)
MINI_PY_EXC(key_error)
MINI_PY_EXC(value_error)
MINI_PY_EXC(type_error)
MINI_PY_EXC(cast_error)
MINI_PY_EXC(reference_cast_error)

struct steal_t {};
struct borrow_t {};

class object : public handle {
 public:
  object() = default;
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept {
    m_ptr = o.m_ptr;
    o.m_ptr = nullptr;
  }
  object(handle h, borrow_t) : handle(h) { inc_ref(); }
  object(handle h, steal_t) : handle(h) {}
  object(const detail::item_accessor& a);  // NOLINT
  ~object() { dec_ref(); }
  object& operator=(const object& o) {
    o.inc_ref();
    PyObject* old = m_ptr;
    m_ptr = o.m_ptr;
    Py_XDECREF(old);
    return *this;
  }
  object& operator=(object&& o) noexcept {
    if (this != &o) {
      PyObject* old = m_ptr;
      m_ptr = o.m_ptr;
      o.m_ptr = nullptr;
      Py_XDECREF(old);
    }
    return *this;
  }
  handle release() {
    PyObject* p = m_ptr;
    m_ptr = nullptr;
    return handle(p);
  }
};

template <typename T>
T reinterpret_borrow(handle h) {
  return T(h, borrow_t{});
}
template <typename T>
T reinterpret_steal(handle h) {
  return T(h, steal_t{});
}

class none : public object {
 public:
  none() : object(Py_None, borrow_t{}) {}
};
class str : public object {
 public:
  using object::object;
  str(const char* s) : object(PyUnicode_FromString(s), steal_t{}) {}  // NOLINT
  str(const std::string& s)                                          // NOLINT
      : object(PyUnicode_FromStringAndSize(s.data(), s.size()), steal_t{}) {}
  static bool check(PyObject* o) { return PyUnicode_Check(o); }
};

template <return_value_policy P = return_value_policy::automatic_reference,
          typename T>
object cast(T&& v, return_value_policy policy = P, handle parent = handle());

class tuple : public object {
 public:
  tuple() : object(PyTuple_New(0), steal_t{}) {}
  explicit tuple(size_t n) : object(PyTuple_New(n), steal_t{}) {}
  tuple(handle h, borrow_t b) : object(h, b) {}
  tuple(handle h, steal_t s) : object(h, s) {}
  tuple(const object& o) {  // NOLINT
    if (PyTuple_Check(o.ptr())) {
      m_ptr = o.ptr();
      inc_ref();
    } else {
      m_ptr = PySequence_Tuple(o.ptr());
      if (!m_ptr) throw error_already_set();
    }
  }
  size_t size() const { return PyTuple_Size(m_ptr); }
  static bool check(PyObject* o) { return PyTuple_Check(o); }
};

class list : public object {
 public:
  list() : object(PyList_New(0), steal_t{}) {}
  list(handle h, borrow_t b) : object(h, b) {}
  list(handle h, steal_t s) : object(h, s) {}
  template <typename T>
  void append(T&& v) {
    object o = pybind11::cast(std::forward<T>(v));
    if (PyList_Append(m_ptr, o.ptr())) throw error_already_set();
  }
  size_t size() const { return PyList_Size(m_ptr); }
  static bool check(PyObject* o) { return PyList_Check(o); }
};

class dict : public object {
 public:
  dict() : object(PyDict_New(), steal_t{}) {}
  dict(handle h, borrow_t b) : object(h, b) {}
  dict(handle h, steal_t s) : object(h, s) {}
  size_t size() const { return PyDict_Size(m_ptr); }
  static bool check(PyObject* o) { return PyDict_Check(o); }
};

class iterator : public object {
 public:
  iterator() = default;
  iterator(handle h, borrow_t b) : object(h, b) {}
  iterator(handle h, steal_t s) : object(h, s) {}
  iterator(const object& o) : object(o) {}  // NOLINT
  iterator(object&& o) : object(std::move(o)) {}  // NOLINT
  static bool check(PyObject*) { return true; }
};

inline size_t len(handle h) {
  Py_ssize_t n = PyObject_Length(h.ptr());
  if (n < 0) throw error_already_set();
  return n;
}

class module_ : public object {
 public:
  module_() = default;
  module_(handle h, borrow_t b) : object(h, b) {}
  static module_ import(const char* name) {
    PyObject* m = PyImport_ImportModule(name);
    if (!m) throw error_already_set();
    module_ r(m, borrow_t{});
    Py_DECREF(m);
    return r;
  }
  template <typename F, typename... Extra>
  module_& def(const char* name, F&& f, const Extra&... extra);
};
using module = module_;

class gil_scoped_release {
 public:
  gil_scoped_release() { st = PyEval_SaveThread(); }
  ~gil_scoped_release() { PyEval_RestoreThread(st); }

 private:
  PyThreadState* st;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() { st = PyGILState_Ensure(); }
  ~gil_scoped_acquire() { PyGILState_Release(st); }

 private:
  PyGILState_STATE st;
};

// ----------------------------------------------------------- annotations
struct module_local {
  explicit module_local(bool = true) {}
};
template <size_t Nurse, size_t Patient>
struct keep_alive {};
template <typename... Ts>
struct call_guard {};
struct const_t_ {};
static constexpr std::true_type const_{};

struct arg_v {
  const char* name;
  object value;
};
struct arg {
  constexpr explicit arg(const char* n) : name(n) {}
  const char* name;
  template <typename T>
  arg_v operator=(T&& v) const {
    return arg_v{name, pybind11::cast(std::forward<T>(v))};
  }
};

namespace detail {
template <typename... Args>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*pf)(Args...)) const noexcept {
    return pf;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*pmf)(Args...),
                            std::false_type = {}) const noexcept {
    return pmf;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*pmf)(Args...) const,
                            std::true_type) const noexcept {
    return pmf;
  }
};
}  // namespace detail
template <typename... Args>
static constexpr detail::overload_cast_impl<Args...> overload_cast{};

// -------------------------------------------------------- type registry
namespace detail {

struct type_info {
  PyTypeObject* type = nullptr;
  const std::type_info* cpptype = nullptr;
  std::string name;
  void* (*copy)(const void*) = nullptr;
  void* (*move)(void*) = nullptr;
  void (*destroy)(void*) = nullptr;
};

struct instance {
  PyObject_HEAD
  void* value;
  const type_info* tinfo;
  bool owned;
  std::vector<PyObject*>* patients;
  PyObject* weakrefs;
};

// defined in core.cc
type_info* get_type_info(const std::type_info& ti, bool throw_if_missing);
type_info* find_type_info(PyTypeObject* t);
PyTypeObject* make_type(handle scope, const char* name, type_info* ti);
PyObject* find_registered(const void* p, const type_info* ti);
PyObject* make_instance(const type_info* ti, void* value, bool owned);
void set_instance_value(PyObject* self, void* value, bool owned);
void add_patient(PyObject* nurse, PyObject* patient);
bool is_instance_object(PyObject* o);
void init_numpy();

struct function_call {
  std::vector<PyObject*> args;
  std::vector<bool> convert;
  PyObject* parent = nullptr;
};
struct function_record {
  std::string name;
  std::function<PyObject*(function_call&)> impl;
  std::vector<std::string> arg_names;   // may be empty
  std::vector<object> arg_defaults;     // parallel to arg_names
  size_t nargs = 0;
  bool is_method = false;
  bool is_init = false;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<size_t, size_t>> keep;
};
static PyObject* const TRY_NEXT_OVERLOAD = reinterpret_cast<PyObject*>(1);
// Creates a function object, or adds to the chain of `sibling`.
PyObject* make_function(function_record* rec, PyObject* sibling);
void add_to_scope(handle scope, const char* name, function_record* rec);
void add_property(handle scope, const char* name, PyObject* get, PyObject* set,
                  bool is_static);
PyObject* init_module(const char* name, PyModuleDef* def);
void translate_exception();

// --------------------------------------------------------------- casters
template <typename T>
using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<
    std::remove_cv_t<std::remove_reference_t<T>>>>;

template <typename T, typename SFINAE = void>
class type_caster;
template <typename T>
using make_caster = type_caster<intrinsic_t<T>>;

template <typename T, typename C>
decltype(auto) cast_op(C& c);

// generic class caster
template <typename T>
class type_caster_base {
 public:
  static constexpr bool is_class = true;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) {
      if (!convert) return false;
      value = nullptr;
      return true;
    }
    type_info* ti = get_type_info(typeid(T), false);
    if (!ti || !PyObject_TypeCheck(src.ptr(), ti->type)) return false;
    value = reinterpret_cast<instance*>(src.ptr())->value;
    return value != nullptr;
  }
  static handle cast(const T& src, return_value_policy policy, handle parent) {
    if (policy == return_value_policy::automatic ||
        policy == return_value_policy::automatic_reference)
      policy = return_value_policy::copy;
    return cast(&src, policy, parent);
  }
  static handle cast(T&& src, return_value_policy, handle parent) {
    return cast(&src, return_value_policy::move, parent);
  }
  static handle cast(const T* src, return_value_policy policy, handle parent) {
    if (!src) {
      Py_RETURN_NONE;
    }
    type_info* ti = get_type_info(typeid(T), true);
    if (PyObject* e = find_registered(src, ti)) return e;
    T* p = const_cast<T*>(src);
    switch (policy) {
      case return_value_policy::automatic:
      case return_value_policy::take_ownership:
        return make_instance(ti, p, true);
      case return_value_policy::automatic_reference:
      case return_value_policy::reference:
        return make_instance(ti, p, false);
      case return_value_policy::copy:
        if constexpr (std::is_copy_constructible_v<T>) {
          return make_instance(ti, new T(*p), true);
        } else {
          throw cast_error("return_value_policy = copy, but not copyable: " +
                           ti->name);
        }
      case return_value_policy::move:
        if constexpr (std::is_move_constructible_v<T>) {
          return make_instance(ti, new T(std::move(*p)), true);
        } else {
          throw cast_error("return_value_policy = move, but not movable");
        }
      case return_value_policy::reference_internal: {
        PyObject* o = make_instance(ti, p, false);
        if (parent && !parent.is_none()) add_patient(o, parent.ptr());
        return o;
      }
    }
    throw cast_error("bad policy");
  }
  operator T*() { return static_cast<T*>(value); }
  operator T&() {
    if (!value) throw reference_cast_error();
    return *static_cast<T*>(value);
  }
  T& ref() { return *this; }
  T* pointer() { return *this; }
  void* value = nullptr;
};

template <typename T, typename SFINAE>
class type_caster : public type_caster_base<T> {};

// casters that hold a value
template <typename T>
struct value_caster {
  static constexpr bool is_class = false;
  T value{};
  T& ref() { return value; }
  T* pointer() { return &value; }
};

template <typename T>
struct type_caster<
    T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool> &&
                        !std::is_same_v<T, char>>> : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if constexpr (std::is_floating_point_v<T>) {
      if (!convert && !PyFloat_Check(src.ptr())) return false;
      double d = PyFloat_AsDouble(src.ptr());
      if (d == -1.0 && PyErr_Occurred()) {
        PyErr_Clear();
        if (convert && PyNumber_Check(src.ptr())) {
          object tmp = reinterpret_steal<object>(PyNumber_Float(src.ptr()));
          PyErr_Clear();
          return tmp && load(tmp, false);
        }
        return false;
      }
      this->value = static_cast<T>(d);
      return true;
    } else {
      if (PyFloat_Check(src.ptr())) return false;
      if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr()))
        return false;
      object tmp;
      handle s = src;
      if (!PyLong_Check(src.ptr())) {
        tmp = reinterpret_steal<object>(PyNumber_Index(src.ptr()));
        if (!tmp) {
          PyErr_Clear();
          if (!convert) return false;
          tmp = reinterpret_steal<object>(PyNumber_Long(src.ptr()));
          if (!tmp) {
            PyErr_Clear();
            return false;
          }
        }
        s = tmp;
      }
      if constexpr (std::is_unsigned_v<T>) {
        unsigned long long v = PyLong_AsUnsignedLongLong(s.ptr());
        if (PyErr_Occurred()) {
          PyErr_Clear();
          return false;
        }
        this->value = static_cast<T>(v);
        return static_cast<unsigned long long>(this->value) == v;
      } else {
        long long v = PyLong_AsLongLong(s.ptr());
        if (v == -1 && PyErr_Occurred()) {
          PyErr_Clear();
          return false;
        }
        this->value = static_cast<T>(v);
        return static_cast<long long>(this->value) == v;
      }
    }
  }
  static handle cast(T src, return_value_policy, handle) {
    if constexpr (std::is_floating_point_v<T>)
      return PyFloat_FromDouble(src);
    else if constexpr (std::is_unsigned_v<T>)
      return PyLong_FromUnsignedLongLong(src);
    else
      return PyLong_FromLongLong(src);
  }
};

template <>
struct type_caster<bool> : value_caster<bool> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.ptr() == Py_True) {
      value = true;
      return true;
    }
    if (src.ptr() == Py_False) {
      value = false;
      return true;
    }
    const char* tn = Py_TYPE(src.ptr())->tp_name;
    if (convert || !std::strcmp(tn, "numpy.bool") ||
        !std::strcmp(tn, "numpy.bool_")) {
      if (src.is_none()) {
        value = false;
        return true;
      }
      auto* nb = Py_TYPE(src.ptr())->tp_as_number;
      if (nb && nb->nb_bool) {
        int r = nb->nb_bool(src.ptr());
        if (r == 0 || r == 1) {
          value = r;
          return true;
        }
        PyErr_Clear();
      }
    }
    return false;
  }
  static handle cast(bool v, return_value_policy, handle) {
    return PyBool_FromLong(v);
  }
};

template <>
struct type_caster<std::string> : value_caster<std::string> {
  bool load(handle src, bool) {
    if (!src) return false;
    if (PyUnicode_Check(src.ptr())) {
      Py_ssize_t n;
      const char* s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
      if (!s) {
        PyErr_Clear();
        return false;
      }
      value.assign(s, n);
      return true;
    }
    if (PyBytes_Check(src.ptr())) {
      value.assign(PyBytes_AsString(src.ptr()), PyBytes_Size(src.ptr()));
      return true;
    }
    return false;
  }
  static handle cast(const std::string& s, return_value_policy, handle) {
    PyObject* o = PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    if (!o) throw error_already_set();
    return o;
  }
};
template <>
struct type_caster<char> : value_caster<char> {
  std::string buf;
  bool load(handle src, bool c) {
    type_caster<std::string> s;
    if (!s.load(src, c)) return false;
    buf = s.value;
    return true;
  }
  static handle cast(const char* s, return_value_policy, handle) {
    return PyUnicode_FromString(s);
  }
};
template <>
struct type_caster<void> {
  static handle cast(...) { Py_RETURN_NONE; }
};
template <>
struct type_caster<std::nullopt_t> {
  static handle cast(std::nullopt_t, return_value_policy, handle) {
    Py_RETURN_NONE;
  }
};

// python object casters
template <typename T>
struct pyobject_check {
  static bool check(PyObject* o) { return T::check(o); }
};
template <>
struct pyobject_check<object> {
  static bool check(PyObject*) { return true; }
};
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_base_of_v<object, T>>>
    : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if constexpr (requires_convert<T>::value) {
      return T::load_into(src, convert, this->value);
    } else {
      if (!pyobject_check<T>::check(src.ptr())) return false;
      this->value = reinterpret_borrow<T>(src);
      return true;
    }
  }
  static handle cast(const handle& src, return_value_policy, handle) {
    return src.inc_ref();
  }
  template <typename U, typename = void>
  struct requires_convert : std::false_type {};
  template <typename U>
  struct requires_convert<U, std::void_t<typename U::has_load_into>>
      : std::true_type {};
};
template <>
struct type_caster<handle> : value_caster<handle> {
  bool load(handle src, bool) {
    value = src;
    return static_cast<bool>(src);
  }
  static handle cast(const handle& src, return_value_policy, handle) {
    return src.inc_ref();
  }
};

// std::unique_ptr return values
template <typename T>
struct type_caster<std::unique_ptr<T>> {
  static handle cast(std::unique_ptr<T>&& src, return_value_policy, handle) {
    T* p = src.release();
    if (!p) Py_RETURN_NONE;
    type_info* ti = get_type_info(typeid(T), true);
    if (PyObject* e = find_registered(p, ti)) return e;
    return make_instance(ti, p, true);
  }
};

// Turning a loaded caster into the argument type T.
template <typename T, typename C>
decltype(auto) cast_op(C& c) {
  if constexpr (std::is_same_v<std::decay_t<T>, const char*>) {
    return static_cast<const char*>(c.buf.c_str());
  } else if constexpr (std::is_pointer_v<std::remove_reference_t<T>>) {
    return static_cast<std::remove_reference_t<T>>(c.pointer());
  } else if constexpr (std::is_rvalue_reference_v<T>) {
    return std::move(c.ref());
  } else if constexpr (std::is_lvalue_reference_v<T>) {
    return static_cast<T>(c.ref());
  } else if constexpr (C::is_class) {
    return T(c.ref());  // by value: copy of the held C++ object
  } else {
    return T(std::move(c.ref()));
  }
}

template <typename T>
struct policy_for {
  // pybind11's return_value_policy_override: rvalues of registered classes
  // are moved
  static return_value_policy get(return_value_policy p) {
    if constexpr (!std::is_lvalue_reference_v<T> && !std::is_pointer_v<T>)
      return return_value_policy::move;
    else
      return p;
  }
};

}  // namespace detail

template <typename T>
T cast_handle(PyObject* h) {
  detail::make_caster<T> c;
  if (!c.load(h, true))
    throw cast_error(std::string("Unable to cast Python instance of type ") +
                     (h ? Py_TYPE(h)->tp_name : "NULL") + " to C++ type " +
                     typeid(T).name());
  return detail::cast_op<T>(c);
}

template <return_value_policy P, typename T>
object cast(T&& v, return_value_policy policy, handle parent) {
  using U = std::remove_cv_t<std::remove_reference_t<T>>;
  if constexpr (std::is_array_v<std::remove_reference_t<T>>) {
    return reinterpret_steal<object>(
        detail::type_caster<char>::cast(v, policy, parent));
  } else {
    if (policy == return_value_policy::automatic)
      policy = std::is_pointer_v<U> ? return_value_policy::take_ownership
               : std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                               : return_value_policy::move;
    else if (policy == return_value_policy::automatic_reference)
      policy = std::is_pointer_v<U> ? return_value_policy::reference
               : std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                               : return_value_policy::move;
    handle h =
        detail::make_caster<T>::cast(std::forward<T>(v), policy, parent);
    if (!h) throw error_already_set();
    return reinterpret_steal<object>(h);
  }
}

template <return_value_policy P = return_value_policy::automatic_reference,
          typename... Args>
tuple make_tuple(Args&&... args) {
  constexpr size_t n = sizeof...(Args);
  object items[n ? n : 1] = {
      pybind11::cast(std::forward<Args>(args), P, handle())...};
  tuple t(n);
  for (size_t i = 0; i < n; ++i)
    PyTuple_SET_ITEM(t.ptr(), i, items[i].release().ptr());
  return t;
}

namespace detail {
class item_accessor {
 public:
  item_accessor(handle o, object k)
      : obj(reinterpret_borrow<object>(o)), key(std::move(k)) {}
  object get() const {
    PyObject* r = PyObject_GetItem(obj.ptr(), key.ptr());
    if (!r) throw error_already_set();
    return reinterpret_steal<object>(r);
  }
  template <typename T>
  T cast() const {
    object o = get();
    return o.cast<T>();
  }
  template <typename T>
  void operator=(T&& v) {
    object o = pybind11::cast(std::forward<T>(v));
    if (PyObject_SetItem(obj.ptr(), key.ptr(), o.ptr()))
      throw error_already_set();
  }
  template <typename K>
  item_accessor operator[](const K& k) const {
    return item_accessor(get(), pybind11::cast(k));
  }

 private:
  object obj;
  object key;
};
class attr_accessor {
 public:
  attr_accessor(handle o, const char* n)
      : obj(reinterpret_borrow<object>(o)), name(n) {}
  object get() const {
    PyObject* r = PyObject_GetAttrString(obj.ptr(), name.c_str());
    if (!r) throw error_already_set();
    return reinterpret_steal<object>(r);
  }
  template <typename T>
  void operator=(T&& v) {
    object o = pybind11::cast(std::forward<T>(v));
    if (PyObject_SetAttrString(obj.ptr(), name.c_str(), o.ptr()))
      throw error_already_set();
  }

 private:
  object obj;
  std::string name;
};
}  // namespace detail

template <typename K>
detail::item_accessor handle::operator[](const K& key) const {
  return detail::item_accessor(*this, pybind11::cast(key));
}
inline detail::attr_accessor handle::attr(const char* name) const {
  return detail::attr_accessor(*this, name);
}
inline object::object(const detail::item_accessor& a) {
  *this = a.get();
}

// -------------------------------------------------------------- functions
namespace detail {

template <typename G>
struct guard_holder {
  G g;
};
template <>
struct guard_holder<void> {};

template <typename... E>
struct find_guard {
  using type = void;
};
template <typename T, typename... Rest>
struct find_guard<T, Rest...> : find_guard<Rest...> {};
template <typename G, typename... Rest>
struct find_guard<call_guard<G>, Rest...> {
  using type = G;
};

inline void process(function_record* r, const arg& a) {
  if (r->is_method && r->arg_names.empty()) {
    r->arg_names.push_back("self");
    r->arg_defaults.emplace_back();
  }
  r->arg_names.push_back(a.name);
  r->arg_defaults.emplace_back();
}
inline void process(function_record* r, const arg_v& a) {
  process(r, arg(a.name));
  r->arg_defaults.back() = a.value;
}
inline void process(function_record* r, return_value_policy p) {
  r->policy = p;
}
template <size_t N, size_t P>
void process(function_record* r, keep_alive<N, P>) {
  r->keep.emplace_back(N, P);
}
template <typename... G>
void process(function_record*, call_guard<G...>) {}
inline void process(function_record*, module_local) {}

template <typename Guard, typename Func, typename R, typename... Args,
          size_t... Is>
PyObject* invoke(function_record* rec, Func& f, function_call& call,
                 std::index_sequence<Is...>) {
  std::tuple<make_caster<Args>...> casters;
  bool ok[] = {true, std::get<Is>(casters).load(call.args[Is],
                                                call.convert[Is])...};
  for (bool b : ok)
    if (!b) return TRY_NEXT_OVERLOAD;
  if constexpr (std::is_void_v<R>) {
    {
      [[maybe_unused]] guard_holder<Guard> g;
      f(cast_op<Args>(std::get<Is>(casters))...);
    }
    Py_RETURN_NONE;
  } else {
    return_value_policy policy = rec->policy;
    if constexpr (!std::is_lvalue_reference_v<R> && !std::is_pointer_v<R>)
      policy = return_value_policy::move;
    auto run = [&]() -> R {
      [[maybe_unused]] guard_holder<Guard> g;
      return f(cast_op<Args>(std::get<Is>(casters))...);
    };
    handle h = make_caster<R>::cast(run(), policy, handle(call.parent));
    return h.ptr();
  }
}

template <typename Guard, typename Func, typename R, typename... Args>
function_record* make_record(Func&& f, R (*)(Args...)) {
  auto* rec = new function_record();
  rec->nargs = sizeof...(Args);
  rec->impl = [rec, f = std::forward<Func>(f)](function_call& c) mutable {
    return invoke<Guard, decltype(f), R, Args...>(
        rec, f, c, std::index_sequence_for<Args...>{});
  };
  return rec;
}

template <typename F>
struct strip_class;
template <typename C, typename R, typename... A>
struct strip_class<R (C::*)(A...)> {
  using type = R (*)(A...);
};
template <typename C, typename R, typename... A>
struct strip_class<R (C::*)(A...) const> {
  using type = R (*)(A...);
};

template <typename Guard, typename R, typename... A>
function_record* record_of(R (*f)(A...)) {
  return make_record<Guard>(f, f);
}
template <typename Guard, typename C, typename R, typename... A>
function_record* record_of(R (C::*f)(A...)) {
  return make_record<Guard>(
      [f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); },
      static_cast<R (*)(C*, A...)>(nullptr));
}
template <typename Guard, typename C, typename R, typename... A>
function_record* record_of(R (C::*f)(A...) const) {
  return make_record<Guard>(
      [f](const C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); },
      static_cast<R (*)(const C*, A...)>(nullptr));
}
template <typename Guard, typename F,
          typename = std::enable_if_t<std::is_class_v<std::decay_t<F>>>>
function_record* record_of(F&& f) {
  using sig = typename strip_class<decltype(&std::decay_t<F>::operator())>::type;
  return make_record<Guard>(std::forward<F>(f), static_cast<sig>(nullptr));
}

template <typename F, typename... Extra>
function_record* build(const char* name, bool is_method, F&& f,
                       const Extra&... extra) {
  using Guard = typename find_guard<Extra...>::type;
  function_record* rec = record_of<Guard>(std::forward<F>(f));
  rec->name = name;
  rec->is_method = is_method;
  (process(rec, extra), ...);
  return rec;
}

// constructors and pickling
template <typename... Args>
struct constructor {};
template <typename G, typename S>
struct pickle_factory {
  G get;
  S set;
};

// members of bases give `R (Base::*)`, all bases here are the class itself
}  // namespace detail

template <typename... Args>
detail::constructor<Args...> init() {
  return {};
}
template <typename G, typename S>
detail::pickle_factory<G, S> pickle(G g, S s) {
  return {std::move(g), std::move(s)};
}

template <typename F, typename... Extra>
module_& module_::def(const char* name, F&& f, const Extra&... extra) {
  detail::add_to_scope(
      *this, name, detail::build(name, false, std::forward<F>(f), extra...));
  return *this;
}

// ---------------------------------------------------------------- classes
namespace detail {
struct v_h {
  PyObject* self;
};
template <>
struct type_caster<v_h> : value_caster<v_h> {
  bool load(handle src, bool) {
    value.self = src.ptr();
    return is_instance_object(src.ptr());
  }
};
}  // namespace detail

template <typename T, typename... Opts>
class class_ : public object {
 public:
  class_() = default;
  template <typename... Extra>
  class_(handle scope, const char* name, const Extra&...) {
    auto* ti = new detail::type_info();
    ti->cpptype = &typeid(T);
    ti->name = name;
    ti->destroy = [](void* p) { delete static_cast<T*>(p); };
    PyTypeObject* t = detail::make_type(scope, name, ti);
    m_ptr = reinterpret_cast<PyObject*>(t);
    inc_ref();
  }
  template <typename F, typename... Extra>
  class_& def(const char* name, F&& f, const Extra&... extra) {
    detail::add_to_scope(
        *this, name, detail::build(name, true, std::forward<F>(f), extra...));
    return *this;
  }
  template <typename... Args, typename... Extra>
  class_& def(detail::constructor<Args...>, const Extra&... extra) {
    auto* rec = detail::build(
        "__init__", true,
        [](detail::v_h v, Args... a) -> void {
          T* p;
          if constexpr (std::is_constructible_v<T, Args...>)
            p = new T(std::forward<Args>(a)...);
          else
            p = new T{std::forward<Args>(a)...};
          detail::set_instance_value(v.self, p, true);
        },
        extra...);
    rec->is_init = true;
    detail::add_to_scope(*this, "__init__", rec);
    return *this;
  }
  template <typename G, typename S>
  class_& def(detail::pickle_factory<G, S> p) {
    def("__getstate__", p.get);
    auto set = p.set;
    auto* rec = detail::build("__setstate__", true,
                              [set](detail::v_h v, tuple t) -> void {
                                detail::set_instance_value(
                                    v.self, new T(set(std::move(t))), true);
                              });
    rec->is_init = true;
    detail::add_to_scope(*this, "__setstate__", rec);
    return *this;
  }
  template <typename F, typename... Extra>
  class_& def_static(const char* name, F&& f, const Extra&... extra) {
    auto* rec = detail::build(name, false, std::forward<F>(f), extra...);
    PyObject* sib = PyObject_GetAttrString(m_ptr, name);
    if (!sib) PyErr_Clear();
    PyObject* fn = detail::make_function(rec, sib);
    Py_XDECREF(sib);
    PyObject* st = PyStaticMethod_New(fn);
    Py_DECREF(fn);
    PyObject_SetAttrString(m_ptr, name, st);
    Py_DECREF(st);
    return *this;
  }
  template <typename C, typename D>
  class_& def_readwrite(const char* name, D C::*pm) {
    return prop(
        name,
        getter([pm](const T& c) -> const D& { return c.*pm; },
               return_value_policy::reference_internal),
        func([pm](T& c, const D& v) -> void { c.*pm = v; }));
  }
  template <typename C, typename D>
  class_& def_readonly(const char* name, const D C::*pm) {
    return prop(name,
                getter([pm](const T& c) -> const D& { return c.*pm; },
                       return_value_policy::reference_internal),
                nullptr);
  }
  template <typename D>
  class_& def_readonly_static(const char* name, const D* pm) {
    object v = pybind11::cast(*pm);
    PyObject_SetAttrString(m_ptr, name, v.ptr());
    return *this;
  }
  template <typename G, typename S, typename... Extra>
  class_& def_property(const char* name, G&& g, S&& s, const Extra&... extra) {
    return prop(name,
                getter(std::forward<G>(g),
                       return_value_policy::reference_internal, extra...),
                func(std::forward<S>(s)));
  }
  template <typename G, typename... Extra>
  class_& def_property_readonly(const char* name, G&& g,
                                const Extra&... extra) {
    return prop(name,
                getter(std::forward<G>(g),
                       return_value_policy::reference_internal, extra...),
                nullptr);
  }

 private:
  template <typename F, typename... Extra>
  PyObject* getter(F&& f, const Extra&... e) {
    return detail::make_function(
        detail::build("", true, std::forward<F>(f), e...), nullptr);
  }
  template <typename F>
  PyObject* func(F&& f) {
    return detail::make_function(
        detail::build("", true, std::forward<F>(f)), nullptr);
  }
  class_& prop(const char* name, PyObject* g, PyObject* s) {
    detail::add_property(*this, name, g, s, false);
    return *this;
  }
};

namespace detail {
void enum_setup(handle cls, handle scope);
void enum_add(handle cls, const char* name, object value);
void enum_export(handle cls, handle scope);
}  // namespace detail

template <typename T>
class enum_ : public class_<T> {
 public:
  using U = std::underlying_type_t<T>;
  enum_(handle scope, const char* name) : class_<T>(scope, name), sc(scope) {
    detail::enum_setup(*this, scope);
    auto* rec = detail::build("__init__", true,
                              [](detail::v_h v, long long a) -> void {
                                detail::set_instance_value(
                                    v.self, new T(static_cast<T>(a)), true);
                              });
    rec->is_init = true;
    detail::add_to_scope(*this, "__init__", rec);
    auto as_int = [](const T& v) -> long long {
      return static_cast<long long>(static_cast<U>(v));
    };
    this->def("__int__", as_int);
    this->def("__index__", as_int);
    this->def("__hash__", as_int);
    this->def("__getstate__", as_int);
    this->def_property_readonly("value", as_int);
    auto* rec2 = detail::build("__setstate__", true,
                               [](detail::v_h v, long long a) -> void {
                                 detail::set_instance_value(
                                     v.self, new T(static_cast<T>(a)), true);
                               });
    rec2->is_init = true;
    detail::add_to_scope(*this, "__setstate__", rec2);
  }
  enum_& value(const char* name, T v) {
    detail::enum_add(*this, name,
                     pybind11::cast(v, return_value_policy::copy));
    return *this;
  }
  enum_& export_values() {
    detail::enum_export(*this, sc);
    return *this;
  }

 private:
  handle sc;
};

// -------------------------------------------------------------- iterators
namespace detail {
template <int Kind, typename It, typename Sen, return_value_policy P>
struct iterator_state {
  It it;
  Sen end;
  bool first_or_done;
};
template <int Kind, return_value_policy P, typename It, typename Sen,
          typename Value, typename Get, typename... Extra>
iterator make_iterator_impl(It first, Sen last, Get get, Extra&&... extra) {
  using state = iterator_state<Kind, It, Sen, P>;
  if (!get_type_info(typeid(state), false)) {
    class_<state>(handle(), "iterator")
        .def("__iter__", [](state& s) -> state& { return s; })
        .def(
            "__next__",
            [get](state& s) -> Value {
              if (!s.first_or_done)
                ++s.it;
              else
                s.first_or_done = false;
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return get(s.it);
            },
            std::forward<Extra>(extra)..., P);
  }
  return iterator(pybind11::cast(state{first, last, true}));
}
}  // namespace detail

template <return_value_policy P = return_value_policy::reference_internal,
          typename It, typename Sen, typename... Extra>
iterator make_iterator(It first, Sen last, Extra&&... extra) {
  using V = decltype(*std::declval<It>());
  return detail::make_iterator_impl<0, P, It, Sen, V>(
      first, last, [](It& i) -> V { return *i; },
      std::forward<Extra>(extra)...);
}
template <return_value_policy P = return_value_policy::reference_internal,
          typename It, typename Sen, typename... Extra>
iterator make_key_iterator(It first, Sen last, Extra&&... extra) {
  using V = decltype(((*std::declval<It>()).first));
  return detail::make_iterator_impl<1, P, It, Sen, V>(
      first, last, [](It& i) -> V { return (*i).first; },
      std::forward<Extra>(extra)...);
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                      \
  static void mini_pybind_init_##name(pybind11::module_&);                   \
  static PyModuleDef mini_pybind_def_##name = {                              \
      PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr,                    \
      nullptr,               nullptr, nullptr, nullptr};                     \
  extern "C" __attribute__((visibility("default"))) PyObject*                \
      PyInit_##name() {                                                      \
    PyObject* mod =                                                          \
        pybind11::detail::init_module(#name, &mini_pybind_def_##name);       \
    if (!mod) return nullptr;                                                \
    try {                                                                    \
      pybind11::module_ m(mod, pybind11::borrow_t{});                        \
      mini_pybind_init_##name(m);                                            \
    } catch (...) {                                                          \
      pybind11::detail::translate_exception();                               \
      Py_DECREF(mod);                                                        \
      return nullptr;                                                        \
    }                                                                        \
    return mod;                                                              \
  }                                                                          \
  static void mini_pybind_init_##name(pybind11::module_& variable)

// `namespace py = pybind11` is what every translation unit of the repository
// assumes; some get it only from a header included before.
