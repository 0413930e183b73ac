#pragma once
#include <array>
#include <set>
#include <unordered_set>

#include "pybind11.h"

namespace pybind11 {
namespace detail {

// forward_like: element of a container passed as `T&&`
template <typename T, typename U>
decltype(auto) forward_like(U&& u) {
  if constexpr (std::is_lvalue_reference_v<T>)
    return static_cast<U&>(u);
  else
    return std::move(u);
}

template <typename Type, typename Value>
struct list_caster : value_caster<Type> {
  using value_conv = make_caster<Value>;
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) ||
        PyBytes_Check(src.ptr()))
      return false;
    object seq = reinterpret_steal<object>(PySequence_Fast(src.ptr(), ""));
    if (!seq) {
      PyErr_Clear();
      return false;
    }
    this->value.clear();
    Py_ssize_t n = PySequence_Fast_GET_SIZE(seq.ptr());
    this->value.reserve(n);
    for (Py_ssize_t i = 0; i < n; ++i) {
      value_conv conv;
      if (!conv.load(PySequence_Fast_GET_ITEM(seq.ptr(), i), convert))
        return false;
      this->value.push_back(cast_op<Value>(conv));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    if (!std::is_lvalue_reference_v<Value> && !std::is_pointer_v<Value>) {
      // pybind11: policy = return_value_policy_override<Value>::policy
      // (class types held by value are moved unless a policy was asked for)
      if (!std::is_lvalue_reference_v<T>) policy = return_value_policy::move;
    }
    object l = reinterpret_steal<object>(PyList_New(src.size()));
    Py_ssize_t i = 0;
    for (auto&& v : src) {
      handle h = value_conv::cast(forward_like<T>(v), policy, parent);
      if (!h) return handle();
      PyList_SET_ITEM(l.ptr(), i++, h.ptr());
    }
    return l.release();
  }
};
template <typename T, typename A>
struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};

template <typename Type, typename Key>
struct set_caster : value_caster<Type> {
  bool load(handle src, bool convert) {
    if (!src || !PyAnySet_Check(src.ptr())) return false;
    object it = reinterpret_steal<object>(PyObject_GetIter(src.ptr()));
    this->value.clear();
    while (PyObject* o = PyIter_Next(it.ptr())) {
      object h = reinterpret_steal<object>(o);
      make_caster<Key> c;
      if (!c.load(h, convert)) return false;
      this->value.insert(cast_op<Key>(c));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    object s = reinterpret_steal<object>(PySet_New(nullptr));
    for (auto&& v : src) {
      object h = reinterpret_steal<object>(
          make_caster<Key>::cast(forward_like<T>(v), policy, parent));
      if (!h || PySet_Add(s.ptr(), h.ptr())) return handle();
    }
    return s.release();
  }
};
template <typename K, typename C, typename A>
struct type_caster<std::set<K, C, A>> : set_caster<std::set<K, C, A>, K> {};
template <typename K, typename H, typename E, typename A>
struct type_caster<std::unordered_set<K, H, E, A>>
    : set_caster<std::unordered_set<K, H, E, A>, K> {};

template <typename Type, typename Key, typename Value>
struct map_caster : value_caster<Type> {
  bool load(handle src, bool convert) {
    if (!src || !PyDict_Check(src.ptr())) return false;
    this->value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
      make_caster<Key> kc;
      make_caster<Value> vc;
      if (!kc.load(k, convert) || !vc.load(v, convert)) return false;
      this->value.emplace(cast_op<Key>(kc), cast_op<Value>(vc));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    dict d;
    return_value_policy pv = policy, pk = policy;
    if (!std::is_lvalue_reference_v<T> && !std::is_pointer_v<Key>)
      pk = return_value_policy::move;
    if (!std::is_lvalue_reference_v<T> && !std::is_pointer_v<Value>)
      pv = return_value_policy::move;
    for (auto&& kv : src) {
      object k = reinterpret_steal<object>(
          make_caster<Key>::cast(kv.first, pk, parent));
      object v = reinterpret_steal<object>(
          make_caster<Value>::cast(forward_like<T>(kv.second), pv, parent));
      if (!k || !v || PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()))
        return handle();
    }
    return d.release();
  }
};
template <typename K, typename V, typename C, typename A>
struct type_caster<std::map<K, V, C, A>>
    : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A>
struct type_caster<std::unordered_map<K, V, H, E, A>>
    : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <typename T>
struct type_caster<std::optional<T>> : value_caster<std::optional<T>> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) {
      this->value.reset();
      return true;
    }
    make_caster<T> c;
    if (!c.load(src, convert)) return false;
    this->value.emplace(cast_op<T>(c));
    return true;
  }
  template <typename U>
  static handle cast(U&& src, return_value_policy policy, handle parent) {
    if (!src) Py_RETURN_NONE;
    if (!std::is_pointer_v<T> && !std::is_lvalue_reference_v<U>)
      policy = return_value_policy::move;
    return make_caster<T>::cast(*std::forward<U>(src), policy, parent);
  }
};

template <typename Tup, typename... Ts>
struct tuple_caster : value_caster<Tup> {
  static constexpr size_t N = sizeof...(Ts);
  template <size_t... Is>
  bool load_impl(PyObject* seq, bool convert, std::index_sequence<Is...>) {
    std::tuple<make_caster<Ts>...> cs;
    bool ok[] = {true, std::get<Is>(cs).load(
                           PySequence_Fast_GET_ITEM(seq, Is), convert)...};
    for (bool b : ok)
      if (!b) return false;
    this->value = Tup(cast_op<Ts>(std::get<Is>(cs))...);
    return true;
  }
  bool load(handle src, bool convert) {
    if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()))
      return false;
    object seq = reinterpret_steal<object>(PySequence_Fast(src.ptr(), ""));
    if (!seq) {
      PyErr_Clear();
      return false;
    }
    if (PySequence_Fast_GET_SIZE(seq.ptr()) != N) return false;
    return load_impl(seq.ptr(), convert, std::index_sequence_for<Ts...>{});
  }
  template <typename T, size_t... Is>
  static handle cast_impl(T&& src, return_value_policy policy, handle parent,
                          std::index_sequence<Is...>) {
    object items[] = {reinterpret_steal<object>(make_caster<Ts>::cast(
        std::get<Is>(std::forward<T>(src)), policy, parent))...};
    tuple t(N);
    for (size_t i = 0; i < N; ++i) {
      if (!items[i]) return handle();
      PyTuple_SET_ITEM(t.ptr(), i, items[i].release().ptr());
    }
    return t.release();
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    return cast_impl(std::forward<T>(src), policy, parent,
                     std::index_sequence_for<Ts...>{});
  }
};
template <typename A, typename B>
struct type_caster<std::pair<A, B>>
    : tuple_caster<std::pair<A, B>, A, B> {};
template <typename... Ts>
struct type_caster<std::tuple<Ts...>>
    : tuple_caster<std::tuple<Ts...>, Ts...> {};

}  // namespace detail
}  // namespace pybind11
