// Non-template part of the stand-in for pybind11 (see pybind11/pybind11.h).
#define MINI_PYBIND_CORE
#include <pybind11/numpy.h>
#include <structmember.h>

#include <mutex>

namespace pybind11 {
namespace detail {

static std::unordered_map<std::type_index, type_info*>& types() {
  static auto* m = new std::unordered_map<std::type_index, type_info*>();
  return *m;
}
static std::unordered_map<PyTypeObject*, type_info*>& pytypes() {
  static auto* m = new std::unordered_map<PyTypeObject*, type_info*>();
  return *m;
}
static std::unordered_multimap<const void*, instance*>& instances() {
  static auto* m = new std::unordered_multimap<const void*, instance*>();
  return *m;
}

type_info* get_type_info(const std::type_info& ti, bool throw_if_missing) {
  auto it = types().find(std::type_index(ti));
  if (it != types().end()) return it->second;
  if (throw_if_missing)
    throw cast_error(std::string("Unregistered type : ") + ti.name());
  return nullptr;
}

type_info* find_type_info(PyTypeObject* t) {
  for (PyTypeObject* p = t; p; p = p->tp_base) {
    auto it = pytypes().find(p);
    if (it != pytypes().end()) return it->second;
  }
  return nullptr;
}

static void unregister(instance* self) {
  auto r = instances().equal_range(self->value);
  for (auto it = r.first; it != r.second; ++it) {
    if (it->second == self) {
      instances().erase(it);
      return;
    }
  }
}

static PyObject* inst_new(PyTypeObject* t, PyObject*, PyObject*) {
  auto* self = reinterpret_cast<instance*>(t->tp_alloc(t, 0));
  if (!self) return nullptr;
  self->value = nullptr;
  self->owned = false;
  self->patients = nullptr;
  self->weakrefs = nullptr;
  self->tinfo = find_type_info(t);
  return reinterpret_cast<PyObject*>(self);
}

static void inst_dealloc(PyObject* o) {
  auto* self = reinterpret_cast<instance*>(o);
  PyTypeObject* t = Py_TYPE(o);
  if (self->weakrefs) PyObject_ClearWeakRefs(o);
  if (self->value) {
    unregister(self);
    if (self->owned && self->tinfo) {
      PyObject *a, *b, *c;
      PyErr_Fetch(&a, &b, &c);
      self->tinfo->destroy(self->value);
      PyErr_Restore(a, b, c);
    }
    self->value = nullptr;
  }
  if (self->patients) {
    auto* p = self->patients;
    self->patients = nullptr;
    for (PyObject* x : *p) Py_DECREF(x);
    delete p;
  }
  t->tp_free(o);
  Py_DECREF(t);
}

static int inst_init(PyObject* o, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(o)->tp_name);
  return -1;
}

static PyMemberDef inst_members[] = {
    {"__weaklistoffset__", T_PYSSIZET, offsetof(instance, weakrefs), READONLY,
     nullptr},
    {nullptr, 0, 0, 0, nullptr}};

PyTypeObject* make_type(handle scope, const char* name, type_info* ti) {
  std::string mod = "opensfm";
  if (scope) {
    PyObject* n = PyObject_GetAttrString(
        scope.ptr(), PyModule_Check(scope.ptr()) ? "__name__" : "__module__");
    if (n) {
      mod = PyUnicode_AsUTF8(n);
      Py_DECREF(n);
    } else {
      PyErr_Clear();
    }
  }
  // the full name must outlive the type
  auto* full = new std::string(mod + "." + name);
  PyType_Slot slots[] = {
      {Py_tp_new, reinterpret_cast<void*>(inst_new)},
      {Py_tp_dealloc, reinterpret_cast<void*>(inst_dealloc)},
      {Py_tp_init, reinterpret_cast<void*>(inst_init)},
      {Py_tp_members, inst_members},
      {0, nullptr}};
  PyType_Spec spec = {full->c_str(), sizeof(instance), 0,
                      Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
  PyObject* t = PyType_FromSpec(&spec);
  if (!t) throw error_already_set();
  ti->type = reinterpret_cast<PyTypeObject*>(t);
  types()[std::type_index(*ti->cpptype)] = ti;
  pytypes()[ti->type] = ti;
  if (scope) PyObject_SetAttrString(scope.ptr(), name, t);
  return ti->type;
}

PyObject* find_registered(const void* p, const type_info* ti) {
  auto r = instances().equal_range(p);
  for (auto it = r.first; it != r.second; ++it) {
    instance* i = it->second;
    if (i->tinfo == ti && Py_REFCNT(reinterpret_cast<PyObject*>(i)) > 0) {
      Py_INCREF(reinterpret_cast<PyObject*>(i));
      return reinterpret_cast<PyObject*>(i);
    }
  }
  return nullptr;
}

PyObject* make_instance(const type_info* ti, void* value, bool owned) {
  auto* self =
      reinterpret_cast<instance*>(inst_new(ti->type, nullptr, nullptr));
  if (!self) throw error_already_set();
  self->value = value;
  self->owned = owned;
  instances().emplace(value, self);
  return reinterpret_cast<PyObject*>(self);
}

void set_instance_value(PyObject* o, void* value, bool owned) {
  auto* self = reinterpret_cast<instance*>(o);
  if (self->value) {
    unregister(self);
    if (self->owned) self->tinfo->destroy(self->value);
  }
  self->value = value;
  self->owned = owned;
  instances().emplace(value, self);
}

void add_patient(PyObject* nurse, PyObject* patient) {
  if (!nurse || !patient || nurse == Py_None || patient == Py_None ||
      nurse == patient)
    return;
  if (!is_instance_object(nurse)) return;
  auto* self = reinterpret_cast<instance*>(nurse);
  if (!self->patients) self->patients = new std::vector<PyObject*>();
  Py_INCREF(patient);
  self->patients->push_back(patient);
}

bool is_instance_object(PyObject* o) {
  return o && find_type_info(Py_TYPE(o)) != nullptr;
}

// ------------------------------------------------------------- functions
struct chain {
  std::vector<function_record*> recs;
  PyMethodDef def;
};
static const char* CAPSULE = "mini_pybind_chain";

void translate_exception() {
  try {
    throw;
  } catch (error_already_set& e) {
    e.restore();
  } catch (const stop_iteration& e) {
    PyErr_SetString(PyExc_StopIteration, e.what());
  } catch (const index_error& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const key_error& e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const value_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const type_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

static PyObject* dispatch(PyObject* capsule, PyObject* args, PyObject* kw) {
  auto* ch = static_cast<chain*>(PyCapsule_GetPointer(capsule, CAPSULE));
  const size_t npos = PyTuple_GET_SIZE(args);
  const size_t nkw = kw ? PyDict_Size(kw) : 0;
  for (int pass = 0; pass < 2; ++pass) {
    const bool convert = pass == 1;
    if (pass == 0 && ch->recs.size() == 1) continue;  // as pybind11 does
    for (function_record* rec : ch->recs) {
      if (npos > rec->nargs) continue;
      function_call call;
      call.args.resize(rec->nargs, nullptr);
      call.convert.assign(rec->nargs, convert);
      for (size_t i = 0; i < npos; ++i)
        call.args[i] = PyTuple_GET_ITEM(args, i);
      size_t used = 0;
      bool ok = true;
      for (size_t i = npos; i < rec->nargs; ++i) {
        if (i >= rec->arg_names.size()) {
          ok = false;
          break;
        }
        PyObject* v =
            kw ? PyDict_GetItemString(kw, rec->arg_names[i].c_str()) : nullptr;
        if (v) {
          ++used;
        } else if (rec->arg_defaults[i]) {
          v = rec->arg_defaults[i].ptr();
        } else {
          ok = false;
          break;
        }
        call.args[i] = v;
      }
      if (!ok || used != nkw) continue;
      call.parent = rec->nargs ? call.args[0] : nullptr;
      PyObject* r;
      try {
        r = rec->impl(call);
      } catch (const reference_cast_error&) {
        continue;
      } catch (...) {
        translate_exception();
        return nullptr;
      }
      if (r == TRY_NEXT_OVERLOAD) continue;
      if (!r) {
        if (!PyErr_Occurred())
          PyErr_SetString(PyExc_TypeError,
                          "Unable to convert function return value");
        return nullptr;
      }
      for (auto& k : rec->keep) {
        PyObject* n = k.first == 0 ? r : call.args[k.first - 1];
        PyObject* p = k.second == 0 ? r : call.args[k.second - 1];
        add_patient(n, p);
      }
      return r;
    }
  }
  std::string msg = ch->recs[0]->name +
                    "(): incompatible function arguments. Invoked with: ";
  for (size_t i = 0; i < npos; ++i) {
    PyObject* rp = PyObject_Repr(PyTuple_GET_ITEM(args, i));
    if (rp) {
      msg += std::string(i ? ", " : "") + PyUnicode_AsUTF8(rp);
      Py_DECREF(rp);
    } else {
      PyErr_Clear();
    }
  }
  if (nkw) msg += "; kwargs given";
  PyErr_SetString(PyExc_TypeError, msg.c_str());
  return nullptr;
}

static PyObject* is_mini_function(PyObject* o) {
  if (!o) return nullptr;
  if (PyInstanceMethod_Check(o)) o = PyInstanceMethod_GET_FUNCTION(o);
  if (!PyCFunction_Check(o)) return nullptr;
  PyObject* self = PyCFunction_GET_SELF(o);
  if (!self || !PyCapsule_CheckExact(self) ||
      !PyCapsule_IsValid(self, CAPSULE))
    return nullptr;
  return self;
}

PyObject* make_function(function_record* rec, PyObject* sibling) {
  if (PyObject* cap = is_mini_function(sibling)) {
    static_cast<chain*>(PyCapsule_GetPointer(cap, CAPSULE))
        ->recs.push_back(rec);
    Py_INCREF(sibling);
    return sibling;
  }
  auto* ch = new chain();
  ch->recs.push_back(rec);
  ch->def = {rec->name.c_str(),
             reinterpret_cast<PyCFunction>(reinterpret_cast<void*>(dispatch)),
             METH_VARARGS | METH_KEYWORDS, nullptr};
  PyObject* cap = PyCapsule_New(ch, CAPSULE, nullptr);
  PyObject* f = PyCFunction_New(&ch->def, cap);
  Py_DECREF(cap);
  if (rec->is_method) {
    PyObject* m = PyInstanceMethod_New(f);
    Py_DECREF(f);
    return m;
  }
  return f;
}

void add_to_scope(handle scope, const char* name, function_record* rec) {
  PyObject* sib = nullptr;
  if (PyType_Check(scope.ptr())) {
    // only an overload of the same class, not an inherited slot
    PyObject* d = reinterpret_cast<PyTypeObject*>(scope.ptr())->tp_dict;
    sib = d ? PyDict_GetItemString(d, name) : nullptr;
    Py_XINCREF(sib);
  } else {
    sib = PyObject_GetAttrString(scope.ptr(), name);
    if (!sib) PyErr_Clear();
  }
  PyObject* f = make_function(rec, sib);
  bool same = f == sib;
  Py_XDECREF(sib);
  if (!same) PyObject_SetAttrString(scope.ptr(), name, f);
  Py_DECREF(f);
}

void add_property(handle scope, const char* name, PyObject* get, PyObject* set,
                  bool) {
  PyObject* p = PyObject_CallFunctionObjArgs(
      reinterpret_cast<PyObject*>(&PyProperty_Type), get ? get : Py_None,
      set ? set : Py_None, nullptr);
  if (!p) throw error_already_set();
  PyObject_SetAttrString(scope.ptr(), name, p);
  Py_DECREF(p);
  Py_XDECREF(get);
  Py_XDECREF(set);
}

// ----------------------------------------------------------------- enums
static PyObject* helper(const char* fn) {
  static PyObject* ns = nullptr;
  if (!ns) {
    const char* src = R"(
def setup(cls):
    cls.__members__ = {}
    def name(self):
        for k, v in type(self).__members__.items():
            if int(v) == int(self):
                return k
        return "???"
    cls.name = property(name)
    cls.__repr__ = lambda s: "<%s.%s: %d>" % (type(s).__name__, s.name, int(s))
    cls.__str__ = lambda s: "%s.%s" % (type(s).__name__, s.name)
    cls.__eq__ = lambda a, b: type(a) is type(b) and int(a) == int(b)
    cls.__ne__ = lambda a, b: not (type(a) is type(b) and int(a) == int(b))
def add(cls, name, value):
    cls.__members__[name] = value
    setattr(cls, name, value)
def export(cls, scope):
    for k, v in cls.__members__.items():
        setattr(scope, k, v)
)";
    ns = PyDict_New();
    PyDict_SetItemString(ns, "__builtins__", PyEval_GetBuiltins());
    PyObject* r = PyRun_String(src, Py_file_input, ns, ns);
    if (!r) throw error_already_set();
    Py_DECREF(r);
  }
  return PyDict_GetItemString(ns, fn);
}
static void call_helper(const char* fn, std::initializer_list<PyObject*> a) {
  PyObject* t = PyTuple_New(a.size());
  Py_ssize_t i = 0;
  for (PyObject* x : a) {
    Py_INCREF(x);
    PyTuple_SET_ITEM(t, i++, x);
  }
  PyObject* r = PyObject_CallObject(helper(fn), t);
  Py_DECREF(t);
  if (!r) throw error_already_set();
  Py_DECREF(r);
}
void enum_setup(handle cls, handle) { call_helper("setup", {cls.ptr()}); }
void enum_add(handle cls, const char* name, object value) {
  str n(name);
  call_helper("add", {cls.ptr(), n.ptr(), value.ptr()});
}
void enum_export(handle cls, handle scope) {
  call_helper("export", {cls.ptr(), scope.ptr()});
}

// --------------------------------------------------------------- modules
void init_numpy() {
  if (!PyArray_API && _import_array() < 0) throw error_already_set();
}

PyObject* init_module(const char*, PyModuleDef* def) {
  try {
    init_numpy();
  } catch (...) {
    translate_exception();
    return nullptr;
  }
  return PyModule_Create(def);
}

}  // namespace detail
}  // namespace pybind11
