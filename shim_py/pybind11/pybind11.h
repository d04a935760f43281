// A small stand-in for pybind11 (its submodule is not available), written from its documented behaviour: enough of it
// for the bindings of this repository. Every access to the interpreter is checked for the interpreter lock.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <frameobject.h>
#include <structmember.h>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

extern "C" void pybind_shim_no_gil(const char* what);  // reports an access without the interpreter lock; does not return

namespace pybind11
{
namespace shim
{
inline void need_gil(const char* what)
{
  if (!PyGILState_Check())
    pybind_shim_no_gil(what);
}
}  // namespace shim

enum class return_value_policy : std::uint8_t
{
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

class gil_scoped_acquire
{
public:
  gil_scoped_acquire() : s_(PyGILState_Ensure())
  {
  }
  ~gil_scoped_acquire()
  {
    PyGILState_Release(s_);
  }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

private:
  PyGILState_STATE s_;
};
class gil_scoped_release
{
public:
  gil_scoped_release()
  {
    shim::need_gil("gil_scoped_release");
    s_ = PyEval_SaveThread();
  }
  ~gil_scoped_release()
  {
    PyEval_RestoreThread(s_);
  }
  gil_scoped_release(const gil_scoped_release&) = delete;

private:
  PyThreadState* s_;
};

// ------------------------------------------------------------------ handles and objects
namespace detail
{
template <typename T>
using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;
constexpr const char* _(const char* s)
{
  return s;
}
}  // namespace detail

class object;
class handle
{
public:
  handle() = default;
  handle(PyObject* p) : p_(p)
  {
  }
  PyObject* ptr() const
  {
    return p_;
  }
  const handle& inc_ref() const
  {
    if (p_ != nullptr)
    {
      shim::need_gil("a reference is taken");
      Py_INCREF(p_);
    }
    return *this;
  }
  const handle& dec_ref() const
  {
    if (p_ != nullptr)
    {
      shim::need_gil("a reference is dropped");
      Py_DECREF(p_);
    }
    return *this;
  }
  explicit operator bool() const
  {
    return p_ != nullptr;
  }
  bool is(handle o) const
  {
    return p_ == o.p_;
  }
  bool is_none() const
  {
    return p_ == Py_None;
  }
  template <typename T>
  T cast() const;
  template <return_value_policy policy = return_value_policy::automatic_reference, typename... A>
  object operator()(A&&... args) const;
  object attr(const char* name) const;

protected:
  PyObject* p_{ nullptr };
};
struct borrowed_t
{
};
struct stolen_t
{
};
class object : public handle
{
public:
  object() = default;
  object(handle h, borrowed_t) : handle(h)
  {
    inc_ref();
  }
  object(handle h, stolen_t) : handle(h)
  {
  }
  object(const object& o) : handle(o)
  {
    inc_ref();
  }
  object(object&& o) noexcept : handle(o)
  {
    o.p_ = nullptr;
  }
  object& operator=(const object& o)
  {
    o.inc_ref();
    dec_ref();
    p_ = o.p_;
    return *this;
  }
  object& operator=(object&& o) noexcept
  {
    if (this != &o)
    {
      handle tmp(*this);
      p_ = o.p_;
      o.p_ = nullptr;
      tmp.dec_ref();
    }
    return *this;
  }
  ~object()
  {
    dec_ref();
  }
  handle release()
  {
    PyObject* t = p_;
    p_ = nullptr;
    return handle(t);
  }
  static bool check_(handle h)
  {
    return h.ptr() != nullptr;
  }
};
template <typename T>
T reinterpret_borrow(handle h)
{
  return T(h, borrowed_t{});
}
template <typename T>
T reinterpret_steal(handle h)
{
  return T(h, stolen_t{});
}

// ------------------------------------------------------------------ errors
class error_already_set : public std::runtime_error
{
public:
  error_already_set() : std::runtime_error(describe())
  {
    PyErr_Fetch(&t_, &v_, &b_);
  }
  error_already_set(const error_already_set& o) : std::runtime_error(o), t_(o.t_), v_(o.v_), b_(o.b_)
  {
    gil_scoped_acquire gil;
    Py_XINCREF(t_);
    Py_XINCREF(v_);
    Py_XINCREF(b_);
  }
  error_already_set(error_already_set&& o) noexcept : std::runtime_error(o), t_(o.t_), v_(o.v_), b_(o.b_)
  {
    o.t_ = o.v_ = o.b_ = nullptr;
  }
  ~error_already_set() override
  {
    if (t_ != nullptr)
    {
      gil_scoped_acquire gil;
      PyObject *a, *b, *c;
      PyErr_Fetch(&a, &b, &c);
      Py_XDECREF(t_);
      Py_XDECREF(v_);
      Py_XDECREF(b_);
      PyErr_Restore(a, b, c);
    }
  }
  void restore()
  {
    PyErr_Restore(t_, v_, b_);
    t_ = v_ = b_ = nullptr;
  }

private:
  static std::string describe()
  {
    shim::need_gil("an error is fetched");
    PyObject *t, *v, *b;
    PyErr_Fetch(&t, &v, &b);
    std::string r = "Unknown internal error occurred";
    if (t != nullptr)
    {
      r = reinterpret_cast<PyTypeObject*>(t)->tp_name;
      PyObject* s = v != nullptr ? PyObject_Str(v) : nullptr;
      if (s != nullptr)
      {
        const char* c = PyUnicode_AsUTF8(s);
        r += std::string(": ") + (c != nullptr ? c : "?");
        Py_DECREF(s);
      }
      PyErr_Clear();
    }
    PyErr_Restore(t, v, b);
    return r;
  }
  PyObject *t_{ nullptr }, *v_{ nullptr }, *b_{ nullptr };
};
class builtin_exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
  virtual void set_error() const = 0;
};
#define PYBIND_SHIM_EXC(name, type)                                                                                                                  \
  class name : public builtin_exception                                                                                                              \
  {                                                                                                                                                  \
  public:                                                                                                                                            \
    using builtin_exception::builtin_exception;                                                                                                      \
    name() : name("")                                                                                                                                \
    {                                                                                                                                                \
    }                                                                                                                                                \
    void set_error() const override                                                                                                                  \
    {                                                                                                                                                \
      PyErr_SetString(type, what());                                                                                                                 \
    }                                                                                                                                                \
  };
PYBIND_SHIM_EXC(stop_iteration, PyExc_StopIteration)
PYBIND_SHIM_EXC(index_error, PyExc_IndexError)
PYBIND_SHIM_EXC(key_error, PyExc_KeyError)
PYBIND_SHIM_EXC(value_error, PyExc_ValueError)
PYBIND_SHIM_EXC(type_error, PyExc_TypeError)
PYBIND_SHIM_EXC(buffer_error, PyExc_BufferError)
PYBIND_SHIM_EXC(import_error, PyExc_ImportError)
PYBIND_SHIM_EXC(cast_error, PyExc_RuntimeError)
PYBIND_SHIM_EXC(reference_cast_error, PyExc_RuntimeError)
[[noreturn]] inline void pybind11_fail(const std::string& s)
{
  throw std::runtime_error(s);
}
inline object checked(PyObject* p)
{
  if (p == nullptr)
    throw error_already_set();
  return object(p, stolen_t{});
}
inline object handle::attr(const char* name) const
{
  shim::need_gil("an attribute is read");
  return checked(PyObject_GetAttrString(p_, name));
}

// ------------------------------------------------------------------ python types
#define PYBIND_SHIM_OBJ(Name, Parent, check)                                                                                                         \
public:                                                                                                                                              \
  Name(handle h, borrowed_t) : Parent(h, borrowed_t{})                                                                                               \
  {                                                                                                                                                  \
  }                                                                                                                                                  \
  Name(handle h, stolen_t) : Parent(h, stolen_t{})                                                                                                   \
  {                                                                                                                                                  \
  }                                                                                                                                                  \
  static bool check_(handle h)                                                                                                                       \
  {                                                                                                                                                  \
    return h.ptr() != nullptr && (check);                                                                                                            \
  }
// conversion from any object
#define PYBIND_SHIM_CVT(Name, convert)                                                                                                               \
  Name(const object& o) : object(check_(o) ? o.inc_ref().ptr() : (shim::need_gil("an object is converted"), convert(o.ptr())), stolen_t{})           \
  {                                                                                                                                                  \
    if (p_ == nullptr)                                                                                                                               \
      throw error_already_set();                                                                                                                     \
  }
class none : public object
{
  PYBIND_SHIM_OBJ(none, object, h.ptr() == Py_None)
  none() : object(Py_None, borrowed_t{})
  {
  }
};
class bool_ : public object
{
  PYBIND_SHIM_OBJ(bool_, object, PyBool_Check(h.ptr()))
  bool_(bool v) : object(v ? Py_True : Py_False, borrowed_t{})
  {
  }
};
class int_ : public object
{
  PYBIND_SHIM_OBJ(int_, object, PyLong_Check(h.ptr()))
  template <typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
  int_(T v)
  {
    shim::need_gil("an integer is made");
    p_ = checked(std::is_signed<T>::value ? PyLong_FromLongLong(static_cast<long long>(v)) : PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v)))
             .release()
             .ptr();
  }
};
class float_ : public object
{
  PYBIND_SHIM_OBJ(float_, object, PyFloat_Check(h.ptr()))
  float_(double v)
  {
    shim::need_gil("a float is made");
    p_ = checked(PyFloat_FromDouble(v)).release().ptr();
  }
};
class bytes;
class str : public object
{
  PYBIND_SHIM_OBJ(str, object, PyUnicode_Check(h.ptr()) || PyBytes_Check(h.ptr()))  // the versions of this repository's time take bytes too
  str(const char* s = "") : str(std::string(s))
  {
  }
  str(const std::string& s)
  {
    shim::need_gil("a string is made");
    p_ = checked(PyUnicode_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size()))).release().ptr();
  }
  str(const object& o) : object(check_(o) ? o.inc_ref().ptr() : PyObject_Str(o.ptr()), stolen_t{})
  {
    if (p_ == nullptr)
      throw error_already_set();
  }
  operator std::string() const
  {
    shim::need_gil("a string is read");
    object t = *this;
    if (PyUnicode_Check(p_))
      t = checked(PyUnicode_AsUTF8String(p_));
    char* b;
    Py_ssize_t n;
    if (PyBytes_AsStringAndSize(t.ptr(), &b, &n) != 0)
      throw error_already_set();
    return std::string(b, static_cast<std::size_t>(n));
  }
};
class bytes : public object
{
  PYBIND_SHIM_OBJ(bytes, object, PyBytes_Check(h.ptr()))
  bytes(const char* s = "") : bytes(std::string(s))
  {
  }
  bytes(const char* s, std::size_t n) : bytes(std::string(s, n))
  {
  }
  bytes(const std::string& s)
  {
    shim::need_gil("bytes are made");
    p_ = checked(PyBytes_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size()))).release().ptr();
  }
  operator std::string() const
  {
    return std::string(PyBytes_AS_STRING(p_), static_cast<std::size_t>(PyBytes_GET_SIZE(p_)));
  }
};
// iterates over anything; the elements are held while the iterator stands on them
class iterator
{
public:
  iterator() = default;
  explicit iterator(object it) : it_(std::move(it))
  {
    ++*this;
  }
  iterator& operator++()
  {
    shim::need_gil("an iterator is moved");
    PyObject* n = PyIter_Next(it_.ptr());
    if (n == nullptr && PyErr_Occurred())
      throw error_already_set();
    value_ = object(n, stolen_t{});
    return *this;
  }
  const object& operator*() const
  {
    return value_;
  }
  const object* operator->() const
  {
    return &value_;
  }
  bool operator!=(const iterator& o) const
  {
    return value_.ptr() != o.value_.ptr();
  }
  bool operator==(const iterator& o) const
  {
    return value_.ptr() == o.value_.ptr();
  }

private:
  object it_, value_;
};
#define PYBIND_SHIM_ITERABLE                                                                                                                         \
  iterator begin() const                                                                                                                             \
  {                                                                                                                                                  \
    shim::need_gil("a container is iterated");                                                                                                       \
    return iterator(checked(PyObject_GetIter(p_)));                                                                                                  \
  }                                                                                                                                                  \
  iterator end() const                                                                                                                               \
  {                                                                                                                                                  \
    return iterator();                                                                                                                               \
  }
template <typename T>
object cast(T&& v, return_value_policy policy = return_value_policy::automatic_reference, handle parent = handle());
template <typename Key>
class item_accessor
{
public:
  item_accessor(handle o, Key k) : o_(o, borrowed_t{}), k_(std::move(k))
  {
  }
  template <typename T>
  void operator=(T&& v) &&
  {
    object x = pybind11::cast(std::forward<T>(v), return_value_policy::automatic_reference);
    shim::need_gil("an item is set");
    if (PyObject_SetItem(o_.ptr(), k_.ptr(), x.ptr()) != 0)
      throw error_already_set();
  }
  operator object() const
  {
    return checked(PyObject_GetItem(o_.ptr(), k_.ptr()));
  }
  template <typename T>
  T cast() const
  {
    return static_cast<object>(*this).template cast<T>();
  }

private:
  object o_;
  Key k_;
};
class tuple : public object
{
  PYBIND_SHIM_OBJ(tuple, object, PyTuple_Check(h.ptr()))
  PYBIND_SHIM_ITERABLE
  PYBIND_SHIM_CVT(tuple, PySequence_Tuple)
  std::size_t size() const
  {
    return static_cast<std::size_t>(PyTuple_Size(p_));
  }
};
class sequence : public object
{
  PYBIND_SHIM_OBJ(sequence, object, PySequence_Check(h.ptr()))
  PYBIND_SHIM_ITERABLE
  std::size_t size() const
  {
    return static_cast<std::size_t>(PySequence_Size(p_));
  }
  item_accessor<int_> operator[](std::size_t i) const
  {
    return { *this, int_(i) };
  }
};
class list : public object
{
  PYBIND_SHIM_OBJ(list, object, PyList_Check(h.ptr()))
  PYBIND_SHIM_ITERABLE
  PYBIND_SHIM_CVT(list, PySequence_List)
  list() : object(checked((shim::need_gil("a list is made"), PyList_New(0))))
  {
  }
  std::size_t size() const
  {
    return static_cast<std::size_t>(PyList_Size(p_));
  }
  template <typename T>
  void append(T&& v) const
  {
    object x = pybind11::cast(std::forward<T>(v), return_value_policy::automatic_reference);
    shim::need_gil("a list grows");
    if (PyList_Append(p_, x.ptr()) != 0)
      throw error_already_set();
  }
  item_accessor<int_> operator[](std::size_t i) const
  {
    return { *this, int_(i) };
  }
};
class dict_iterator
{
public:
  dict_iterator() = default;
  explicit dict_iterator(handle d) : d_(d)
  {
    ++*this;
  }
  dict_iterator& operator++()
  {
    PyObject *k, *v;
    if (PyDict_Next(d_.ptr(), &pos_, &k, &v))
      kv_ = { handle(k), handle(v) };
    else
      kv_ = {};
    return *this;
  }
  const std::pair<handle, handle>& operator*() const
  {
    return kv_;
  }
  const std::pair<handle, handle>* operator->() const
  {
    return &kv_;
  }
  bool operator!=(const dict_iterator& o) const
  {
    return kv_.first.ptr() != o.kv_.first.ptr();
  }

private:
  handle d_;
  Py_ssize_t pos_{ 0 };
  std::pair<handle, handle> kv_;
};
class dict : public object
{
  PYBIND_SHIM_OBJ(dict, object, PyDict_Check(h.ptr()))
  dict() : object(checked((shim::need_gil("a dictionary is made"), PyDict_New())))
  {
  }
  std::size_t size() const
  {
    return static_cast<std::size_t>(PyDict_Size(p_));
  }
  dict_iterator begin() const
  {
    shim::need_gil("a dictionary is iterated");
    return dict_iterator(*this);
  }
  dict_iterator end() const
  {
    return dict_iterator();
  }
  item_accessor<object> operator[](handle k) const
  {
    return { *this, object(k, borrowed_t{}) };
  }
  item_accessor<object> operator[](const char* k) const
  {
    return { *this, str(k) };
  }
  bool contains(handle k) const
  {
    return PyDict_Contains(p_, k.ptr()) == 1;
  }
  bool contains(const char* k) const
  {
    return contains(str(k));
  }
};
class set : public object
{
  PYBIND_SHIM_OBJ(set, object, PySet_Check(h.ptr()))
  PYBIND_SHIM_ITERABLE
  set() : object(checked((shim::need_gil("a set is made"), PySet_New(nullptr))))
  {
  }
  template <typename T>
  bool add(T&& v) const
  {
    return PySet_Add(p_, pybind11::cast(std::forward<T>(v)).ptr()) == 0;
  }
};
class iterable : public object
{
  PYBIND_SHIM_OBJ(iterable, object, is_iterable(h))
  PYBIND_SHIM_ITERABLE
  static bool is_iterable(handle h)
  {
    PyObject* i = PyObject_GetIter(h.ptr());
    if (i == nullptr)
      PyErr_Clear();
    Py_XDECREF(i);
    return i != nullptr;
  }
};
class buffer : public object
{
  PYBIND_SHIM_OBJ(buffer, object, PyObject_CheckBuffer(h.ptr()))
};
class args : public tuple
{
  PYBIND_SHIM_OBJ(args, tuple, PyTuple_Check(h.ptr()))
};
class kwargs : public dict
{
  PYBIND_SHIM_OBJ(kwargs, dict, PyDict_Check(h.ptr()))
};
class function : public object
{
  PYBIND_SHIM_OBJ(function, object, PyCallable_Check(h.ptr()))
  function() = default;
  bool is_cpp_function() const
  {
    PyObject* f = p_;
    if (f != nullptr && PyInstanceMethod_Check(f))
      f = PyInstanceMethod_GET_FUNCTION(f);
    else if (f != nullptr && PyMethod_Check(f))
      f = PyMethod_GET_FUNCTION(f);
    return f != nullptr && PyCFunction_Check(f);
  }
};
template <typename T, std::enable_if_t<std::is_base_of<object, T>::value, int> = 0>
bool isinstance(handle h)
{
  shim::need_gil("a type is checked");
  return T::check_(h);
}
template <typename T, std::enable_if_t<!std::is_base_of<object, T>::value, int> = 0>
bool isinstance(handle h);

inline std::size_t len(handle h)
{
  auto n = PyObject_Length(h.ptr());
  if (n < 0)
    throw error_already_set();
  return static_cast<std::size_t>(n);
}
inline std::string repr_of(handle h)
{
  PyObject* s = PyObject_Repr(h.ptr());
  if (s == nullptr)
  {
    PyErr_Clear();
    return "?";
  }
  const char* c = PyUnicode_AsUTF8(s);
  std::string r = c != nullptr ? c : "?";
  PyErr_Clear();
  Py_DECREF(s);
  return r;
}

// ------------------------------------------------------------------ registered types and instances
namespace detail
{
struct holder_base
{
  virtual ~holder_base() = default;
};
template <typename H>
struct holder_of : holder_base
{
  explicit holder_of(H h) : holder(std::move(h))
  {
  }
  H holder;
};
struct type_info
{
  std::type_index cpp{ typeid(void) };
  PyTypeObject* type{ nullptr };
  type_info* base{ nullptr };
  void* (*to_base)(void*){ nullptr };
  void* (*copy)(const void*){ nullptr };
  void (*destroy)(void*){ nullptr };
  // makes the holder that owns the value
  std::unique_ptr<holder_base> (*own)(void*){ nullptr };
  // the holder as a shared pointer to the value, if it is one
  std::shared_ptr<void> (*shared)(holder_base*){ nullptr };
  std::string name;
};
struct instance
{
  PyObject_HEAD void* value;
  type_info* info;
  holder_base* holder;
  std::vector<PyObject*>* patients;
  PyObject* weakrefs;
};
struct internals
{
  std::unordered_map<std::type_index, type_info*> types;
  std::unordered_map<PyTypeObject*, type_info*> by_type;
  std::unordered_multimap<const void*, instance*> instances;
};
inline internals& get_internals()
{
  static internals* i = new internals;
  return *i;
}
inline type_info* get_type_info(std::type_index t)
{
  auto it = get_internals().types.find(t);
  return it == get_internals().types.end() ? nullptr : it->second;
}
inline type_info* info_of(PyTypeObject* t)
{
  for (; t != nullptr; t = t->tp_base)
  {
    auto it = get_internals().by_type.find(t);
    if (it != get_internals().by_type.end())
      return it->second;
  }
  return nullptr;
}
inline void register_instance(instance* s)
{
  shim::need_gil("an instance is registered");
  get_internals().instances.emplace(s->value, s);
}
inline void deregister_instance(instance* s)
{
  auto r = get_internals().instances.equal_range(s->value);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second == s)
    {
      get_internals().instances.erase(it);
      return;
    }
}
inline PyObject* instance_new(PyTypeObject* type, PyObject*, PyObject*)
{
  auto* s = reinterpret_cast<instance*>(type->tp_alloc(type, 0));
  if (s != nullptr)
  {
    s->value = nullptr;
    s->info = info_of(type);
    s->holder = nullptr;
    s->patients = nullptr;
    s->weakrefs = nullptr;
  }
  return reinterpret_cast<PyObject*>(s);
}
inline void instance_dealloc(PyObject* self)
{
  auto* s = reinterpret_cast<instance*>(self);
  PyTypeObject* type = Py_TYPE(self);
  if (PyType_IS_GC(type))
    PyObject_GC_UnTrack(self);
  PyObject *a, *b, *c;
  PyErr_Fetch(&a, &b, &c);
  if (s->weakrefs != nullptr)
    PyObject_ClearWeakRefs(self);
  if (s->value != nullptr)
    deregister_instance(s);
  delete s->holder;
  s->holder = nullptr;
  s->value = nullptr;
  if (s->patients != nullptr)
  {
    auto* p = s->patients;
    s->patients = nullptr;
    for (auto* o : *p)
      Py_DECREF(o);
    delete p;
  }
  PyErr_Restore(a, b, c);
  type->tp_free(self);
  Py_DECREF(type);
}
inline int instance_init(PyObject* self, PyObject*, PyObject*)
{
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
  return -1;
}
inline instance* find_registered(const void* p, type_info* t)
{
  auto r = get_internals().instances.equal_range(p);
  for (auto it = r.first; it != r.second; ++it)
    for (auto* i = info_of(Py_TYPE(reinterpret_cast<PyObject*>(it->second))); i != nullptr; i = i->base)
      if (i == t)
        return it->second;
  return nullptr;
}
// exactly this type, as a cast looks for it
inline instance* find_same(const void* p, type_info* t)
{
  auto r = get_internals().instances.equal_range(p);
  for (auto it = r.first; it != r.second; ++it)
    if (info_of(Py_TYPE(reinterpret_cast<PyObject*>(it->second))) == t)
      return it->second;
  return nullptr;
}
template <typename T, bool = std::is_polymorphic<T>::value>
struct most_derived
{
  static std::pair<const void*, type_info*> get(const T* p)
  {
    return { p, get_type_info(typeid(T)) };
  }
};
template <typename T>
struct most_derived<T, true>
{
  static std::pair<const void*, type_info*> get(const T* p)
  {
    if (p != nullptr)
    {
      auto* t = get_type_info(typeid(*p));
      if (t != nullptr)
        return { dynamic_cast<const void*>(p), t };
    }
    return { p, get_type_info(typeid(T)) };
  }
};
inline instance* make_instance(type_info* t)
{
  auto* s = reinterpret_cast<instance*>(t->type->tp_alloc(t->type, 0));
  if (s == nullptr)
    throw error_already_set();
  s->info = t;
  return s;
}
inline void keep_alive_impl(handle nurse, handle patient)
{
  if (!patient || !nurse || patient.is_none() || nurse.is_none())
    return;
  auto* s = reinterpret_cast<instance*>(nurse.ptr());
  if (info_of(Py_TYPE(nurse.ptr())) == nullptr)
    pybind11_fail("keep_alive: the nurse is no instance of a registered type");
  if (s->patients == nullptr)
    s->patients = new std::vector<PyObject*>;
  Py_INCREF(patient.ptr());
  s->patients->push_back(patient.ptr());
}

// ------------------------------------------------------------------ casters
// A caster has load(handle, convert) and static cast(value, policy, parent), and gives out its value by get<T>().
template <typename T, typename SFINAE = void>
class type_caster;
template <typename T>
using make_caster = type_caster<intrinsic_t<T>>;

#define PYBIND11_TYPE_CASTER(type_, name_)                                                                                                           \
protected:                                                                                                                                           \
  type_ value;                                                                                                                                       \
                                                                                                                                                     \
public:                                                                                                                                              \
  static constexpr auto name = name_;                                                                                                                \
  using value_type = type_;                                                                                                                          \
  operator type_*()                                                                                                                                  \
  {                                                                                                                                                  \
    return &value;                                                                                                                                   \
  }                                                                                                                                                  \
  operator type_&()                                                                                                                                  \
  {                                                                                                                                                  \
    return value;                                                                                                                                    \
  }                                                                                                                                                  \
  type_& shim_value()                                                                                                                                \
  {                                                                                                                                                  \
    return value;                                                                                                                                    \
  }

struct generic_caster_base
{
  void* ptr{ nullptr };
  std::shared_ptr<void> owner;
  bool load_impl(handle src, type_info* want, bool with_holder)
  {
    if (!src || want == nullptr)
      return false;
    if (src.is_none())
    {
      ptr = nullptr;
      owner.reset();
      return true;
    }
    auto* have = info_of(Py_TYPE(src.ptr()));
    if (have == nullptr)
      return false;
    auto* s = reinterpret_cast<instance*>(src.ptr());
    void* p = s->value;
    for (auto* i = have; i != nullptr; i = i->base)
    {
      if (i == want)
      {
        if (s->value == nullptr)
          throw type_error("an instance whose constructor was not called is used");
        ptr = p;
        if (with_holder)
        {
          if (s->holder == nullptr || have->shared == nullptr)
            throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
          owner = std::shared_ptr<void>(have->shared(s->holder), p);
        }
        return true;
      }
      if (i->to_base != nullptr)
        p = i->to_base(p);
    }
    return false;
  }
};
template <typename T>
struct copier
{
  static void* copy(const void* p)
  {
    return new T(*static_cast<const T*>(p));
  }
};
template <typename T>
class type_caster_base : public generic_caster_base
{
public:
  static constexpr auto name = "object";
  bool load(handle src, bool)
  {
    return load_impl(src, get_type_info(typeid(T)), false);
  }
  T& shim_value()
  {
    if (ptr == nullptr)
      throw reference_cast_error("");
    return *static_cast<T*>(ptr);
  }
  T* shim_pointer()
  {
    return static_cast<T*>(ptr);
  }
  static handle cast(const T& src, return_value_policy policy, handle parent)
  {
    if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference)
      policy = return_value_policy::copy;
    return cast(&src, policy, parent);
  }
  static handle cast(T& src, return_value_policy policy, handle parent)
  {
    return cast(const_cast<const T&>(src), policy, parent);
  }
  static handle cast(T&& src, return_value_policy, handle parent)
  {
    return cast(&src, return_value_policy::move, parent);
  }
  static handle cast(const T* src, return_value_policy policy, handle parent)
  {
    shim::need_gil("an instance is made");
    auto st = most_derived<T>::get(src);
    if (st.second == nullptr)
    {
      PyErr_SetString(PyExc_TypeError, (std::string("Unregistered type : ") + typeid(T).name()).c_str());
      throw error_already_set();
    }
    if (src == nullptr)
      return none().release();
    if (auto* r = find_same(st.first, st.second))
    {
      Py_INCREF(reinterpret_cast<PyObject*>(r));
      return handle(reinterpret_cast<PyObject*>(r));
    }
    object guard(reinterpret_cast<PyObject*>(make_instance(st.second)), stolen_t{});
    auto* s = reinterpret_cast<instance*>(guard.ptr());
    switch (policy)
    {
      case return_value_policy::automatic:
      case return_value_policy::take_ownership:
        s->value = const_cast<void*>(st.first);
        s->holder = st.second->own(s->value).release();
        break;
      case return_value_policy::automatic_reference:
      case return_value_policy::reference:
        s->value = const_cast<void*>(st.first);
        break;
      case return_value_policy::copy:
      case return_value_policy::move:
        if (st.second->copy == nullptr)
          throw cast_error("return_value_policy = copy, but the object is non-copyable!");
        s->value = st.second->copy(st.first);
        s->holder = st.second->own(s->value).release();
        break;
      case return_value_policy::reference_internal:
        s->value = const_cast<void*>(st.first);
        keep_alive_impl(guard, parent);
        break;
    }
    register_instance(s);
    return guard.release();
  }
};
template <typename T, typename SFINAE>
class type_caster : public type_caster_base<T>
{
};
template <typename T, typename Holder>
class copyable_holder_caster : public generic_caster_base
{
public:
  static constexpr auto name = "object";
  bool load(handle src, bool)
  {
    if (!load_impl(src, get_type_info(typeid(T)), true))
      return false;
    value = std::static_pointer_cast<T>(owner);
    return true;
  }
  explicit operator T*()
  {
    return value.get();
  }
  explicit operator Holder&()
  {
    return value;
  }
  explicit operator Holder*()
  {
    return &value;
  }
  Holder& shim_value()
  {
    return value;
  }
  static handle cast(const Holder& src, return_value_policy, handle)
  {
    shim::need_gil("an instance is made");
    auto st = most_derived<T>::get(src.get());
    if (st.second == nullptr)
    {
      PyErr_SetString(PyExc_TypeError, (std::string("Unregistered type : ") + typeid(T).name()).c_str());
      throw error_already_set();
    }
    if (src == nullptr)
      return none().release();
    if (auto* r = find_same(st.first, st.second))
    {
      Py_INCREF(reinterpret_cast<PyObject*>(r));
      return handle(reinterpret_cast<PyObject*>(r));
    }
    auto* s = make_instance(st.second);
    s->value = const_cast<void*>(st.first);
    s->holder = new holder_of<std::shared_ptr<void>>(std::const_pointer_cast<std::remove_const_t<T>>(src));
    register_instance(s);
    return handle(reinterpret_cast<PyObject*>(s));
  }

protected:
  Holder value;
};
template <typename T>
class type_caster<std::shared_ptr<T>> : public copyable_holder_caster<T, std::shared_ptr<T>>
{
};
template <typename T, typename Holder>
struct is_holder_type : std::false_type
{
};
// python objects
template <typename T>
class type_caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>>
{
public:
  static constexpr auto name = "object";
  bool load(handle src, bool)
  {
    return load_(src, std::is_base_of<object, T>());
  }
  T& shim_value()
  {
    return *value;
  }
  static handle cast(const handle& src, return_value_policy, handle)
  {
    return src.inc_ref();
  }

private:
  bool load_(handle src, std::true_type)
  {
    if (!isinstance<T>(src))
      return false;
    value = std::make_unique<T>(src, borrowed_t{});
    return true;
  }
  bool load_(handle src, std::false_type)
  {
    value = std::make_unique<T>(src);
    return static_cast<bool>(src);
  }
  std::unique_ptr<T> value;
};
template <>
class type_caster<bool>
{
public:
  PYBIND11_TYPE_CASTER(bool, "bool");
  bool load(handle src, bool convert)
  {
    if (!src)
      return false;
    if (src.ptr() == Py_True || src.ptr() == Py_False)
    {
      value = src.ptr() == Py_True;
      return true;
    }
    if (!convert)
      return false;
    if (src.is_none())
    {
      value = false;
      return true;
    }
    auto* num = Py_TYPE(src.ptr())->tp_as_number;
    if (num == nullptr || num->nb_bool == nullptr)
      return false;
    const int r = num->nb_bool(src.ptr());
    if (r < 0)
    {
      PyErr_Clear();
      return false;
    }
    value = r != 0;
    return true;
  }
  static handle cast(bool v, return_value_policy, handle)
  {
    shim::need_gil("a bool is made");
    return handle(v ? Py_True : Py_False).inc_ref();
  }
};
template <typename T>
class type_caster<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>>
{
public:
  PYBIND11_TYPE_CASTER(T, "number");
  bool load(handle src, bool convert)
  {
    if (!src)
      return false;
    shim::need_gil("a number is read");
    if (std::is_floating_point<T>::value)
    {
      if (!convert && !PyFloat_Check(src.ptr()))
        return false;
      const double d = PyFloat_AsDouble(src.ptr());
      if (d == -1.0 && PyErr_Occurred())
      {
        PyErr_Clear();
        return false;
      }
      value = static_cast<T>(d);
      return true;
    }
    if (PyFloat_Check(src.ptr()))
      return false;
    PyObject* i = PyLong_Check(src.ptr()) ? (Py_INCREF(src.ptr()), src.ptr()) : convert && PyIndex_Check(src.ptr()) ? PyNumber_Index(src.ptr()) : nullptr;
    if (i == nullptr)
    {
      PyErr_Clear();
      return false;
    }
    bool ok;
    if (std::is_signed<T>::value)
    {
      const long long v = PyLong_AsLongLong(i);
      ok = !(v == -1 && PyErr_Occurred()) && static_cast<long long>(static_cast<T>(v)) == v;
      value = static_cast<T>(v);
    }
    else
    {
      const unsigned long long v = PyLong_AsUnsignedLongLong(i);
      ok = !(v == static_cast<unsigned long long>(-1) && PyErr_Occurred()) && static_cast<unsigned long long>(static_cast<T>(v)) == v;
      value = static_cast<T>(v);
    }
    PyErr_Clear();
    Py_DECREF(i);
    return ok;
  }
  static handle cast(T v, return_value_policy, handle)
  {
    shim::need_gil("a number is made");
    if (std::is_floating_point<T>::value)
      return checked(PyFloat_FromDouble(static_cast<double>(v))).release();
    if (std::is_signed<T>::value)
      return checked(PyLong_FromLongLong(static_cast<long long>(v))).release();
    return checked(PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v))).release();
  }
};
template <>
class type_caster<std::string>
{
public:
  PYBIND11_TYPE_CASTER(std::string, "str");
  bool load(handle src, bool)
  {
    if (!src)
      return false;
    shim::need_gil("a string is read");
    if (PyUnicode_Check(src.ptr()))
    {
      PyObject* u = PyUnicode_AsUTF8String(src.ptr());
      if (u == nullptr)
      {
        PyErr_Clear();
        return false;
      }
      value.assign(PyBytes_AS_STRING(u), static_cast<std::size_t>(PyBytes_GET_SIZE(u)));
      Py_DECREF(u);
      return true;
    }
    if (PyBytes_Check(src.ptr()))
    {
      value.assign(PyBytes_AS_STRING(src.ptr()), static_cast<std::size_t>(PyBytes_GET_SIZE(src.ptr())));
      return true;
    }
    return false;
  }
  static handle cast(const std::string& v, return_value_policy, handle)
  {
    shim::need_gil("a string is made");
    return checked(PyUnicode_DecodeUTF8(v.data(), static_cast<Py_ssize_t>(v.size()), nullptr)).release();
  }
};
template <>
class type_caster<char>
{
public:
  bool load(handle src, bool convert)
  {
    return s_.load(src, convert);
  }
  const char* shim_pointer()
  {
    return s_.shim_value().c_str();
  }
  static handle cast(const char* v, return_value_policy p, handle h)
  {
    return type_caster<std::string>::cast(v, p, h);
  }

private:
  type_caster<std::string> s_;
};
template <>
class type_caster<void>
{
public:
  static handle cast(std::nullptr_t, return_value_policy, handle)
  {
    return none().release();
  }
};
// the argument of a call taken out of its caster
template <typename T>
struct take
{
  template <typename C>
  static decltype(auto) from(C& c)
  {
    return (c.shim_value());
  }
};
template <typename T>
struct take<T*>
{
  template <typename C>
  static auto from(C& c)
  {
    return c.shim_pointer();
  }
};
template <typename T>
struct take<T* const> : take<T*>
{
};
template <typename T>
struct take<T* const&> : take<T*>
{
};
template <typename T>
object cast_out(T&& v, return_value_policy policy, handle parent)
{
  handle h = make_caster<T>::cast(std::forward<T>(v), policy, parent);
  if (!h)
    throw error_already_set();
  return object(h, stolen_t{});
}
template <typename T>
T cast_op(make_caster<T>& c)
{
  return take<T>::from(c);
}
template <typename T>
T cast_op(make_caster<T>&& c)
{
  return take<T>::from(c);
}
template <typename T, typename SFINAE = void>
struct load_as
{
  static T get(handle h)
  {
    make_caster<T> c;
    if (!c.load(h, true))
      throw cast_error("Unable to cast Python instance of type " + std::string(h ? Py_TYPE(h.ptr())->tp_name : "?") + " to C++ type");
    return take<T>::from(c);
  }
};
template <>
struct load_as<void>
{
  static void get(handle)
  {
  }
};
template <typename T>
struct load_as<T, std::enable_if_t<std::is_base_of<object, T>::value>>
{
  static T get(handle h)
  {
    return T(object(h, borrowed_t{}), borrowed_t{});
  }
};
}  // namespace detail

template <typename T>
object cast(T&& v, return_value_policy policy, handle parent)
{
  using B = std::remove_reference_t<T>;
  if (policy == return_value_policy::automatic)
    policy = std::is_pointer<B>::value ? return_value_policy::take_ownership :
             std::is_lvalue_reference<T&&>::value ? return_value_policy::copy : return_value_policy::move;
  else if (policy == return_value_policy::automatic_reference)
    policy = std::is_pointer<B>::value ? return_value_policy::reference :
             std::is_lvalue_reference<T&&>::value ? return_value_policy::copy : return_value_policy::move;
  return detail::cast_out(std::forward<T>(v), policy, parent);
}
template <typename T, std::enable_if_t<!std::is_same<T, void>::value, int> = 0>
T cast(const handle& h)
{
  return detail::load_as<T>::get(h);
}
template <typename T, std::enable_if_t<std::is_same<T, void>::value, int> = 0>
void cast(const handle&)
{
}
template <typename T>
T handle::cast() const
{
  return detail::load_as<T>::get(*this);
}
template <typename T, std::enable_if_t<!std::is_base_of<object, T>::value, int>>
bool isinstance(handle h)
{
  auto* want = detail::get_type_info(typeid(T));
  for (auto* i = h ? detail::info_of(Py_TYPE(h.ptr())) : nullptr; i != nullptr; i = i->base)
    if (i == want)
      return true;
  return false;
}
template <return_value_policy policy, typename... A>
object handle::operator()(A&&... a) const
{
  shim::need_gil("a function is called");
  std::vector<object> v = { detail::cast_out(std::forward<A>(a), policy, handle())... };
  object t = checked(PyTuple_New(static_cast<Py_ssize_t>(v.size())));
  for (std::size_t i = 0; i < v.size(); i++)
    PyTuple_SET_ITEM(t.ptr(), static_cast<Py_ssize_t>(i), v[i].release().ptr());
  return checked(PyObject_CallObject(p_, t.ptr()));
}

// ------------------------------------------------------------------ functions
struct arg_v;
struct arg
{
  explicit arg(const char* n) : name(n)
  {
  }
  template <typename T>
  arg_v operator=(T&& v) const;
  const char* name;
};
struct arg_v : arg
{
  arg_v(const char* n, object v) : arg(n), value(std::move(v))
  {
  }
  object value;
};
template <typename T>
arg_v arg::operator=(T&& v) const
{
  return arg_v(name, pybind11::cast(std::forward<T>(v)));
}
template <std::size_t Nurse, std::size_t Patient>
struct keep_alive
{
};
template <typename... G>
struct call_guard;
template <>
struct call_guard<>
{
  struct type
  {
  };
};
template <typename G>
struct call_guard<G>
{
  using type = G;
};
template <typename G, typename... R>
struct call_guard<G, R...>
{
  struct type
  {
    G g;
    typename call_guard<R...>::type r;
  };
};
struct is_method
{
};
struct dynamic_attr
{
};
struct doc
{
  explicit doc(const char*)
  {
  }
};
namespace literals
{
inline arg operator"" _a(const char* n, std::size_t)
{
  return arg(n);
}
}  // namespace literals

namespace detail
{
struct function_record
{
  std::string name;
  bool method{ false };
  std::vector<std::pair<std::string, object>> args;
  return_value_policy policy{ return_value_policy::automatic };
  std::vector<std::pair<std::size_t, std::size_t>> keep;
  // null handle with no error set: the arguments do not fit
  std::function<handle(const std::vector<handle>&, handle parent)> impl;
  std::size_t nargs{ 0 };
  std::unique_ptr<function_record> next;
  PyMethodDef def{};
};
inline void apply(function_record& r, const char*)
{
}
inline void apply(function_record& r, const arg& a)
{
  r.args.push_back({ a.name, object() });
}
inline void apply(function_record& r, const arg_v& a)
{
  r.args.push_back({ a.name, a.value });
}
inline void apply(function_record& r, return_value_policy p)
{
  r.policy = p;
}
inline void apply(function_record&, const doc&)
{
}
template <std::size_t N, std::size_t P>
void apply(function_record& r, const keep_alive<N, P>&)
{
  r.keep.push_back({ N, P });
}
template <typename... G>
void apply(function_record&, const call_guard<G...>&)
{
}
template <typename T>
struct is_guard : std::false_type
{
};
template <typename... G>
struct is_guard<call_guard<G...>> : std::true_type
{
};
template <typename... E>
struct find_guard
{
  using type = call_guard<>::type;
};
template <typename E, typename... R>
struct find_guard<E, R...>
{
  template <typename X, bool>
  struct pick
  {
    using type = typename find_guard<R...>::type;
  };
  template <typename X>
  struct pick<X, true>
  {
    using type = typename X::type;
  };
  using type = typename pick<E, is_guard<E>::value>::type;
};
inline void translate()
{
  try
  {
    throw;
  }
  catch (error_already_set& e)
  {
    e.restore();
  }
  catch (const builtin_exception& e)
  {
    e.set_error();
  }
  catch (const std::bad_alloc& e)
  {
    PyErr_SetString(PyExc_MemoryError, e.what());
  }
  catch (const std::domain_error& e)
  {
    PyErr_SetString(PyExc_ValueError, e.what());
  }
  catch (const std::invalid_argument& e)
  {
    PyErr_SetString(PyExc_ValueError, e.what());
  }
  catch (const std::length_error& e)
  {
    PyErr_SetString(PyExc_ValueError, e.what());
  }
  catch (const std::out_of_range& e)
  {
    PyErr_SetString(PyExc_IndexError, e.what());
  }
  catch (const std::range_error& e)
  {
    PyErr_SetString(PyExc_ValueError, e.what());
  }
  catch (const std::exception& e)
  {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  }
  catch (...)
  {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}
inline PyObject* dispatch(PyObject* capsule, PyObject* a, PyObject* kw)
{
  for (auto* r = static_cast<function_record*>(PyCapsule_GetPointer(capsule, nullptr)); r != nullptr; r = r->next.get())
  {
    try
    {
      std::vector<handle> v;
      const auto n = static_cast<std::size_t>(PyTuple_Size(a));
      if (n > r->nargs)
        continue;
      for (std::size_t i = 0; i < n; i++)
        v.push_back(PyTuple_GetItem(a, static_cast<Py_ssize_t>(i)));
      std::size_t used = 0;
      const std::size_t shift = r->method ? 1 : 0;
      while (v.size() < r->nargs)
      {
        const std::size_t k = v.size() - shift;
        if (v.size() < shift || k >= r->args.size())
          break;
        PyObject* x = kw != nullptr ? PyDict_GetItemString(kw, r->args[k].first.c_str()) : nullptr;
        if (x != nullptr)
          used++;
        else
          x = r->args[k].second.ptr();
        if (x == nullptr)
          break;
        v.push_back(x);
      }
      if (v.size() != r->nargs || (kw != nullptr && used != static_cast<std::size_t>(PyDict_Size(kw))))
        continue;
      handle parent = v.empty() ? handle() : v[0];
      handle res;
      try
      {
        res = r->impl(v, parent);
      }
      catch (const reference_cast_error&)
      {
        continue;
      }
      if (!res)
        continue;
      for (auto& k : r->keep)
      {
        auto at = [&](std::size_t i) { return i == 0 ? res : i <= v.size() ? v[i - 1] : handle(); };
        keep_alive_impl(at(k.first), at(k.second));
      }
      return res.ptr();
    }
    catch (...)
    {
      translate();
      return nullptr;
    }
  }
  auto* r = static_cast<function_record*>(PyCapsule_GetPointer(capsule, nullptr));
  PyErr_SetString(PyExc_TypeError, (r->name + "(): incompatible function arguments: " + repr_of(a)).c_str());
  return nullptr;
}
template <typename R>
struct returned
{
  template <typename F>
  static handle cast(F&& f, return_value_policy policy, handle parent, std::true_type)
  {
    return nullptr;
  }
};
template <typename Guard, typename R, typename F, typename Casters, std::size_t... I, typename... A>
handle call_with(F& f, Casters& c, return_value_policy policy, handle parent, std::index_sequence<I...>, std::tuple<A...>*)
{
  if constexpr (std::is_void<R>::value)
  {
    {
      // what is handed over is taken out first, as the guard may let go of the interpreter
      Guard g;
      (void)g;
      f(static_cast<A>(take<A>::from(std::get<I>(c)))...);
    }
    return none().release();
  }
  else
  {
    auto run = [&]() -> R {
      Guard g;
      (void)g;
      return f(static_cast<A>(take<A>::from(std::get<I>(c)))...);
    };
    R&& r = run();
    if (std::is_pointer<R>::value)
      return cast_out(std::forward<R>(r), policy, parent).release();
    if (!std::is_lvalue_reference<R>::value)
      policy = return_value_policy::move;
    return cast_out(std::forward<R>(r), policy, parent).release();
  }
}
template <typename F, typename R, typename... A, typename... E>
object make_function(const char* name, bool method, handle scope, F f, R (*)(A...), const E&... extra)
{
  auto rec = std::make_unique<function_record>();
  rec->name = name;
  rec->method = method;
  (void)std::initializer_list<int>{ 0, (apply(*rec, extra), 0)... };
  rec->nargs = sizeof...(A);
  auto* rp = rec.get();
  using Guard = typename find_guard<E...>::type;
  rec->impl = [f, rp](const std::vector<handle>& v, handle parent) mutable -> handle {
    std::tuple<make_caster<A>...> c;
    std::size_t i = 0;
    bool ok = true;
    std::apply([&](auto&... x) { (void)std::initializer_list<int>{ 0, (ok = ok && x.load(v[i++], true), 0)... }; }, c);
    if (!ok)
      return handle();
    return call_with<Guard, R>(f, c, rp->policy, parent, std::index_sequence_for<A...>(), static_cast<std::tuple<A...>*>(nullptr));
  };
  auto* p = rec.release();
  p->def.ml_name = strdup(name);
  p->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch));
  p->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
  object capsule = checked(PyCapsule_New(p, nullptr, nullptr));
  return checked(PyCFunction_NewEx(&p->def, capsule.ptr(), nullptr));
}
template <typename F, bool = std::is_class<F>::value>
struct signature : signature<decltype(&F::operator()), false>
{
};
template <typename F>
struct signature<F, false>
{
};
template <typename C, typename R, typename... A>
struct signature<R (C::*)(A...), false>
{
  using type = R (*)(A...);
};
template <typename C, typename R, typename... A>
struct signature<R (C::*)(A...) const, false>
{
  using type = R (*)(A...);
};
template <typename C, typename R, typename... A>
struct signature<R (C::*)(A...) noexcept, false>
{
  using type = R (*)(A...);
};
template <typename C, typename R, typename... A>
struct signature<R (C::*)(A...) const noexcept, false>
{
  using type = R (*)(A...);
};
// the callable with the instance as its first argument
template <typename T, typename R, typename C, typename... A, typename... E>
object method_of(const char* n, handle scope, R (C::*f)(A...), const E&... e)
{
  return make_function(n, true, scope, [f](T* self, A... a) -> R { return (self->*f)(std::forward<A>(a)...); }, static_cast<R (*)(T*, A...)>(nullptr), e...);
}
template <typename T, typename R, typename C, typename... A, typename... E>
object method_of(const char* n, handle scope, R (C::*f)(A...) const, const E&... e)
{
  return make_function(n, true, scope, [f](const T* self, A... a) -> R { return (self->*f)(std::forward<A>(a)...); },
                       static_cast<R (*)(const T*, A...)>(nullptr), e...);
}
template <typename T, typename R, typename... A, typename... E>
object method_of(const char* n, handle scope, R (*f)(A...), const E&... e)
{
  return make_function(n, true, scope, f, f, e...);
}
template <typename T, typename F, typename... E, typename = typename signature<F>::type>
object method_of(const char* n, handle scope, F f, const E&... e)
{
  return make_function(n, true, scope, f, static_cast<typename signature<F>::type>(nullptr), e...);
}
template <typename R, typename... A, typename... E>
object free_of(const char* n, handle scope, R (*f)(A...), const E&... e)
{
  return make_function(n, false, scope, f, f, e...);
}
template <typename F, typename... E, typename = typename signature<F>::type>
object free_of(const char* n, handle scope, F f, const E&... e)
{
  return make_function(n, false, scope, f, static_cast<typename signature<F>::type>(nullptr), e...);
}
template <typename... A>
struct init_tag
{
};
template <typename... A>
struct init_alias_tag
{
};
}  // namespace detail
template <typename... A>
detail::init_tag<A...> init()
{
  return {};
}
namespace detail
{
template <typename F>
struct init_factory_tag
{
  F f;
};
}  // namespace detail
template <typename F>
detail::init_factory_tag<F> init(F f)
{
  return { std::move(f) };
}
template <typename... A>
detail::init_alias_tag<A...> init_alias()
{
  return {};
}
class cpp_function : public function
{
public:
  template <typename F, typename... E>
  cpp_function(F f, const E&... e) : function(detail::free_of("function", handle(), f, e...).release(), stolen_t{})
  {
  }
};

class module : public object
{
public:
  module(handle h, borrowed_t) : object(h, borrowed_t{})
  {
  }
  static bool check_(handle h)
  {
    return PyModule_Check(h.ptr());
  }
  template <typename F, typename... E>
  module& def(const char* name, F&& f, const E&... e)
  {
    object o = detail::free_of(name, *this, std::forward<F>(f), e...);
    if (PyObject_SetAttrString(p_, name, o.ptr()) != 0)
      throw error_already_set();
    return *this;
  }
  module def_submodule(const char* name, const char* = nullptr)
  {
    const std::string full = std::string(PyModule_GetName(p_)) + "." + name;
    PyObject* m = PyImport_AddModule(full.c_str());
    if (m == nullptr)
      throw error_already_set();
    module r(m, borrowed_t{});
    PyObject_SetAttrString(p_, name, m);
    return r;
  }
};
using module_ = module;

namespace detail
{
template <typename T, typename Base>
void* upcast(void* p)
{
  return static_cast<Base*>(static_cast<T*>(p));
}
// sorts out what the parameters of a class_ mean
template <typename T, typename... O>
struct class_options
{
  using holder = std::unique_ptr<T>;
  using alias = void;
  using base = void;
};
template <typename H>
struct is_shared : std::false_type
{
};
template <typename T>
struct is_shared<std::shared_ptr<T>> : std::true_type
{
};
template <typename T>
struct is_unique : std::false_type
{
};
template <typename T>
struct is_unique<std::unique_ptr<T>> : std::true_type
{
};
template <typename T, typename First, typename... R>
struct class_options<T, First, R...>
{
  using rest = class_options<T, R...>;
  static constexpr bool hold = is_shared<First>::value || is_unique<First>::value;
  static constexpr bool is_alias = !hold && !std::is_same<T, First>::value && std::is_base_of<T, First>::value;
  static constexpr bool is_base = !hold && !std::is_same<T, First>::value && std::is_base_of<First, T>::value;
  using holder = std::conditional_t<hold, First, typename rest::holder>;
  using alias = std::conditional_t<is_alias, First, typename rest::alias>;
  using base = std::conditional_t<is_base, First, typename rest::base>;
};
template <typename T>
void* copy_if(std::true_type)
{
  return reinterpret_cast<void*>(static_cast<void* (*)(const void*)>(&copier<T>::copy));
}
}  // namespace detail

template <typename T, typename... Options>
class class_ : public object
{
public:
  using type = T;
  using options = detail::class_options<T, Options...>;
  using holder = typename options::holder;
  using alias = typename options::alias;
  using base = typename options::base;
  template <typename... E>
  class_(handle scope, const char* name, const E&...)
  {
    auto* info = new detail::type_info;
    info->cpp = typeid(T);
    const char* mod = PyModule_Check(scope.ptr()) ? PyModule_GetName(scope.ptr()) : reinterpret_cast<PyTypeObject*>(scope.ptr())->tp_name;
    info->name = std::string(mod) + "." + name;
    PyTypeObject* parent = nullptr;
    if constexpr (!std::is_void<base>::value)
    {
      info->base = detail::get_type_info(typeid(base));
      if (info->base == nullptr)
        pybind11_fail("generic_type: type \"" + std::string(name) + "\" referenced unknown base type");
      info->to_base = &detail::upcast<T, base>;
      parent = info->base->type;
    }
    if constexpr (std::is_copy_constructible<T>::value && !std::is_abstract<T>::value)
      info->copy = &detail::copier<T>::copy;
    info->own = [](void* p) -> std::unique_ptr<detail::holder_base> {
      if constexpr (detail::is_shared<holder>::value)
        return std::make_unique<detail::holder_of<std::shared_ptr<void>>>(std::shared_ptr<void>(holder(static_cast<T*>(p))));
      else
        return std::make_unique<detail::holder_of<holder>>(holder(static_cast<T*>(p)));
    };
    if (detail::is_shared<holder>::value)
      info->shared = [](detail::holder_base* h) { return static_cast<detail::holder_of<std::shared_ptr<void>>*>(h)->holder; };
    static PyMemberDef members[] = { { const_cast<char*>("__weaklistoffset__"), T_PYSSIZET, offsetof(detail::instance, weakrefs), READONLY, nullptr },
                                     { nullptr, 0, 0, 0, nullptr } };
    PyType_Slot slots[] = { { Py_tp_new, reinterpret_cast<void*>(&detail::instance_new) },
                            { Py_tp_dealloc, reinterpret_cast<void*>(&detail::instance_dealloc) },
                            { Py_tp_init, reinterpret_cast<void*>(&detail::instance_init) },
                            { Py_tp_members, members },
                            { 0, nullptr } };
    char* full = strdup(info->name.c_str());
    PyType_Spec spec = { full, sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots };
    object bases;
    if (parent != nullptr)
      bases = checked(PyTuple_Pack(1, reinterpret_cast<PyObject*>(parent)));
    p_ = checked(PyType_FromSpecWithBases(&spec, bases.ptr())).release().ptr();
    info->type = reinterpret_cast<PyTypeObject*>(p_);
    detail::get_internals().types[typeid(T)] = info;
    if constexpr (!std::is_void<alias>::value)
      detail::get_internals().types[typeid(alias)] = info;
    detail::get_internals().by_type[info->type] = info;
    info_ = info;
    Py_INCREF(p_);  // never goes away
    if (PyObject_SetAttrString(scope.ptr(), name, p_) != 0)
      throw error_already_set();
  }
  template <typename F, typename... E>
  class_& def(const char* name, F&& f, const E&... e)
  {
    set(name, checked(PyInstanceMethod_New(detail::method_of<T>(name, *this, std::forward<F>(f), e...).ptr())));
    return *this;
  }
  template <typename F, typename... E>
  class_& def_static(const char* name, F&& f, const E&... e)
  {
    set(name, checked(PyStaticMethod_New(detail::free_of(name, *this, std::forward<F>(f), e...).ptr())));
    return *this;
  }
  template <typename... A, typename... E>
  class_& def(detail::init_tag<A...>, const E&... e)
  {
    return def_init<false, A...>(e...);
  }
  template <typename F, typename... E>
  class_& def(detail::init_factory_tag<F> t, const E&... e)
  {
    return def_factory(t.f, static_cast<typename detail::signature<F>::type>(nullptr), e...);
  }
  template <typename... A, typename... E>
  class_& def(detail::init_alias_tag<A...>, const E&... e)
  {
    return def_init<true, A...>(e...);
  }
  template <typename F, typename... E>
  class_& def_property_readonly_static(const char* name, F&& f, const E&...)
  {
    // the values are constant; they become attributes of the class
    object getter = detail::free_of(name, *this, std::forward<F>(f));
    set(name, checked(PyObject_CallFunctionObjArgs(getter.ptr(), p_, nullptr)));
    return *this;
  }
  template <typename F, typename... E>
  class_& def_property_readonly(const char* name, F&& f, const E&... e)
  {
    object getter = detail::method_of<T>(name, *this, std::forward<F>(f), e...);
    property(name, getter, object());
    return *this;
  }
  template <typename C, typename D, typename... E>
  class_& def_readwrite(const char* name, D C::*pm, const E&...)
  {
    object get = detail::method_of<T>(name, *this, [pm](const T& c) -> const D& { return c.*pm; }, return_value_policy::reference_internal);
    object put = detail::method_of<T>(name, *this, [pm](T& c, const D& v) { c.*pm = v; });
    property(name, get, put);
    return *this;
  }
  template <typename C, typename D, typename... E>
  class_& def_readonly(const char* name, D C::*pm, const E&...)
  {
    property(name, detail::method_of<T>(name, *this, [pm](const T& c) -> const D& { return c.*pm; }, return_value_policy::reference_internal), object());
    return *this;
  }
  void set(const char* name, const object& v)
  {
    if (PyObject_SetAttrString(p_, name, v.ptr()) != 0)
      throw error_already_set();
  }
  detail::type_info* info_;

private:
  void property(const char* name, const object& get, const object& put)
  {
    set(name, checked(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), get ? get.ptr() : Py_None, put ? put.ptr() : Py_None, nullptr)));
  }
  // what a factory makes: a value, a pointer or a holder
  template <typename F, typename Ret, typename... A, typename... E>
  class_& def_factory(F make, Ret (*)(A...), const E&... e)
  {
    auto* info = info_;
    auto f = [info, make](handle self, A... a) {
      auto* s = reinterpret_cast<detail::instance*>(self.ptr());
      if (s->value != nullptr)
        return;
      if constexpr (detail::is_shared<std::decay_t<Ret>>::value)
      {
        std::shared_ptr<T> made = make(std::forward<A>(a)...);
        if (!made)
          throw type_error("pybind11::init(): factory function returned nullptr");
        s->value = made.get();
        s->holder = new detail::holder_of<std::shared_ptr<void>>(made);
      }
      else
      {
        if constexpr (std::is_pointer<Ret>::value)
          s->value = static_cast<T*>(make(std::forward<A>(a)...));
        else if constexpr (std::is_same<std::decay_t<Ret>, T>::value)
          s->value = new T(make(std::forward<A>(a)...));
        else
          s->value = make(std::forward<A>(a)...).release();
        if (s->value == nullptr)
          throw type_error("pybind11::init(): factory function returned nullptr");
        s->holder = info->own(s->value).release();
      }
      detail::register_instance(s);
    };
    set("__init__", checked(PyInstanceMethod_New(
                        detail::make_function("__init__", true, *this, f, static_cast<void (*)(handle, A...)>(nullptr), e...).ptr())));
    return *this;
  }
  template <bool always_alias, typename... A, typename... E>
  class_& def_init(const E&... e)
  {
    auto* info = info_;
    auto f = [info](handle self, A... a) {
      auto* s = reinterpret_cast<detail::instance*>(self.ptr());
      if (s->value != nullptr)
        return;
      T* p;
      if constexpr (!std::is_void<alias>::value)
      {
        if constexpr (always_alias || !std::is_constructible<T, A...>::value)
          p = new alias(std::forward<A>(a)...);
        else
          p = Py_TYPE(self.ptr()) == info->type ? new T(std::forward<A>(a)...) : new alias(std::forward<A>(a)...);
      }
      else
        p = new T(std::forward<A>(a)...);
      s->value = p;
      s->holder = info->own(p).release();
      detail::register_instance(s);
    };
    set("__init__", checked(PyInstanceMethod_New(
                        detail::make_function("__init__", true, *this, f, static_cast<void (*)(handle, A...)>(nullptr), e...).ptr())));
    return *this;
  }
};
template <typename T>
class enum_ : public class_<T>
{
public:
  template <typename... E>
  enum_(handle scope, const char* name, const E&... e) : class_<T>(scope, name, e...)
  {
    this->def("__int__", [](T v) { return static_cast<long long>(v); });
    this->def("__index__", [](T v) { return static_cast<long long>(v); });
    this->def("__hash__", [](T v) { return static_cast<long long>(v); });
    this->def("__eq__", [](const T& a, const object& o) { return isinstance<T>(o) && o.cast<T>() == a; });
    this->def("__ne__", [](const T& a, const object& o) { return !isinstance<T>(o) || o.cast<T>() != a; });
  }
  enum_& value(const char* name, T v)
  {
    this->set(name, pybind11::cast(v, return_value_policy::copy));
    return *this;
  }
};

// ------------------------------------------------------------------ overriding from python
namespace detail
{
inline function get_type_overload(const void* p, type_info* info, const char* name)
{
  shim::need_gil("an override is looked up");
  instance* s = info != nullptr ? find_registered(p, info) : nullptr;
  if (s == nullptr)
    return function();
  handle self(reinterpret_cast<PyObject*>(s));
  PyObject* a = PyObject_GetAttrString(self.ptr(), name);
  if (a == nullptr)
  {
    PyErr_Clear();
    return function();
  }
  function f(a, stolen_t{});
  if (f.is_cpp_function())
    return function();
  // called by the override itself: not again
  PyFrameObject* frame = PyEval_GetFrame();
  if (frame != nullptr)
  {
    PyCodeObject* code = PyFrame_GetCode(frame);
    const char* cn = PyUnicode_AsUTF8(code->co_name);
    bool inside = false;
    if (cn != nullptr && std::string(cn) == name && code->co_argcount > 0)
    {
      object locals = checked(PyFrame_GetLocals(frame));
      object names = checked(PyCode_GetVarnames(code));
      PyObject* first = PyTuple_GetItem(names.ptr(), 0);
      PyObject* v = first != nullptr ? PyObject_GetItem(locals.ptr(), first) : nullptr;
      PyErr_Clear();
      inside = v == self.ptr();
      Py_XDECREF(v);
    }
    Py_DECREF(code);
    if (inside)
      return function();
  }
  return f;
}
}  // namespace detail
template <typename T>
function get_overload(const T* p, const char* name)
{
  return detail::get_type_overload(p, detail::get_type_info(typeid(T)), name);
}
template <typename T>
function get_override(const T* p, const char* name)
{
  return get_overload(p, name);
}
#define PYBIND11_OVERLOAD_INT(ret_type, cname, name, ...)                                                                                            \
  {                                                                                                                                                  \
    pybind11::gil_scoped_acquire gil;                                                                                                                \
    pybind11::function overload = pybind11::get_overload(static_cast<const cname*>(this), name);                                                     \
    if (overload)                                                                                                                                    \
    {                                                                                                                                                \
      auto o = overload(__VA_ARGS__);                                                                                                                \
      return pybind11::cast<ret_type>(o);                                                                                                            \
    }                                                                                                                                                \
  }
#define PYBIND11_OVERLOAD_NAME(ret_type, cname, name, fn, ...)                                                                                       \
  PYBIND11_OVERLOAD_INT(ret_type, cname, name, __VA_ARGS__)                                                                                          \
  return cname::fn(__VA_ARGS__)
#define PYBIND11_OVERLOAD_PURE_NAME(ret_type, cname, name, fn, ...)                                                                                  \
  PYBIND11_OVERLOAD_INT(ret_type, cname, name, __VA_ARGS__)                                                                                          \
  pybind11::pybind11_fail("Tried to call pure virtual function \"" #cname "::" name "\"");
#define PYBIND11_OVERLOAD(ret_type, cname, fn, ...) PYBIND11_OVERLOAD_NAME(ret_type, cname, #fn, fn, __VA_ARGS__)
#define PYBIND11_OVERLOAD_PURE(ret_type, cname, fn, ...) PYBIND11_OVERLOAD_PURE_NAME(ret_type, cname, #fn, fn, __VA_ARGS__)
#define PYBIND11_OVERRIDE PYBIND11_OVERLOAD
#define PYBIND11_OVERRIDE_PURE PYBIND11_OVERLOAD_PURE

#define PYBIND11_MODULE(name, variable)                                                                                                              \
  static void pybind11_init_##name(pybind11::module&);                                                                                               \
  extern "C" PyObject* PyInit_##name()                                                                                                               \
  {                                                                                                                                                  \
    static PyModuleDef def = { PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr };                             \
    PyObject* p = PyModule_Create(&def);                                                                                                             \
    if (p == nullptr)                                                                                                                                \
      return nullptr;                                                                                                                                \
    try                                                                                                                                              \
    {                                                                                                                                                \
      pybind11::module m(p, pybind11::borrowed_t{});                                                                                                 \
      pybind11_init_##name(m);                                                                                                                       \
      return p;                                                                                                                                      \
    }                                                                                                                                                \
    catch (...)                                                                                                                                      \
    {                                                                                                                                                \
      pybind11::detail::translate();                                                                                                                 \
      return nullptr;                                                                                                                                \
    }                                                                                                                                                \
  }                                                                                                                                                  \
  void pybind11_init_##name(pybind11::module& variable)
}  // namespace pybind11
