// A small stand-in for the parts of pybind11 that python/bindings.cpp uses (pybind11 is not installed here).
// Same interface and semantics as pybind11 for: classes with unique_ptr or shared_ptr holders, constructors, methods,
// static methods, properties, overloads (two passes, without and with conversions), keyword and default arguments,
// return value policies, keep_alive, pickling, operators, hashing, implicit conversions, iterators, STL conversions,
// opaque vectors, exception translation.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

// ---------------------------------------------------------------- exceptions
class error_already_set : public std::runtime_error
{
  public:
    error_already_set() : std::runtime_error("Python error")
    {
        PyObject *t, *v, *tb;
        PyErr_Fetch(&t, &v, &tb);
        state_ = std::shared_ptr<std::array<PyObject *, 3>>(new std::array<PyObject *, 3>{t, v, tb},
                                                            [](std::array<PyObject *, 3> *s)
                                                            {
                                                                for (auto *o : *s)
                                                                    Py_XDECREF(o);
                                                                delete s;
                                                            });
    }
    void restore() const
    {
        for (auto *o : *state_)
            Py_XINCREF(o);
        PyErr_Restore((*state_)[0], (*state_)[1], (*state_)[2]);
    }
    bool matches(PyObject *exc) const { return (*state_)[0] && PyErr_GivenExceptionMatches((*state_)[0], exc); }

  private:
    std::shared_ptr<std::array<PyObject *, 3>> state_;
};
struct builtin_exception : std::runtime_error
{
    using std::runtime_error::runtime_error;
    virtual PyObject *type() const = 0;
};
#define PYMINI_EXC(name, exc)                                                                                                                        \
    struct name : builtin_exception                                                                                                                  \
    {                                                                                                                                                \
        using builtin_exception::builtin_exception;                                                                                                  \
        name() : builtin_exception("") {}                                                                                                            \
        PyObject *type() const override { return exc; }                                                                                              \
    };
PYMINI_EXC(stop_iteration, PyExc_StopIteration)
PYMINI_EXC(index_error, PyExc_IndexError)
PYMINI_EXC(key_error, PyExc_KeyError)
PYMINI_EXC(value_error, PyExc_ValueError)
PYMINI_EXC(type_error, PyExc_TypeError)
PYMINI_EXC(buffer_error, PyExc_BufferError)
PYMINI_EXC(import_error, PyExc_ImportError)
PYMINI_EXC(attribute_error, PyExc_AttributeError)
PYMINI_EXC(cast_error, PyExc_RuntimeError)
struct reference_cast_error : cast_error
{
};
[[noreturn]] inline void pybind11_fail(const std::string &s) { throw std::runtime_error(s); }

enum class return_value_policy : uint8_t
{
    automatic = 0,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};

// ---------------------------------------------------------------- Python objects
class object;
struct accessor;
struct arg_v;
class object_iterator;
class handle
{
  public:
    object_iterator begin() const;
    object_iterator end() const;
    handle() = default;
    handle(PyObject *p) : p_(p) {}
    PyObject *ptr() const { return p_; }
    PyObject *&ptr() { return p_; }
    const handle &inc_ref() const
    {
        Py_XINCREF(p_);
        return *this;
    }
    const handle &dec_ref() const
    {
        Py_XDECREF(p_);
        return *this;
    }
    explicit operator bool() const { return p_ != nullptr; }
    bool is(handle o) const { return p_ == o.p_; }
    bool is_none() const { return p_ == Py_None; }
    template <typename T> T cast() const;
    accessor attr(const char *name) const;
    template <typename K> accessor operator[](K &&key) const;
    template <typename... A> object operator()(A &&...a) const;

  protected:
    PyObject *p_ = nullptr;
};
struct borrowed_t
{
};
struct stolen_t
{
};
class object : public handle
{
  public:
    object() = default;
    object(handle h, borrowed_t) : handle(h) { inc_ref(); }
    object(handle h, stolen_t) : handle(h) {}
    object(const object &o) : handle(o) { inc_ref(); }
    object(object &&o) noexcept : handle(o) { o.p_ = nullptr; }
    ~object() { dec_ref(); }
    object &operator=(const object &o)
    {
        if (p_ != o.p_)
        {
            handle old(p_);
            p_ = o.p_;
            inc_ref();
            old.dec_ref();
        }
        return *this;
    }
    object &operator=(object &&o) noexcept
    {
        std::swap(p_, o.p_);
        return *this;
    }
    handle release()
    {
        handle h(p_);
        p_ = nullptr;
        return h;
    }
};
template <typename T> T reinterpret_borrow(handle h) { return T(h, borrowed_t{}); }
template <typename T> T reinterpret_steal(handle h) { return T(h, stolen_t{}); }
inline object steal_or_throw(PyObject *p)
{
    if (!p)
        throw error_already_set();
    return object(p, stolen_t{});
}
class object_iterator // over anything iterable
{
  public:
    using iterator_category = std::input_iterator_tag;
    using value_type = handle;
    using difference_type = ssize_t;
    using pointer = const handle *;
    using reference = handle;
    object_iterator() = default;
    explicit object_iterator(handle of) : it_(steal_or_throw(PyObject_GetIter(of.ptr()))) { ++*this; }
    handle operator*() const { return value_; }
    object_iterator &operator++()
    {
        value_ = object(PyIter_Next(it_.ptr()), stolen_t{});
        if (!value_.ptr() && PyErr_Occurred())
            throw error_already_set();
        return *this;
    }
    bool operator==(const object_iterator &o) const { return value_.ptr() == o.value_.ptr(); }
    bool operator!=(const object_iterator &o) const { return !(*this == o); }

  private:
    object it_, value_;
};
inline object_iterator handle::begin() const { return object_iterator(*this); }
inline object_iterator handle::end() const { return {}; }
#define PYMINI_OBJECT(name, check_)                                                                                                                  \
    name(handle h, borrowed_t b) : object(h, b) {}                                                                                                   \
    name(handle h, stolen_t s) : object(h, s) {}                                                                                                     \
    static bool check(handle h) { return h.ptr() && (check_); }

struct none : object
{
    none() : object(Py_None, borrowed_t{}) {}
    PYMINI_OBJECT(none, h.ptr() == Py_None)
};
struct tuple : object
{
    PYMINI_OBJECT(tuple, PyTuple_Check(h.ptr()))
    explicit tuple(size_t n = 0) : object(steal_or_throw(PyTuple_New((ssize_t)n))) {}
    tuple(const object &o) : object(PyTuple_Check(o.ptr()) ? o : steal_or_throw(PySequence_Tuple(o.ptr()))) {}
    size_t size() const { return (size_t)PyTuple_Size(p_); }
    bool empty() const { return size() == 0; }
};
struct list : object
{
    PYMINI_OBJECT(list, PyList_Check(h.ptr()))
    explicit list(size_t n = 0) : object(steal_or_throw(PyList_New((ssize_t)n))) {}
    list(const object &o) : object(PyList_Check(o.ptr()) ? o : steal_or_throw(PySequence_List(o.ptr()))) {}
    size_t size() const { return (size_t)PyList_Size(p_); }
    template <typename T> void append(T &&v) const;
};
struct dict : object
{
    PYMINI_OBJECT(dict, PyDict_Check(h.ptr()))
    dict() : object(steal_or_throw(PyDict_New())) {}
    size_t size() const { return (size_t)PyDict_Size(p_); }
    template <typename... A, typename = std::enable_if_t<(sizeof...(A) > 0) && (std::is_same_v<std::decay_t<A>, arg_v> && ...)>> explicit dict(A &&...a);
    template <typename K> bool contains(K &&k) const;
    struct items // pairs of key and value
    {
        object_iterator it;
        std::pair<handle, handle> operator*() const { return {handle(PyTuple_GetItem((*it).ptr(), 0)), handle(PyTuple_GetItem((*it).ptr(), 1))}; }
        items &operator++()
        {
            ++it;
            return *this;
        }
        bool operator!=(const items &o) const { return it != o.it; }
        bool operator==(const items &o) const { return it == o.it; }
    };
    items begin() const { return {object_iterator(steal_or_throw(PyDict_Items(p_)))}; }
    items end() const { return {}; }
};
struct str : object
{
    PYMINI_OBJECT(str, PyUnicode_Check(h.ptr()))
    str(const char *s = "") : object(steal_or_throw(PyUnicode_FromString(s))) {}
    str(const std::string &s) : object(steal_or_throw(PyUnicode_DecodeUTF8(s.data(), (ssize_t)s.size(), nullptr))) {}
    explicit str(handle h) : object(steal_or_throw(PyObject_Str(h.ptr()))) {}
    template <typename... A> str format(A &&...a) const;
    operator std::string() const
    {
        ssize_t n;
        auto *s = PyUnicode_AsUTF8AndSize(p_, &n);
        if (!s)
            throw error_already_set();
        return {s, (size_t)n};
    }
};
struct bytes : object
{
    PYMINI_OBJECT(bytes, PyBytes_Check(h.ptr()))
    bytes(const char *s = "") : object(steal_or_throw(PyBytes_FromString(s))) {}
    bytes(const char *s, size_t n) : object(steal_or_throw(PyBytes_FromStringAndSize(s, (ssize_t)n))) {}
    bytes(const std::string &s) : bytes(s.data(), s.size()) {}
    operator std::string() const { return {PyBytes_AsString(p_), (size_t)PyBytes_Size(p_)}; }
};
struct int_ : object
{
    PYMINI_OBJECT(int_, PyLong_Check(h.ptr()))
    template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
    int_(T v) : object(steal_or_throw(std::is_signed_v<T> ? PyLong_FromLongLong((long long)v) : PyLong_FromUnsignedLongLong((unsigned long long)v)))
    {
    }
    int_() : int_(0) {}
    int_(const object &o) : object(PyLong_Check(o.ptr()) ? o : steal_or_throw(PyNumber_Long(o.ptr()))) {}
};
struct float_ : object
{
    PYMINI_OBJECT(float_, PyFloat_Check(h.ptr()))
    float_(const object &o) : object(PyFloat_Check(o.ptr()) ? o : steal_or_throw(PyNumber_Float(o.ptr()))) {}
    float_(double v = 0) : object(steal_or_throw(PyFloat_FromDouble(v))) {}
};
struct bool_ : object
{
    PYMINI_OBJECT(bool_, PyBool_Check(h.ptr()))
    bool_(bool v = false) : object(v ? Py_True : Py_False, borrowed_t{}) {}
};
struct slice : object
{
    PYMINI_OBJECT(slice, PySlice_Check(h.ptr()))
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *slicelength) const
    {
        return PySlice_GetIndicesEx(p_, (ssize_t)length, (ssize_t *)start, (ssize_t *)stop, (ssize_t *)step, (ssize_t *)slicelength) == 0;
    }
};
struct sequence : object
{
    PYMINI_OBJECT(sequence, PySequence_Check(h.ptr()))
    size_t size() const { return (size_t)PySequence_Size(p_); }
};
struct iterable : object
{
    PYMINI_OBJECT(iterable, PyIter_Check(h.ptr()) || Py_TYPE(h.ptr())->tp_iter || PySequence_Check(h.ptr()))
};
struct iterator : object
{
    PYMINI_OBJECT(iterator, PyIter_Check(h.ptr()))
};
struct function : object
{
    PYMINI_OBJECT(function, PyCallable_Check(h.ptr()))
};
struct args : tuple
{
    using tuple::tuple;
};
struct kwargs : dict
{
    using dict::dict;
};
namespace detail
{
inline bool is_bound(handle h, const std::type_info &t);
}
template <typename T> bool isinstance(handle h)
{
    if constexpr (std::is_base_of_v<handle, T>)
        return T::check(h);
    else
        return detail::is_bound(h, typeid(T));
}
inline bool isinstance(handle h, handle type) { return PyObject_IsInstance(h.ptr(), type.ptr()) == 1; }
inline size_t len(handle h)
{
    auto n = PyObject_Length(h.ptr());
    if (n < 0)
        throw error_already_set();
    return (size_t)n;
}

struct accessor // obj.attr("x"), obj[i]
{
    object obj, key;
    bool is_attr;
    object get() const { return steal_or_throw(is_attr ? PyObject_GetAttr(obj.ptr(), key.ptr()) : PyObject_GetItem(obj.ptr(), key.ptr())); }
    operator object() const { return get(); }
    template <typename T> T cast() const { return get().template cast<T>(); }
    template <typename T> void operator=(T &&v) const;
    PyObject *ptr() const { return get().release().ptr(); }
    template <typename... A> object operator()(A &&...a) const { return get()(std::forward<A>(a)...); }
    bool is_none() const { return get().is_none(); }
};
inline accessor handle::attr(const char *name) const { return {object(p_, borrowed_t{}), str(name), true}; }

// ---------------------------------------------------------------- registered classes
namespace detail
{
struct type_record
{
    PyTypeObject *type = nullptr;
    std::string name;
    std::vector<std::function<PyObject *(PyObject *)>> implicit; // new reference or null
};
struct instance
{
    PyObject_HEAD void *value;
    void *holder;                 // heap-allocated holder, or null
    void (*destroy)(instance *);  // frees value and holder
    type_record *rec;
    std::vector<PyObject *> *patients;
    PyObject *weakrefs;
};
inline std::unordered_map<std::type_index, type_record *> &types()
{
    static std::unordered_map<std::type_index, type_record *> m;
    return m;
}
inline std::unordered_multimap<const void *, instance *> &instances()
{
    static std::unordered_multimap<const void *, instance *> m;
    return m;
}
inline type_record *find_type(const std::type_info &t)
{
    auto i = types().find(std::type_index(t));
    return i == types().end() ? nullptr : i->second;
}
inline bool is_bound(handle h, const std::type_info &t)
{
    auto *r = find_type(t);
    return r && PyObject_IsInstance(h.ptr(), (PyObject *)r->type) == 1;
}
inline void register_instance(instance *i) { instances().emplace(i->value, i); }
inline PyObject *find_instance(const void *p, const type_record *rec)
{
    auto r = instances().equal_range(p);
    for (auto i = r.first; i != r.second; ++i)
        if (i->second->rec == rec)
        {
            Py_INCREF(i->second);
            return (PyObject *)i->second;
        }
    return nullptr;
}
inline void dealloc(PyObject *self)
{
    auto *i = (instance *)self;
    auto *type = Py_TYPE(self);
    if (i->weakrefs)
        PyObject_ClearWeakRefs(self);
    if (i->value)
    {
        auto r = instances().equal_range(i->value);
        for (auto it = r.first; it != r.second; ++it)
            if (it->second == i)
            {
                instances().erase(it);
                break;
            }
        if (i->destroy)
            i->destroy(i);
    }
    if (i->patients)
    {
        for (auto *p : *i->patients)
            Py_DECREF(p);
        delete i->patients;
    }
    type->tp_free(self);
    Py_DECREF(type);
}
inline PyObject *new_instance(PyTypeObject *type, PyObject *, PyObject *)
{
    auto *self = type->tp_alloc(type, 0);
    if (!self)
        return nullptr;
    auto *i = (instance *)self;
    i->value = i->holder = nullptr;
    i->destroy = nullptr;
    i->patients = nullptr;
    i->weakrefs = nullptr;
    i->rec = nullptr;
    for (auto *t = type; t && !i->rec; t = t->tp_base)
        for (auto &e : types())
            if (e.second->type == t)
                i->rec = e.second;
    return self;
}
inline int no_init(PyObject *self, PyObject *, PyObject *)
{
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
}
inline void keep_alive(PyObject *nurse, PyObject *patient)
{
    if (!nurse || !patient || nurse == Py_None || patient == Py_None)
        return;
    for (auto &e : types())
        if (PyObject_TypeCheck(nurse, e.second->type))
        {
            auto *i = (instance *)nurse;
            if (!i->patients)
                i->patients = new std::vector<PyObject *>;
            Py_INCREF(patient);
            i->patients->push_back(patient);
            return;
        }
    throw cast_error("keep_alive: the nurse is no instance of a bound class");
}

template <typename T> using bare = std::remove_cv_t<std::remove_pointer_t<std::remove_reference_t<T>>>;
template <typename T> struct is_shared : std::false_type
{
};
template <typename T> struct is_shared<std::shared_ptr<T>> : std::true_type
{
};
template <typename T> struct is_opaque : std::false_type
{
};

// temporaries made by implicit conversions live as long as the call
inline std::vector<std::vector<PyObject *>> &life_support()
{
    static std::vector<std::vector<PyObject *>> v;
    return v;
}
struct life_frame
{
    life_frame() { life_support().emplace_back(); }
    ~life_frame()
    {
        auto v = std::move(life_support().back());
        life_support().pop_back();
        for (auto *p : v)
            Py_DECREF(p);
    }
};

// default: a registered class
template <typename T, typename = void> struct type_caster
{
    static constexpr bool is_class = true;
    T *value = nullptr;
    bool load(handle src, bool convert)
    {
        auto *rec = find_type(typeid(T));
        if (!rec || !src)
            return false;
        if (PyObject_TypeCheck(src.ptr(), rec->type))
        {
            value = (T *)((instance *)src.ptr())->value;
            holder_src = (instance *)src.ptr();
            return value != nullptr;
        }
        if (!convert)
            return false;
        if (src.is_none())
        {
            value = nullptr;
            return true;
        }
        for (auto &f : rec->implicit)
        {
            PyObject *tmp = f(src.ptr());
            if (!tmp)
                continue;
            if (load(tmp, false))
            {
                if (life_support().empty())
                    throw cast_error("implicit conversion outside of a call");
                life_support().back().push_back(tmp);
                return true;
            }
            Py_DECREF(tmp);
        }
        return false;
    }
    instance *holder_src = nullptr;

    static PyObject *make(void *value, void *holder, void (*destroy)(instance *))
    {
        auto *rec = find_type(typeid(T));
        auto *self = new_instance(rec->type, nullptr, nullptr);
        if (!self)
            throw error_already_set();
        auto *i = (instance *)self;
        i->value = value;
        i->holder = holder;
        i->destroy = destroy;
        register_instance(i);
        return self;
    }
    static type_record *need()
    {
        auto *rec = find_type(typeid(T));
        if (!rec)
            throw type_error(std::string("Unregistered type : ") + typeid(T).name());
        return rec;
    }
    // takes a fresh heap object into the class's own kind of holder
    static PyObject *adopt(T *p);
    static PyObject *cast_ptr(const T *p, return_value_policy policy, handle parent)
    {
        if (!p)
        {
            Py_RETURN_NONE;
        }
        auto *rec = need();
        if (auto *o = find_instance(p, rec))
            return o;
        switch (policy)
        {
        case return_value_policy::automatic:
        case return_value_policy::take_ownership:
            return adopt(const_cast<T *>(p));
        case return_value_policy::automatic_reference:
        case return_value_policy::reference:
            return make(const_cast<T *>(p), nullptr, nullptr);
        case return_value_policy::reference_internal:
        {
            auto *o = make(const_cast<T *>(p), nullptr, nullptr);
            keep_alive(o, parent.ptr());
            return o;
        }
        default:
            if constexpr (std::is_copy_constructible_v<T>)
                return adopt(new T(*p));
            throw cast_error("return_value_policy = copy, but type is non-copyable!");
        }
    }
    static PyObject *cast(const T &v, return_value_policy policy, handle parent)
    {
        if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference)
            policy = return_value_policy::copy;
        return cast_ptr(&v, policy, parent);
    }
    static PyObject *cast(T &&v, return_value_policy, handle)
    {
        need();
        return adopt(new T(std::move(v)));
    }
};
template <typename T> PyObject *(*&adopter())(T *)
{
    static PyObject *(*f)(T *) = nullptr;
    return f;
}
template <typename T, typename S> PyObject *type_caster<T, S>::adopt(T *p) { return adopter<T>()(p); }

template <typename T> struct value_caster
{
    static constexpr bool is_class = false;
    T value{};
};

template <typename T>
struct type_caster<T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, char> && !std::is_same_v<T, bool>>> : value_caster<T>
{
    bool load(handle src, bool convert)
    {
        if (!src)
            return false;
        if constexpr (std::is_floating_point_v<T>)
        {
            if (!convert && !PyFloat_Check(src.ptr()))
                return false;
            double v = PyFloat_AsDouble(src.ptr());
            if (v == -1 && PyErr_Occurred())
            {
                PyErr_Clear();
                if (convert && PyNumber_Check(src.ptr()))
                {
                    object tmp(PyNumber_Float(src.ptr()), stolen_t{});
                    PyErr_Clear();
                    return load(tmp, false);
                }
                return false;
            }
            this->value = (T)v;
            return true;
        }
        else
        {
            if (PyFloat_Check(src.ptr()))
                return false;
            if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr()))
                return false;
            object index;
            if (!PyLong_Check(src.ptr()))
            {
                index = object(PyNumber_Index(src.ptr()), stolen_t{});
                if (!index)
                {
                    PyErr_Clear();
                    if (!convert)
                        return false;
                }
            }
            handle from = index ? (handle)index : src;
            bool err, range = true;
            if constexpr (std::is_unsigned_v<T>)
            {
                unsigned long long v = PyLong_Check(from.ptr()) ? PyLong_AsUnsignedLongLong(from.ptr()) : (PyErr_SetString(PyExc_TypeError, ""), -1ull);
                err = v == (unsigned long long)-1 && PyErr_Occurred();
                range = err || (T)v == v;
                this->value = (T)v;
            }
            else
            {
                long long v = PyLong_Check(from.ptr()) ? PyLong_AsLongLong(from.ptr()) : (PyErr_SetString(PyExc_TypeError, ""), -1ll);
                err = v == -1 && PyErr_Occurred();
                range = err || (T)v == v;
                this->value = (T)v;
            }
            if (err || !range)
            {
                PyErr_Clear();
                if (err && convert && PyNumber_Check(src.ptr()) && !PyLong_Check(src.ptr()))
                {
                    object tmp(PyNumber_Long(src.ptr()), stolen_t{});
                    PyErr_Clear();
                    return load(tmp, false);
                }
                return false;
            }
            return true;
        }
    }
    static PyObject *cast(T v, return_value_policy, handle)
    {
        if constexpr (std::is_floating_point_v<T>)
            return PyFloat_FromDouble((double)v);
        else if constexpr (std::is_unsigned_v<T>)
            return PyLong_FromUnsignedLongLong((unsigned long long)v);
        else
            return PyLong_FromLongLong((long long)v);
    }
};
template <> struct type_caster<bool> : value_caster<bool>
{
    bool load(handle src, bool convert)
    {
        if (!src)
            return false;
        if (src.ptr() == Py_True || src.ptr() == Py_False)
        {
            value = src.ptr() == Py_True;
            return true;
        }
        std::string tn = Py_TYPE(src.ptr())->tp_name;
        if (convert || tn == "numpy.bool" || tn == "numpy.bool_")
        {
            int r = -1;
            if (src.is_none())
                r = 0;
            else if (auto *nb = Py_TYPE(src.ptr())->tp_as_number)
                if (nb->nb_bool)
                    r = nb->nb_bool(src.ptr());
            if (r == 0 || r == 1)
            {
                value = r;
                return true;
            }
            PyErr_Clear();
        }
        return false;
    }
    static PyObject *cast(bool v, return_value_policy, handle) { return PyBool_FromLong(v); }
};
template <> struct type_caster<std::string> : value_caster<std::string>
{
    bool load(handle src, bool)
    {
        if (!src)
            return false;
        if (PyUnicode_Check(src.ptr()))
        {
            ssize_t n;
            auto *s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
            if (!s)
            {
                PyErr_Clear();
                return false;
            }
            value.assign(s, (size_t)n);
            return true;
        }
        if (PyBytes_Check(src.ptr()))
        {
            value.assign(PyBytes_AsString(src.ptr()), (size_t)PyBytes_Size(src.ptr()));
            return true;
        }
        if (PyByteArray_Check(src.ptr()))
        {
            value.assign(PyByteArray_AsString(src.ptr()), (size_t)PyByteArray_Size(src.ptr()));
            return true;
        }
        return false;
    }
    static PyObject *cast(const std::string &v, return_value_policy, handle)
    {
        auto *o = PyUnicode_DecodeUTF8(v.data(), (ssize_t)v.size(), nullptr);
        if (!o)
            throw error_already_set();
        return o;
    }
};
template <> struct type_caster<char> // also const char *
{
    static constexpr bool is_class = false;
    char value = 0;
    std::string text;
    bool none = false;
    bool load(handle src, bool convert)
    {
        if (src.is_none())
            return convert && (none = true);
        type_caster<std::string> s;
        if (!s.load(src, convert))
            return false;
        text = s.value;
        if (PyUnicode_Check(src.ptr()) && PyUnicode_GetLength(src.ptr()) == 1)
        {
            auto u = PyUnicode_ReadChar(src.ptr(), 0);
            if (u > 0xff)
                return false;
            value = (char)u;
        }
        else if (text.size() == 1)
            value = text[0];
        return true;
    }
    char as_char() const { return value; }
    const char *as_ptr() const { return none ? nullptr : text.c_str(); }
    static PyObject *cast(char c, return_value_policy, handle) { return PyUnicode_DecodeLatin1(&c, 1, nullptr); }
    static PyObject *cast(const char *s, return_value_policy, handle)
    {
        if (!s)
        {
            Py_RETURN_NONE;
        }
        return PyUnicode_FromString(s);
    }
};
template <typename T> struct type_caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>> : value_caster<T>
{
    bool load(handle src, bool)
    {
        if constexpr (std::is_same_v<T, handle>)
        {
            this->value = src;
            return (bool)src;
        }
        else if constexpr (std::is_same_v<T, object>)
        {
            this->value = T(src, borrowed_t{});
            return (bool)src;
        }
        else
        {
            if (!T::check(src))
                return false;
            this->value = T(src, borrowed_t{});
            return true;
        }
    }
    static PyObject *cast(const handle &h, return_value_policy, handle) { return h.inc_ref().ptr(); }
};
template <> struct value_caster<slice>
{
    static constexpr bool is_class = false;
    slice value{Py_None, borrowed_t{}};
};
#define PYMINI_NO_DEFAULT(T)                                                                                                                         \
    template <> struct value_caster<T>                                                                                                               \
    {                                                                                                                                                \
        static constexpr bool is_class = false;                                                                                                      \
        T value{Py_None, borrowed_t{}};                                                                                                              \
    };
PYMINI_NO_DEFAULT(int_)
PYMINI_NO_DEFAULT(sequence)
PYMINI_NO_DEFAULT(iterable)
PYMINI_NO_DEFAULT(iterator)
PYMINI_NO_DEFAULT(function)

template <typename V, typename E> struct sequence_caster : value_caster<V>
{
    static bool good(handle src) { return src && PySequence_Check(src.ptr()) && !PyUnicode_Check(src.ptr()) && !PyBytes_Check(src.ptr()); }
    template <typename C> static PyObject *cast(C &&v, return_value_policy policy, handle parent)
    {
        list l(v.size());
        ssize_t i = 0;
        for (auto &&e : v)
        {
            PyObject *o;
            if constexpr (std::is_lvalue_reference_v<C>)
                o = type_caster<bare<E>>::cast(e, policy, parent);
            else
                o = type_caster<bare<E>>::cast(static_cast<E &&>(e), policy, parent);
            if (!o)
                throw error_already_set();
            PyList_SetItem(l.ptr(), i++, o);
        }
        return l.release().ptr();
    }
};
template <typename E> E element(type_caster<E> &c)
{
    if constexpr (type_caster<E>::is_class)
    {
        if (!c.value)
            throw reference_cast_error();
        return *c.value;
    }
    else
        return c.value;
}
template <typename E> struct type_caster<std::vector<E>, std::enable_if_t<!is_opaque<std::vector<E>>::value>> : sequence_caster<std::vector<E>, E>
{
    bool load(handle src, bool convert)
    {
        if (!this->good(src))
            return false;
        this->value.clear();
        ssize_t n = PySequence_Size(src.ptr());
        if (n < 0)
        {
            PyErr_Clear();
            return false;
        }
        for (ssize_t i = 0; i < n; i++)
        {
            object item = steal_or_throw(PySequence_GetItem(src.ptr(), i));
            type_caster<E> c;
            if (!c.load(item, convert))
                return false;
            this->value.push_back(element<E>(c));
        }
        return true;
    }
};
template <typename E, size_t N> struct type_caster<std::array<E, N>> : sequence_caster<std::array<E, N>, E>
{
    bool load(handle src, bool convert)
    {
        if (!this->good(src) || PySequence_Size(src.ptr()) != (ssize_t)N)
            return false;
        for (size_t i = 0; i < N; i++)
        {
            object item = steal_or_throw(PySequence_GetItem(src.ptr(), (ssize_t)i));
            type_caster<E> c;
            if (!c.load(item, convert))
                return false;
            this->value[i] = element<E>(c);
        }
        return true;
    }
};
template <typename E> struct type_caster<std::optional<E>> : value_caster<std::optional<E>>
{
    bool load(handle src, bool convert)
    {
        if (!src)
            return false;
        if (src.is_none())
        {
            this->value = std::nullopt;
            return true;
        }
        type_caster<E> c;
        if (!c.load(src, convert))
            return false;
        this->value = element<E>(c);
        return true;
    }
    static PyObject *cast(const std::optional<E> &v, return_value_policy p, handle parent)
    {
        if (!v)
        {
            Py_RETURN_NONE;
        }
        return type_caster<E>::cast(*v, p, parent);
    }
};
template <> struct type_caster<std::nullopt_t>
{
    static constexpr bool is_class = false;
    static PyObject *cast(std::nullopt_t, return_value_policy, handle) { Py_RETURN_NONE; }
};
template <typename... E> struct type_caster<std::tuple<E...>> : value_caster<std::tuple<E...>>
{
    bool load(handle src, bool convert)
    {
        if (!src || !PySequence_Check(src.ptr()) || PySequence_Size(src.ptr()) != (ssize_t)sizeof...(E))
            return false;
        return load_each(src, convert, std::index_sequence_for<E...>());
    }
    template <typename V> static PyObject *cast(V &&v, return_value_policy p, handle parent)
    {
        tuple t(sizeof...(E));
        cast_each(t, v, p, parent, std::index_sequence_for<E...>());
        return t.release().ptr();
    }

  private:
    template <size_t... I> bool load_each(handle src, bool convert, std::index_sequence<I...>)
    {
        auto one = [&](auto &to, size_t i)
        {
            object x = steal_or_throw(PySequence_GetItem(src.ptr(), (ssize_t)i));
            type_caster<std::decay_t<decltype(to)>> c;
            if (!c.load(x, convert))
                return false;
            to = element<std::decay_t<decltype(to)>>(c);
            return true;
        };
        return (one(std::get<I>(this->value), I) && ...);
    }
    template <typename V, size_t... I> static void cast_each(tuple &t, const V &v, return_value_policy p, handle parent, std::index_sequence<I...>)
    {
        (PyTuple_SetItem(t.ptr(), (ssize_t)I, type_caster<E>::cast(std::get<I>(v), p, parent)), ...);
    }
};
template <typename A, typename B> struct type_caster<std::pair<A, B>> : value_caster<std::pair<A, B>>
{
    bool load(handle src, bool convert)
    {
        if (!src || !PySequence_Check(src.ptr()) || PySequence_Size(src.ptr()) != 2)
            return false;
        object x = steal_or_throw(PySequence_GetItem(src.ptr(), 0)), y = steal_or_throw(PySequence_GetItem(src.ptr(), 1));
        type_caster<A> a;
        type_caster<B> b;
        if (!a.load(x, convert) || !b.load(y, convert))
            return false;
        this->value = {element<A>(a), element<B>(b)};
        return true;
    }
    static PyObject *cast(const std::pair<A, B> &v, return_value_policy p, handle parent)
    {
        tuple t(2);
        PyTuple_SetItem(t.ptr(), 0, type_caster<A>::cast(v.first, p, parent));
        PyTuple_SetItem(t.ptr(), 1, type_caster<B>::cast(v.second, p, parent));
        return t.release().ptr();
    }
};
template <typename T> struct type_caster<std::shared_ptr<T>> : value_caster<std::shared_ptr<T>>
{
    bool load(handle src, bool convert)
    {
        type_caster<T> c;
        if (!c.load(src, convert))
            return false;
        if (!c.value)
        {
            this->value = nullptr;
            return true;
        }
        if (!c.holder_src->holder)
            throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
        this->value = *(std::shared_ptr<T> *)c.holder_src->holder;
        return true;
    }
    static PyObject *cast(const std::shared_ptr<T> &p, return_value_policy, handle)
    {
        if (!p)
        {
            Py_RETURN_NONE;
        }
        if (auto *o = find_instance(p.get(), type_caster<T>::need()))
            return o;
        return type_caster<T>::make(p.get(), new std::shared_ptr<T>(p), [](instance *i) { delete (std::shared_ptr<T> *)i->holder; });
    }
};

template <typename T> using make_caster = type_caster<bare<T>>;

// the argument of type A held by a caster
template <typename A> decltype(auto) cast_op(make_caster<A> &c)
{
    using B = bare<A>;
    if constexpr (std::is_same_v<B, char>)
    {
        if constexpr (std::is_pointer_v<std::remove_reference_t<A>>)
            return c.as_ptr();
        else
            return c.as_char();
    }
    else if constexpr (make_caster<A>::is_class)
    {
        if constexpr (std::is_pointer_v<std::remove_reference_t<A>>)
            return (B *)c.value;
        else
        {
            if (!c.value)
                throw reference_cast_error();
            return (B &)*c.value;
        }
    }
    else if constexpr (std::is_pointer_v<std::remove_reference_t<A>>)
        return &c.value;
    else if constexpr (std::is_rvalue_reference_v<A> || !std::is_reference_v<A>)
        return (B &&) c.value;
    else
        return (B &)c.value;
}
template <typename R> PyObject *cast_result(R &&r, return_value_policy policy, handle parent)
{
    // R is deduced: an lvalue reference, or a value
    using B = bare<R>;
    PyObject *o;
    if constexpr (std::is_pointer_v<std::remove_reference_t<R>> && !std::is_same_v<B, char>)
    {
        if constexpr (type_caster<B>::is_class)
            o = type_caster<B>::cast_ptr(r, policy, parent);
        else if (!r)
        {
            Py_RETURN_NONE;
        }
        else
            o = type_caster<B>::cast(*r, policy, parent);
    }
    else if constexpr (std::is_array_v<std::remove_reference_t<R>>)
        o = type_caster<char>::cast((const char *)r, policy, parent);
    else
        o = type_caster<B>::cast(std::forward<R>(r), policy, parent);
    if (!o)
        throw error_already_set();
    return o;
}
} // namespace detail

template <typename T> object cast(T &&v, return_value_policy policy = return_value_policy::automatic_reference, handle parent = {})
{
    return object(detail::cast_result(std::forward<T>(v), policy, parent), stolen_t{});
}
template <typename T> T cast(const handle &h)
{
    if constexpr (std::is_base_of_v<handle, T>)
    {
        if constexpr (!std::is_same_v<T, handle> && !std::is_same_v<T, object>)
            if (!T::check(h))
                throw cast_error("Unable to cast Python instance");
        return T(h, borrowed_t{});
    }
    else
    {
        detail::life_frame frame;
        detail::make_caster<T> c;
        if (!c.load(h, true))
            throw cast_error(std::string("Unable to cast Python instance of type ") + Py_TYPE(h.ptr())->tp_name + " to C++ type " + typeid(T).name());
        return (T)detail::cast_op<T>(c);
    }
}
template <typename T> T handle::cast() const { return pybind11::cast<T>(*this); }
template <typename K> accessor handle::operator[](K &&key) const
{
    return {object(p_, borrowed_t{}), pybind11::cast(std::forward<K>(key)), false};
}
template <typename T> void accessor::operator=(T &&v) const
{
    object o = pybind11::cast(std::forward<T>(v));
    if ((is_attr ? PyObject_SetAttr(obj.ptr(), key.ptr(), o.ptr()) : PyObject_SetItem(obj.ptr(), key.ptr(), o.ptr())) != 0)
        throw error_already_set();
}
template <typename T> void list::append(T &&v) const
{
    if (PyList_Append(p_, pybind11::cast(std::forward<T>(v)).ptr()) != 0)
        throw error_already_set();
}
template <typename K> bool dict::contains(K &&k) const { return PyDict_Contains(p_, pybind11::cast(std::forward<K>(k)).ptr()) == 1; }
template <return_value_policy policy = return_value_policy::automatic_reference, typename... A> tuple make_tuple(A &&...a)
{
    tuple t(sizeof...(A));
    ssize_t i = 0;
    (void)std::initializer_list<int>{(PyTuple_SetItem(t.ptr(), i++, detail::cast_result(std::forward<A>(a), policy, handle())), 0)...};
    return t;
}
template <typename... A> object handle::operator()(A &&...a) const
{
    return steal_or_throw(PyObject_Call(p_, make_tuple(std::forward<A>(a)...).ptr(), nullptr));
}

// ---------------------------------------------------------------- attributes of definitions
struct arg;
struct arg_v;
struct arg
{
    const char *name;
    bool convert_ = true, none_ = true;
    constexpr explicit arg(const char *n) : name(n) {}
    template <typename T> arg_v operator=(T &&v) const;
    arg &noconvert(bool f = true)
    {
        convert_ = !f;
        return *this;
    }
    arg &none(bool f = true)
    {
        none_ = f;
        return *this;
    }
};
struct arg_v : arg
{
    object value;
    arg_v(arg a, object v) : arg(a), value(std::move(v)) {}
};
template <typename T> arg_v arg::operator=(T &&v) const { return arg_v(*this, pybind11::cast(std::forward<T>(v), return_value_policy::automatic)); }
template <typename... A> str str::format(A &&...a) const { return str(attr("format")(std::forward<A>(a)...)); }
namespace literals
{
inline arg operator""_a(const char *name, size_t) { return arg(name); }
} // namespace literals
template <typename... A, typename> dict::dict(A &&...a) : dict()
{
    (void)std::initializer_list<int>{(PyDict_SetItemString(p_, a.name, a.value.ptr()), 0)...};
}
struct is_operator
{
};
struct buffer_protocol
{
};
struct dynamic_attr
{
};
template <size_t Nurse, size_t Patient> struct keep_alive
{
};
template <typename... A> struct call_guard
{
};
struct gil_scoped_release
{
};
struct module_local
{
    module_local(bool = true) {}
};
struct doc
{
    const char *s;
    doc(const char *v) : s(v) {}
};

namespace detail
{
struct arg_info
{
    std::string name;
    object def;
    bool convert = true, none = true;
};
struct call_args
{
    std::vector<handle> v;
    std::vector<bool> convert;
    handle self() const { return v.empty() ? handle() : v[0]; }
};
struct overload
{
    std::vector<arg_info> args; // named ones
    size_t nargs = 0;
    bool op = false, method = false;
    return_value_policy policy = return_value_policy::automatic;
    std::vector<std::pair<size_t, size_t>> alive;
    std::function<PyObject *(call_args &)> impl; // null without an error: try the next overload
};
struct function_record
{
    std::string name;
    std::vector<overload> overloads;
    PyMethodDef def{};
};
inline void set_error(PyObject *type, const char *m) { PyErr_SetString(type, m); }
template <typename F> PyObject *guarded(F f)
{
    try
    {
        return f();
    }
    catch (error_already_set &e)
    {
        e.restore();
    }
    catch (builtin_exception &e)
    {
        set_error(e.type(), e.what());
    }
    catch (std::bad_alloc &e)
    {
        set_error(PyExc_MemoryError, e.what());
    }
    catch (std::domain_error &e)
    {
        set_error(PyExc_ValueError, e.what());
    }
    catch (std::invalid_argument &e)
    {
        set_error(PyExc_ValueError, e.what());
    }
    catch (std::length_error &e)
    {
        set_error(PyExc_ValueError, e.what());
    }
    catch (std::out_of_range &e)
    {
        set_error(PyExc_IndexError, e.what());
    }
    catch (std::range_error &e)
    {
        set_error(PyExc_ValueError, e.what());
    }
    catch (std::overflow_error &e)
    {
        set_error(PyExc_OverflowError, e.what());
    }
    catch (std::exception &e)
    {
        set_error(PyExc_RuntimeError, e.what());
    }
    catch (...)
    {
        set_error(PyExc_RuntimeError, "Caught an unknown exception!");
    }
    return nullptr;
}
inline PyObject *dispatch(PyObject *capsule, PyObject *pos, PyObject *kw)
{
    auto *rec = (function_record *)PyCapsule_GetPointer(capsule, "pymini.function");
    return guarded([&]() -> PyObject *
    {
        size_t npos = (size_t)PyTuple_Size(pos);
        bool single = rec->overloads.size() == 1;
        for (int pass = single ? 1 : 0; pass < 2; pass++)
            for (auto &o : rec->overloads)
            {
                if (npos > o.nargs)
                    continue;
                call_args c;
                size_t used = 0;
                bool ok = true;
                for (size_t i = 0; i < o.nargs && ok; i++)
                {
                    handle h;
                    const arg_info *a = o.args.empty() ? nullptr : &o.args[i];
                    PyObject *k = kw && a && !a->name.empty() ? PyDict_GetItemString(kw, a->name.c_str()) : nullptr;
                    if (i < npos)
                    {
                        h = PyTuple_GetItem(pos, (ssize_t)i);
                        if (k)
                            ok = false; // given twice
                    }
                    else if (k)
                    {
                        h = k;
                        used++;
                    }
                    else if (a && a->def)
                        h = a->def;
                    else
                        ok = false;
                    if (ok && a && !a->none && h.is_none())
                        ok = false;
                    c.v.push_back(h);
                    c.convert.push_back(pass == 1 && (!a || a->convert));
                }
                if (!ok || (kw && used != (size_t)PyDict_Size(kw)))
                    continue;
                life_frame frame;
                PyObject *r;
                try
                {
                    r = o.impl(c);
                }
                catch (reference_cast_error &)
                {
                    continue;
                }
                if (!r)
                {
                    if (PyErr_Occurred())
                        return nullptr;
                    continue;
                }
                for (auto &k : o.alive)
                {
                    auto at = [&](size_t i) { return i == 0 ? r : i - 1 < c.v.size() ? c.v[i - 1].ptr() : nullptr; };
                    keep_alive(at(k.first), at(k.second));
                }
                return r;
            }
        if (rec->overloads[0].op)
        {
            Py_INCREF(Py_NotImplemented);
            return Py_NotImplemented;
        }
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments: %R", rec->name.c_str(), pos);
        return nullptr;
    });
}
inline void annotate(overload &o, const arg &a)
{
    if (o.args.empty() && o.method)
        o.args.push_back({"self", {}, true, true});
    o.args.push_back({a.name, {}, a.convert_, a.none_});
}
inline void annotate(overload &o, const arg_v &a)
{
    annotate(o, (const arg &)a);
    o.args.back().def = a.value;
}
inline void annotate(overload &o, is_operator) { o.op = true; }
inline void annotate(overload &o, return_value_policy p) { o.policy = p; }
inline void annotate(overload &, const char *) {}
inline void annotate(overload &, doc) {}
template <typename... A> void annotate(overload &, call_guard<A...>) {}
template <size_t N, size_t P> void annotate(overload &o, pybind11::keep_alive<N, P>) { o.alive.emplace_back(N, P); }

template <typename F> struct signature;
template <typename R, typename... A> struct signature<R (*)(A...)>
{
    using ret = R;
    using args = std::tuple<A...>;
};
template <typename R, typename C, typename... A> struct signature<R (C::*)(A...)> : signature<R (*)(A...)>
{
};
template <typename R, typename C, typename... A> struct signature<R (C::*)(A...) const> : signature<R (*)(A...)>
{
};

template <typename R, typename F, typename... A, size_t... I>
std::function<PyObject *(call_args &)> bind_impl(F f, return_value_policy *policy, std::tuple<A...> *, std::index_sequence<I...>)
{
    auto fn = std::make_shared<F>(std::move(f));
    auto pol = std::shared_ptr<return_value_policy>(policy);
    return [fn, pol](call_args &c) -> PyObject *
    {
        std::tuple<make_caster<A>...> casters;
        (void)c;
        bool ok = true;
        (void)std::initializer_list<int>{(ok = ok && std::get<I>(casters).load(c.v[I], c.convert[I]), 0)...};
        if (!ok)
            return nullptr;
        if constexpr (std::is_void_v<R>)
        {
            (*fn)(cast_op<A>(std::get<I>(casters))...);
            Py_RETURN_NONE;
        }
        else
            return cast_result<R>((*fn)(cast_op<A>(std::get<I>(casters))...), *pol, c.self());
    };
}
template <typename R, typename Args, typename F, typename... Extra> overload make_overload(F f, bool method, const Extra &...extra)
{
    overload o;
    o.method = method;
    o.nargs = std::tuple_size_v<Args>;
    (void)std::initializer_list<int>{(annotate(o, extra), 0)...};
    if (!o.args.empty())
        o.args.resize(std::max(o.args.size(), o.nargs));
    o.impl = bind_impl<R>(std::move(f), new return_value_policy(o.policy), (Args *)nullptr, std::make_index_sequence<std::tuple_size_v<Args>>());
    return o;
}
template <typename T, typename R, typename C, typename... A, typename... Extra>
overload overload_of_member(R (C::*f)(A...), bool method, const Extra &...extra)
{
    return make_overload<R, std::tuple<T &, A...>>([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, method, extra...);
}
template <typename T, typename R, typename C, typename... A, typename... Extra>
overload overload_of_member(R (C::*f)(A...) const, bool method, const Extra &...extra)
{
    return make_overload<R, std::tuple<const T &, A...>>([f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, method, extra...);
}

// free functions and lambdas
template <typename F, typename = void> struct functor_signature : signature<decltype(&F::operator())>
{
};
template <typename F> struct functor_signature<F, std::enable_if_t<std::is_pointer_v<F>>> : signature<F>
{
};
template <typename T, typename F, typename... Extra> overload overload_of(F &&f, bool method, const Extra &...extra)
{
    using D = std::decay_t<F>;
    if constexpr (std::is_member_function_pointer_v<D>)
        return overload_of_member<T>(f, method, extra...);
    else if constexpr (std::is_pointer_v<D>)
        return make_overload<typename signature<D>::ret, typename signature<D>::args>(f, method, extra...);
    else
        return make_overload<typename functor_signature<D>::ret, typename functor_signature<D>::args>(std::forward<F>(f), method, extra...);
}
// adds an overload to the function `name` of a module or class
struct scope_functions
{
    std::unordered_map<std::string, function_record *> recs;
    function_record *get(const std::string &name, bool &fresh)
    {
        auto &r = recs[name];
        fresh = !r;
        if (!r)
        {
            r = new function_record;
            r->name = name;
            r->def = PyMethodDef{strdup(name.c_str()), (PyCFunction)(void *)(PyCFunctionWithKeywords)dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
        }
        return r;
    }
};
inline object make_callable(function_record *r, handle module_name)
{
    object cap = steal_or_throw(PyCapsule_New(r, "pymini.function", nullptr));
    return steal_or_throw(PyCFunction_NewEx(&r->def, cap.ptr(), module_name.ptr()));
}
} // namespace detail

// ---------------------------------------------------------------- modules, classes
class module_ : public object
{
  public:
    PYMINI_OBJECT(module_, PyModule_Check(h.ptr()))
    template <typename F, typename... Extra> module_ &def(const char *name, F &&f, const Extra &...extra)
    {
        bool fresh;
        auto *r = fns->get(name, fresh);
        r->overloads.push_back(detail::overload_of<void>(std::forward<F>(f), false, extra...));
        if (fresh)
            PyModule_AddObject(p_, name, detail::make_callable(r, PyModule_GetNameObject(p_)).release().ptr());
        return *this;
    }
    module_ def_submodule(const char *name, const char * = nullptr)
    {
        std::string full = std::string(PyModule_GetName(p_)) + "." + name;
        auto m = reinterpret_borrow<module_>(PyImport_AddModule(full.c_str()));
        PyModule_AddObject(p_, name, object(m).release().ptr());
        return m;
    }
    static module_ import(const char *name) { return reinterpret_steal<module_>(steal_or_throw(PyImport_ImportModule(name)).release()); }
    const char *&doc()
    {
        static const char *d;
        return d;
    }

  private:
    std::shared_ptr<detail::scope_functions> fns = std::make_shared<detail::scope_functions>();
};
using module = module_;

namespace detail
{
template <typename... O> struct pick_holder
{
    using type = void;
};
template <typename T, typename... O> struct pick_holder<std::shared_ptr<T>, O...>
{
    using type = std::shared_ptr<T>;
};
template <typename F, typename... O> struct pick_holder<F, O...> : pick_holder<O...>
{
};
template <typename... A> struct ctor
{
};
template <typename G, typename S> struct pickle_factory
{
    G get;
    S set;
};
template <typename F> struct factory
{
    F f;
};
struct self_t
{
};
enum op_id
{
    op_eq,
    op_ne,
    op_lt,
    op_le,
    op_gt,
    op_ge,
    op_add,
    op_sub,
    op_mul,
    op_div,
    op_hash,
    op_neg,
    op_iadd,
    op_isub
};
template <op_id Id, typename L, typename R> struct op_
{
};
template <typename X, typename T> using operand = std::conditional_t<std::is_same_v<X, self_t>, T, X>;
} // namespace detail
static const detail::self_t self = detail::self_t();
#define PYMINI_OP(sym, id)                                                                                                                           \
    namespace detail                                                                                                                                 \
    {                                                                                                                                                \
    inline op_<id, self_t, self_t> operator sym(const self_t &, const self_t &) { return {}; }                                                       \
    template <typename T> op_<id, self_t, T> operator sym(const self_t &, const T &) { return {}; }                                                  \
    }
PYMINI_OP(==, op_eq)
PYMINI_OP(!=, op_ne)
PYMINI_OP(<, op_lt)
PYMINI_OP(<=, op_le)
PYMINI_OP(>, op_gt)
PYMINI_OP(>=, op_ge)
PYMINI_OP(+, op_add)
PYMINI_OP(-, op_sub)
PYMINI_OP(*, op_mul)
PYMINI_OP(/, op_div)
namespace detail
{
inline op_<op_neg, self_t, self_t> operator-(const self_t &) { return {}; }
inline op_<op_iadd, self_t, self_t> operator+=(const self_t &, const self_t &) { return {}; }
template <typename T> op_<op_iadd, self_t, T> operator+=(const self_t &, const T &) { return {}; }
inline op_<op_isub, self_t, self_t> operator-=(const self_t &, const self_t &) { return {}; }
template <typename T> op_<op_isub, self_t, T> operator-=(const self_t &, const T &) { return {}; }
} // namespace detail
inline detail::op_<detail::op_hash, detail::self_t, detail::self_t> hash(const detail::self_t &) { return {}; }

template <typename... A> detail::ctor<A...> init() { return {}; }
template <typename F> detail::factory<std::decay_t<F>> init(F &&f) { return {std::forward<F>(f)}; }
template <typename G, typename S> detail::pickle_factory<std::decay_t<G>, std::decay_t<S>> pickle(G &&g, S &&s)
{
    return {std::forward<G>(g), std::forward<S>(s)};
}

template <typename T, typename... Options> class class_ : public object
{
    using held = typename detail::pick_holder<Options...>::type; // void: owned directly
    static constexpr bool shared = !std::is_void_v<held>;
    std::shared_ptr<detail::scope_functions> fns = std::make_shared<detail::scope_functions>();

    static void fill(detail::instance *i, T *p)
    {
        i->value = p;
        if constexpr (shared)
        {
            i->holder = new std::shared_ptr<T>(p);
            i->destroy = [](detail::instance *x) { delete (std::shared_ptr<T> *)x->holder; };
        }
        else
            i->destroy = [](detail::instance *x) { delete (T *)x->value; };
        detail::register_instance(i);
    }
    static void construct(handle self_, T *p)
    {
        auto *i = (detail::instance *)self_.ptr();
        if (i->value) // __init__ called again
        {
            delete p;
            throw type_error("object is already initialised");
        }
        fill(i, p);
    }
    static PyObject *adopt(T *p)
    {
        auto *o = detail::new_instance(detail::find_type(typeid(T))->type, nullptr, nullptr);
        if (!o)
            throw error_already_set();
        fill((detail::instance *)o, p);
        return o;
    }
    void add(const char *name, detail::overload o)
    {
        bool fresh;
        auto *r = fns->get(name, fresh);
        r->overloads.push_back(std::move(o));
        if (!fresh)
            return;
        object f = detail::make_callable(r, object(attr("__module__")));
        object m = steal_or_throw(PyInstanceMethod_New(f.ptr()));
        set(name, m);
        if (std::string(name) == "__eq__" && !PyDict_GetItemString(((PyTypeObject *)p_)->tp_dict, "__hash__"))
            set("__hash__", pybind11::none());
    }
    void set(const char *name, handle v)
    {
        if (PyObject_SetAttrString(p_, name, v.ptr()) != 0)
            throw error_already_set();
    }
    object function_object(const char *name, detail::overload o)
    {
        auto *r = new detail::function_record;
        r->name = name;
        r->def = PyMethodDef{strdup(name), (PyCFunction)(void *)(PyCFunctionWithKeywords)detail::dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
        r->overloads.push_back(std::move(o));
        return detail::make_callable(r, handle());
    }
    void property(const char *name, handle get, handle setter)
    {
        object p = steal_or_throw(PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, get.ptr(), setter.ptr(), nullptr));
        set(name, p);
    }

  public:
    using type = T;
    using holder_type = std::conditional_t<shared, std::shared_ptr<T>, std::unique_ptr<T>>;
    static detail::type_record *&record()
    {
        static detail::type_record *r;
        return r;
    }
    template <typename... Extra> class_(handle scope, const char *name, const Extra &...)
    {
        if (detail::find_type(typeid(T)))
            pybind11_fail(std::string("generic_type: type \"") + name + "\" is already registered!");
        std::string full = std::string(PyModule_GetName(scope.ptr())) + "." + name;
        PyType_Slot slots[] = {{Py_tp_new, (void *)detail::new_instance},
                               {Py_tp_init, (void *)detail::no_init},
                               {Py_tp_dealloc, (void *)detail::dealloc},
                               {0, nullptr}};
        PyType_Spec spec = {strdup(full.c_str()), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        p_ = PyType_FromSpec(&spec);
        if (!p_)
            throw error_already_set();
        ((PyTypeObject *)p_)->tp_weaklistoffset = offsetof(detail::instance, weakrefs);
        auto *rec = new detail::type_record;
        rec->type = (PyTypeObject *)p_;
        rec->name = name;
        detail::types()[std::type_index(typeid(T))] = rec;
        record() = rec;
        detail::adopter<T>() = adopt;
        inc_ref();
        PyModule_AddObject(scope.ptr(), name, p_);
    }
    template <typename F, typename... Extra> class_ &def(const char *name, F &&f, const Extra &...extra)
    {
        add(name, detail::overload_of<T>(std::forward<F>(f), true, extra...));
        return *this;
    }
    template <typename... A, typename... Extra> class_ &def(const detail::ctor<A...> &, const Extra &...extra)
    {
        add("__init__", detail::make_overload<void, std::tuple<handle, A...>>(
                            [](handle h, A... a)
                            {
                                if constexpr (std::is_constructible_v<T, A...>)
                                    construct(h, new T(std::forward<A>(a)...));
                                else
                                    construct(h, new T{std::forward<A>(a)...});
                            },
                            true, extra...));
        return *this;
    }
    template <typename F, typename... Extra> class_ &def(const detail::factory<F> &f, const Extra &...extra)
    {
        def_factory("__init__", f.f, (typename detail::functor_signature<F>::args *)nullptr, extra...);
        return *this;
    }
    template <typename G, typename S, typename... Extra> class_ &def(const detail::pickle_factory<G, S> &p, const Extra &...extra)
    {
        def("__getstate__", p.get);
        def_factory("__setstate__", p.set, (typename detail::functor_signature<S>::args *)nullptr, extra...);
        return *this;
    }
    template <detail::op_id Id, typename L, typename R, typename... Extra> class_ &def(const detail::op_<Id, L, R> &, const Extra &...extra)
    {
        using A = detail::operand<L, T>;
        using B = detail::operand<R, T>;
        using namespace detail;
        if constexpr (Id == op_hash)
            return def("__hash__", [](const T &a) { return (Py_ssize_t)std::hash<T>()(a); }, extra...);
        else if constexpr (Id == op_eq)
            return def("__eq__", [](const A &a, const B &b) { return a == b; }, is_operator(), extra...);
        else if constexpr (Id == op_ne)
            return def("__ne__", [](const A &a, const B &b) { return a != b; }, is_operator(), extra...);
        else if constexpr (Id == op_lt)
            return def("__lt__", [](const A &a, const B &b) { return a < b; }, is_operator(), extra...);
        else if constexpr (Id == op_le)
            return def("__le__", [](const A &a, const B &b) { return a <= b; }, is_operator(), extra...);
        else if constexpr (Id == op_gt)
            return def("__gt__", [](const A &a, const B &b) { return a > b; }, is_operator(), extra...);
        else if constexpr (Id == op_ge)
            return def("__ge__", [](const A &a, const B &b) { return a >= b; }, is_operator(), extra...);
        else if constexpr (Id == op_add)
            return def("__add__", [](const A &a, const B &b) { return a + b; }, is_operator(), extra...);
        else if constexpr (Id == op_sub)
            return def("__sub__", [](const A &a, const B &b) { return a - b; }, is_operator(), extra...);
        else if constexpr (Id == op_neg)
            return def("__neg__", [](const A &a) { return -a; }, is_operator(), extra...);
        else if constexpr (Id == op_iadd)
            return def("__iadd__", [](A &a, const B &b) { return a += b; }, is_operator(), extra...);
        else if constexpr (Id == op_isub)
            return def("__isub__", [](A &a, const B &b) { return a -= b; }, is_operator(), extra...);
        else if constexpr (Id == op_mul)
            return def("__mul__", [](const A &a, const B &b) { return a * b; }, is_operator(), extra...);
        else
            return def("__truediv__", [](const A &a, const B &b) { return a / b; }, is_operator(), extra...);
    }
    template <typename F, typename... Extra> class_ &def_static(const char *name, F &&f, const Extra &...extra)
    {
        bool fresh;
        auto *r = fns->get(name, fresh);
        r->overloads.push_back(detail::overload_of<void>(std::forward<F>(f), false, extra...));
        if (fresh)
            set(name, steal_or_throw(PyStaticMethod_New(detail::make_callable(r, object(attr("__module__"))).ptr())));
        return *this;
    }
    template <typename C, typename D, typename... Extra> class_ &def_readwrite(const char *name, D C::*pm, const Extra &...extra)
    {
        object g = function_object(name, detail::overload_of<T>([pm](const T &c) -> const D & { return c.*pm; }, true,
                                                                return_value_policy::reference_internal, extra...));
        object s = function_object(name, detail::overload_of<T>([pm](T &c, const D &v) { c.*pm = v; }, true));
        property(name, g, s);
        return *this;
    }
    template <typename C, typename D, typename... Extra> class_ &def_readonly(const char *name, const D C::*pm, const Extra &...extra)
    {
        object g = function_object(name, detail::overload_of<T>([pm](const T &c) -> const D & { return c.*pm; }, true,
                                                                return_value_policy::reference_internal, extra...));
        property(name, g, pybind11::none());
        return *this;
    }
    template <typename G, typename S, typename... Extra> class_ &def_property(const char *name, G &&get, S &&setter, const Extra &...extra)
    {
        object g = pybind11::none(), s = pybind11::none();
        if constexpr (!std::is_null_pointer_v<std::decay_t<G>>)
            g = function_object(name, detail::overload_of<T>(std::forward<G>(get), true, return_value_policy::reference_internal, extra...));
        if constexpr (!std::is_null_pointer_v<std::decay_t<S>>)
            s = function_object(name, detail::overload_of<T>(std::forward<S>(setter), true));
        property(name, g, s);
        return *this;
    }
    template <typename G, typename... Extra> class_ &def_property_readonly(const char *name, G &&get, const Extra &...extra)
    {
        return def_property(name, std::forward<G>(get), nullptr, extra...);
    }

  private:
    template <typename F, typename... A, typename... Extra> void def_factory(const char *name, const F &f, std::tuple<A...> *, const Extra &...extra)
    {
        add(name, detail::make_overload<void, std::tuple<handle, A...>>(
                      [f](handle h, A... a) mutable
                      {
                          using R = typename detail::functor_signature<F>::ret;
                          if constexpr (std::is_pointer_v<R>)
                              construct(h, f(std::forward<A>(a)...));
                          else if constexpr (detail::is_shared<R>::value)
                          {
                              auto *i = (detail::instance *)h.ptr();
                              auto p = f(std::forward<A>(a)...);
                              i->value = p.get();
                              i->holder = new std::shared_ptr<T>(p);
                              i->destroy = [](detail::instance *x) { delete (std::shared_ptr<T> *)x->holder; };
                              detail::register_instance(i);
                          }
                          else
                              construct(h, new T(f(std::forward<A>(a)...)));
                      },
                      true, extra...));
    }
};
template <typename In, typename Out> void implicitly_convertible()
{
    auto *rec = detail::find_type(typeid(Out));
    if (!rec)
        pybind11_fail("implicitly_convertible: Unable to find type");
    auto busy = std::make_shared<bool>(false);
    rec->implicit.push_back([rec, busy](PyObject *o) -> PyObject *
    {
        if (*busy)
            return nullptr;
        *busy = true;
        struct reset
        {
            bool &b;
            ~reset() { b = false; }
        } r{*busy};
        if (!detail::make_caster<In>().load(o, false))
            return nullptr;
        PyObject *res = PyObject_CallFunctionObjArgs((PyObject *)rec->type, o, nullptr);
        if (!res)
            PyErr_Clear();
        return res;
    });
}

template <typename... A> struct overload_cast_t
{
    template <typename R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <typename... A> static constexpr overload_cast_t<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};

namespace detail
{
struct iter_state
{
    std::function<PyObject *()> next; // null without an error at the end
};
inline PyObject *iter_next(PyObject *self)
{
    auto *s = (iter_state *)((instance *)self)->value;
    return guarded([&] { return s->next(); });
}
inline PyObject *iter_self(PyObject *self)
{
    Py_INCREF(self);
    return self;
}
inline PyTypeObject *iter_type()
{
    static PyTypeObject *t = []
    {
        PyType_Slot slots[] = {{Py_tp_dealloc, (void *)dealloc}, {Py_tp_iter, (void *)iter_self}, {Py_tp_iternext, (void *)iter_next}, {0, nullptr}};
        PyType_Spec spec = {"pymini.iterator", sizeof(instance), 0, Py_TPFLAGS_DEFAULT, slots};
        auto *r = new type_record;
        r->type = (PyTypeObject *)PyType_FromSpec(&spec);
        types()[std::type_index(typeid(iter_state))] = r;
        return r->type;
    }();
    return t;
}
} // namespace detail
template <return_value_policy policy = return_value_policy::reference_internal, typename It, typename End> iterator make_iterator(It first, End last)
{
    auto *t = detail::iter_type();
    auto *o = detail::new_instance(t, nullptr, nullptr);
    auto *i = (detail::instance *)o;
    auto *st = new detail::iter_state;
    auto self_ = handle(o);
    st->next = [first, last, self_]() mutable -> PyObject *
    {
        if (first == last)
            return nullptr;
        PyObject *r = detail::cast_result<decltype(*first)>(*first, policy, self_);
        ++first;
        return r;
    };
    i->value = st;
    i->destroy = [](detail::instance *x) { delete (detail::iter_state *)x->value; };
    detail::register_instance(i);
    return reinterpret_steal<iterator>(o);
}
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...)                                                                                                                    \
    namespace pybind11                                                                                                                               \
    {                                                                                                                                                \
    namespace detail                                                                                                                                 \
    {                                                                                                                                                \
    template <> struct is_opaque<__VA_ARGS__> : std::true_type                                                                                       \
    {                                                                                                                                                \
    };                                                                                                                                               \
    }                                                                                                                                                \
    }

#define PYBIND11_MODULE(name, variable, ...)                                                                                                         \
    static void pymini_init_##name(pybind11::module_ &);                                                                                             \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                                                      \
    {                                                                                                                                                \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};                           \
        PyObject *m = PyModule_Create(&def);                                                                                                         \
        if (!m)                                                                                                                                      \
            return nullptr;                                                                                                                          \
        return pybind11::detail::guarded([&]                                                                                                         \
        {                                                                                                                                            \
            pybind11::module_ mod = pybind11::reinterpret_borrow<pybind11::module_>(m);                                                              \
            pymini_init_##name(mod);                                                                                                                 \
            return m;                                                                                                                                \
        });                                                                                                                                          \
    }                                                                                                                                                \
    static void pymini_init_##name(pybind11::module_ &variable)
