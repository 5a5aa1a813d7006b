#pragma once
#include "pybind11.h"

namespace pybind11
{
namespace detail
{
template <typename V> int get_buffer(PyObject *self, Py_buffer *view, int flags)
{
    auto *v = (V *)((instance *)self)->value;
    if (!v)
    {
        PyErr_SetString(PyExc_BufferError, "no value");
        return -1;
    }
    return PyBuffer_FillInfo(view, self, v->data(), (Py_ssize_t)(v->size() * sizeof(typename V::value_type)), 0, flags);
}
} // namespace detail

// vectors of one-byte elements
template <typename V, typename... Extra> class_<V> bind_vector(handle scope, const char *name, const Extra &...)
{
    using T = typename V::value_type;
    static_assert(sizeof(T) == 1, "only vectors of bytes are supported by this stand-in");
    class_<V> c(scope, name);
    auto *type = (PyTypeObject *)c.ptr();
    type->tp_as_buffer->bf_getbuffer = detail::get_buffer<V>;
    auto at = [](const V &v, ssize_t i)
    {
        if (i < 0)
            i += (ssize_t)v.size();
        if (i < 0 || i >= (ssize_t)v.size())
            throw index_error();
        return (size_t)i;
    };
    auto from = [](handle o)
    {
        V v;
        if (PyObject_CheckBuffer(o.ptr()))
        {
            Py_buffer b;
            if (PyObject_GetBuffer(o.ptr(), &b, PyBUF_SIMPLE) != 0)
                throw error_already_set();
            v.assign((const T *)b.buf, (const T *)b.buf + b.len);
            PyBuffer_Release(&b);
            return v;
        }
        object it = steal_or_throw(PyObject_GetIter(o.ptr()));
        while (PyObject *p = PyIter_Next(it.ptr()))
        {
            object item(p, stolen_t{});
            v.push_back(item.cast<T>());
        }
        if (PyErr_Occurred())
            throw error_already_set();
        return v;
    };
    c.def(init<>());
    c.def(init<const V &>());
    c.def(init([from](const iterable &o) { return V(from(o)); }));
    c.def("__len__", [](const V &v) { return v.size(); });
    c.def("__bool__", [](const V &v) { return !v.empty(); });
    c.def("__getitem__", [at](const V &v, ssize_t i) { return v[at(v, i)]; });
    c.def("__getitem__", [](const V &v, const slice &s)
    {
        size_t start = 0, stop = 0, step = 0, n = 0;
        if (!s.compute(v.size(), &start, &stop, &step, &n))
            throw error_already_set();
        V o;
        for (size_t i = 0; i < n; i++, start += step)
            o.push_back(v[start]);
        return o;
    });
    c.def("__setitem__", [at](V &v, ssize_t i, const T &x) { v[at(v, i)] = x; });
    c.def("__delitem__", [at](V &v, ssize_t i) { v.erase(v.begin() + (ssize_t)at(v, i)); });
    c.def("__iter__", [](V &v) { return make_iterator(v.begin(), v.end()); }, keep_alive<0, 1>());
    c.def("__eq__", [](const V &a, const V &b) { return a == b; }, is_operator());
    c.def("__ne__", [](const V &a, const V &b) { return a != b; }, is_operator());
    c.def("append", [](V &v, const T &x) { v.push_back(x); }, arg("x"));
    c.def("clear", [](V &v) { v.clear(); });
    c.def("extend", [from](V &v, const iterable &o)
    {
        V x = from(o);
        v.insert(v.end(), x.begin(), x.end());
    });
    c.def("pop", [](V &v)
    {
        if (v.empty())
            throw index_error();
        T x = v.back();
        v.pop_back();
        return x;
    });
    c.def("count", [](const V &v, const T &x) { return std::count(v.begin(), v.end(), x); }, arg("x"));
    c.def("__contains__", [](const V &v, const T &x) { return std::find(v.begin(), v.end(), x) != v.end(); }, arg("x"));
    return c;
}
} // namespace pybind11
