// Minimal stand-in for pybind11, enough to turn the collision-integral sources of /repo into a
// real CPython extension without network access.  Only what the binding blocks of those sources
// can reasonably use is provided: functions (free functions and lambdas), keyword arguments with
// defaults, value classes with constructors, enums, vectorize, arrays of doubles.
#pragma once
#include <Python.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace pybind11 {

struct error_already_set : std::runtime_error {
    error_already_set() : std::runtime_error("python error") {}
};
struct cast_error : std::runtime_error {
    cast_error(const std::string &s) : std::runtime_error(s) {}
};

struct object_ref {           // a borrowed/owned PyObject, owned here
    PyObject *p;
    object_ref(PyObject *q = nullptr) : p(q) {}
    object_ref(const object_ref &o) : p(o.p) { Py_XINCREF(p); }
    object_ref &operator=(const object_ref &o) { Py_XINCREF(o.p); Py_XDECREF(p); p = o.p; return *this; }
    ~object_ref() { Py_XDECREF(p); }
};
typedef object_ref object;

// ---------------------------------------------------------------- class registry
struct Instance { PyObject_HEAD void *value; };
inline std::map<std::type_index, PyTypeObject *> &registry() {
    static std::map<std::type_index, PyTypeObject *> r;
    return r;
}

// ---------------------------------------------------------------- arrays
template <typename T, int F = 0> struct array_t {
    std::vector<T> data;
    std::vector<Py_ssize_t> dims;     // empty: scalar
    array_t() {}
    explicit array_t(size_t n) : data(n), dims(1, (Py_ssize_t) n) {}
    size_t size() const { return data.size(); }
    const T *cdata() const { return data.data(); }
    T *mutable_data() { return data.data(); }
};

// ---------------------------------------------------------------- casters
template <typename T, typename E = void> struct caster {
    static T load(PyObject *o) {
        auto it = registry().find(std::type_index(typeid(T)));
        if (it == registry().end()) throw cast_error("unregistered type");
        if (!PyObject_TypeCheck(o, it->second)) throw cast_error("incompatible argument type");
        return *static_cast<T *>(reinterpret_cast<Instance *>(o)->value);
    }
    static PyObject *cast(const T &v) {
        auto it = registry().find(std::type_index(typeid(T)));
        if (it == registry().end()) throw cast_error("unregistered type");
        PyObject *o = it->second->tp_alloc(it->second, 0);
        reinterpret_cast<Instance *>(o)->value = new T(v);
        return o;
    }
};
template <typename T>
struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static T load(PyObject *o) {
        double d = PyFloat_AsDouble(o);
        if (d == -1.0 && PyErr_Occurred()) throw error_already_set();
        return (T) d;
    }
    static PyObject *cast(T v) { return PyFloat_FromDouble(v); }
};
template <> struct caster<bool, void> {
    static bool load(PyObject *o) { int r = PyObject_IsTrue(o); if (r < 0) throw error_already_set(); return r; }
    static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};
template <typename T>
struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T load(PyObject *o) {
        if (PyFloat_Check(o)) throw cast_error("integer expected");
        PyObject *i = PyNumber_Index(o);
        if (!i) { PyErr_Clear(); i = PyNumber_Long(o); }
        if (!i) throw error_already_set();
        long long v = PyLong_AsLongLong(i);
        Py_DECREF(i);
        if (v == -1 && PyErr_Occurred()) throw error_already_set();
        return (T) v;
    }
    static PyObject *cast(T v) { return PyLong_FromLongLong((long long) v); }
};
template <typename T>
struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static T load(PyObject *o) { return static_cast<T>(caster<long long>::load(o)); }
    static PyObject *cast(T v) { return PyLong_FromLongLong((long long) v); }
};
template <> struct caster<std::string, void> {
    static std::string load(PyObject *o) {
        const char *s = PyUnicode_AsUTF8(o);
        if (!s) throw error_already_set();
        return s;
    }
    static PyObject *cast(const std::string &v) { return PyUnicode_FromString(v.c_str()); }
};
template <typename T> struct caster<std::vector<T>, void> {
    static std::vector<T> load(PyObject *o) {
        PyObject *f = PySequence_Fast(o, "sequence expected");
        if (!f) throw error_already_set();
        object_ref hold(f);
        std::vector<T> v;
        Py_ssize_t n = PySequence_Fast_GET_SIZE(f);
        for (Py_ssize_t i = 0; i < n; ++i) v.push_back(caster<T>::load(PySequence_Fast_GET_ITEM(f, i)));
        return v;
    }
    static PyObject *cast(const std::vector<T> &v) {
        PyObject *l = PyList_New((Py_ssize_t) v.size());
        for (size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, (Py_ssize_t) i, caster<T>::cast(v[i]));
        return l;
    }
};
template <typename T, size_t N> struct caster<std::array<T, N>, void> {
    static std::array<T, N> load(PyObject *o) {
        std::vector<T> v = caster<std::vector<T>>::load(o);
        if (v.size() != N) throw cast_error("wrong number of elements");
        std::array<T, N> a;
        std::copy(v.begin(), v.end(), a.begin());
        return a;
    }
    static PyObject *cast(const std::array<T, N> &v) {
        return caster<std::vector<T>>::cast(std::vector<T>(v.begin(), v.end()));
    }
};
template <typename A, typename B> struct caster<std::pair<A, B>, void> {
    static std::pair<A, B> load(PyObject *o) {
        PyObject *f = PySequence_Fast(o, "pair expected");
        if (!f) throw error_already_set();
        object_ref hold(f);
        if (PySequence_Fast_GET_SIZE(f) != 2) throw cast_error("pair expected");
        return std::make_pair(caster<A>::load(PySequence_Fast_GET_ITEM(f, 0)),
                              caster<B>::load(PySequence_Fast_GET_ITEM(f, 1)));
    }
    static PyObject *cast(const std::pair<A, B> &v) {
        PyObject *t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, caster<A>::cast(v.first));
        PyTuple_SET_ITEM(t, 1, caster<B>::cast(v.second));
        return t;
    }
};
inline PyObject *cast_tuple_fill(PyObject *t, Py_ssize_t) { return t; }
template <typename H, typename... R>
PyObject *cast_tuple_fill(PyObject *t, Py_ssize_t i, const H &h, const R &... r) {
    PyTuple_SET_ITEM(t, i, caster<typename std::decay<H>::type>::cast(h));
    return cast_tuple_fill(t, i + 1, r...);
}
template <typename A, typename B, typename C> struct caster<std::tuple<A, B, C>, void> {
    static PyObject *cast(const std::tuple<A, B, C> &v) {
        return cast_tuple_fill(PyTuple_New(3), 0, std::get<0>(v), std::get<1>(v), std::get<2>(v));
    }
};
template <> struct caster<object, void> {
    static object load(PyObject *o) { Py_INCREF(o); return object(o); }
    static PyObject *cast(const object &v) { Py_XINCREF(v.p); return v.p; }
};
template <typename T, int F> struct caster<array_t<T, F>, void> {
    static void fill(PyObject *o, array_t<T, F> &a, size_t depth) {
        if (PyFloat_Check(o) || PyLong_Check(o) || !PySequence_Check(o)) { a.data.push_back(caster<T>::load(o)); return; }
        PyObject *f = PySequence_Fast(o, "array expected");
        if (!f) { PyErr_Clear(); a.data.push_back(caster<T>::load(o)); return; }
        object_ref hold(f);
        Py_ssize_t n = PySequence_Fast_GET_SIZE(f);
        if (a.dims.size() <= depth) a.dims.push_back(n);
        for (Py_ssize_t i = 0; i < n; ++i) fill(PySequence_Fast_GET_ITEM(f, i), a, depth + 1);
    }
    static array_t<T, F> load(PyObject *o) {
        array_t<T, F> a;
        if (PyFloat_Check(o) || PyLong_Check(o)) { a.data.push_back(caster<T>::load(o)); return a; }
        PyObject *l = PyObject_HasAttrString(o, "tolist") ? PyObject_CallMethod(o, "tolist", nullptr) : nullptr;
        if (l) { object_ref hold(l); fill(l, a, 0); }
        else { PyErr_Clear(); fill(o, a, 0); }
        return a;
    }
    static PyObject *build(const array_t<T, F> &a, size_t depth, size_t &pos) {
        if (depth == a.dims.size()) return caster<T>::cast(a.data[pos++]);
        PyObject *l = PyList_New(a.dims[depth]);
        for (Py_ssize_t i = 0; i < a.dims[depth]; ++i) PyList_SET_ITEM(l, i, build(a, depth + 1, pos));
        return l;
    }
    static PyObject *cast(const array_t<T, F> &a) {
        size_t pos = 0;
        PyObject *v = build(a, 0, pos);
        if (a.dims.empty()) return v;
        PyObject *np = PyImport_ImportModule("numpy");
        if (!np) { Py_DECREF(v); throw error_already_set(); }
        PyObject *r = PyObject_CallMethod(np, "array", "Os", v, "float64");
        Py_DECREF(np); Py_DECREF(v);
        if (!r) throw error_already_set();
        return r;
    }
};

// vectorize: unary scalar functions
template <typename Fn> struct vectorized {
    Fn f;
    array_t<double> operator()(const array_t<double> &x) const {
        array_t<double> r;
        r.dims = x.dims;
        for (double d : x.data) r.data.push_back(f(d));
        return r;
    }
};
template <typename Fn> vectorized<Fn> vectorize(Fn f) { return vectorized<Fn>{f}; }

// ---------------------------------------------------------------- keyword arguments
struct arg_v { const char *name; object def; bool has; };
struct arg {
    const char *name;
    explicit arg(const char *n) : name(n) {}
    template <typename T> arg_v operator=(T v) const {
        return arg_v{name, object(caster<typename std::decay<T>::type>::cast(v)), true};
    }
};
namespace literals {
inline arg operator"" _a(const char *s, size_t) { return arg(s); }
}

struct Callable {
    std::function<PyObject *(PyObject **)> call;   // positional, fully bound
    size_t n;
    std::vector<std::string> names;
    std::vector<object> defaults;                  // null p: required
    bool invoke(PyObject *args, PyObject *kw, PyObject **result, std::string &why) {
        std::vector<PyObject *> v(n, nullptr);
        size_t na = (size_t) PyTuple_GET_SIZE(args);
        if (na > n) { why = "too many arguments"; return false; }
        for (size_t i = 0; i < na; ++i) v[i] = PyTuple_GET_ITEM(args, (Py_ssize_t) i);
        if (kw) {
            PyObject *k, *val; Py_ssize_t pos = 0;
            while (PyDict_Next(kw, &pos, &k, &val)) {
                std::string key = PyUnicode_AsUTF8(k);
                auto it = std::find(names.begin(), names.end(), key);
                if (it == names.end()) { why = "unexpected keyword argument " + key; return false; }
                size_t idx = (size_t) (it - names.begin());
                if (v[idx]) { why = "argument given twice: " + key; return false; }
                v[idx] = val;
            }
        }
        for (size_t i = 0; i < n; ++i) {
            if (!v[i] && i < defaults.size()) v[i] = defaults[i].p;
            if (!v[i]) { why = "missing argument"; return false; }
        }
        *result = call(v.data());
        return true;
    }
};

inline void take_extra(Callable &) {}
template <typename... R> void take_extra(Callable &c, const char *, const R &... r);
template <typename... R> void take_extra(Callable &c, const arg &a, const R &... r);
template <typename... R> void take_extra(Callable &c, const arg_v &a, const R &... r);
template <typename X, typename... R> void take_extra(Callable &c, const X &, const R &... r) { take_extra(c, r...); }
template <typename... R> void take_extra(Callable &c, const char *, const R &... r) { take_extra(c, r...); }
template <typename... R> void take_extra(Callable &c, const arg &a, const R &... r) {
    c.names.push_back(a.name); c.defaults.push_back(object()); take_extra(c, r...);
}
template <typename... R> void take_extra(Callable &c, const arg_v &a, const R &... r) {
    c.names.push_back(a.name); c.defaults.push_back(a.def); take_extra(c, r...);
}

template <size_t... I> struct iseq {};
template <size_t N, size_t... I> struct mkseq : mkseq<N - 1, N - 1, I...> {};
template <size_t... I> struct mkseq<0, I...> { typedef iseq<I...> type; };

template <typename T> struct bare { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };

template <typename R> struct do_call {
    template <typename F, typename... A> static PyObject *go(F &f, A &&... a) {
        return caster<typename bare<R>::type>::cast(f(std::forward<A>(a)...));
    }
};
template <> struct do_call<void> {
    template <typename F, typename... A> static PyObject *go(F &f, A &&... a) {
        f(std::forward<A>(a)...);
        Py_RETURN_NONE;
    }
};
template <typename F, typename R, typename... A, size_t... I>
Callable make_callable_seq(F f, R (*)(A...), iseq<I...>) {
    Callable c;
    c.n = sizeof...(A);
    c.call = [f](PyObject **v) mutable -> PyObject * {
        (void) v;
        return do_call<R>::go(f, caster<typename bare<A>::type>::load(v[I])...);
    };
    return c;
}
template <typename M> struct memsig;
template <typename C, typename R, typename... A> struct memsig<R (C::*)(A...) const> { typedef R (*type)(A...); enum { n = sizeof...(A) }; };
template <typename C, typename R, typename... A> struct memsig<R (C::*)(A...)> { typedef R (*type)(A...); enum { n = sizeof...(A) }; };
template <typename R, typename... A> Callable make_callable(R (*f)(A...)) {
    return make_callable_seq(f, (R(*)(A...)) nullptr, typename mkseq<sizeof...(A)>::type());
}
template <typename F> Callable make_callable(F f) {
    typedef memsig<decltype(&F::operator())> sig;
    return make_callable_seq(f, (typename sig::type) nullptr, typename mkseq<sig::n>::type());
}

typedef std::vector<Callable> Overloads;
inline PyObject *dispatch(Overloads *ov, PyObject *args, PyObject *kw) {
    std::string why;
    for (Callable &c : *ov) {
        PyObject *r = nullptr;
        try {
            if (c.invoke(args, kw, &r, why)) return r;
        } catch (cast_error &e) {
            why = e.what();
        } catch (error_already_set &) {
            if (ov->size() == 1 || !PyErr_ExceptionMatches(PyExc_TypeError)) return nullptr;
            PyErr_Clear();
        } catch (std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); return nullptr; }
        catch (std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); return nullptr; }
        catch (std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); return nullptr; }
    }
    PyErr_SetString(PyExc_TypeError, ("incompatible function arguments: " + why).c_str());
    return nullptr;
}
inline PyObject *trampoline(PyObject *self, PyObject *args, PyObject *kw) {
    return dispatch((Overloads *) PyCapsule_GetPointer(self, nullptr), args, kw);
}

// ---------------------------------------------------------------- modules
struct attr_proxy {
    PyObject *m; std::string name;
    template <typename T> void operator=(const T &v) { object o(caster<T>::cast(v)); PyObject_SetAttrString(m, name.c_str(), o.p); }
    void operator=(const char *v) { object o(PyUnicode_FromString(v)); PyObject_SetAttrString(m, name.c_str(), o.p); }
};
struct module_ {
    PyObject *m;
    std::map<std::string, Overloads *> *fns;
    PyObject *ptr() const { return m; }
    attr_proxy attr(const char *n) { return attr_proxy{m, n}; }
    const char *doc_holder = nullptr;
    struct docp { PyObject *m; void operator=(const char *v) { object o(PyUnicode_FromString(v)); PyObject_SetAttrString(m, "__doc__", o.p); } };
    docp doc() { return docp{m}; }
    template <typename F, typename... X> module_ &def(const char *name, F f, const X &... x) {
        Callable c = make_callable(f);
        take_extra(c, x...);
        Overloads *&o = (*fns)[name];
        if (!o) {
            o = new Overloads();
            PyMethodDef *d = new PyMethodDef();
            d->ml_name = strdup(name);
            d->ml_meth = (PyCFunction) (void (*)(void)) trampoline;
            d->ml_flags = METH_VARARGS | METH_KEYWORDS;
            d->ml_doc = "";
            PyObject *cap = PyCapsule_New(o, nullptr, nullptr);
            PyObject_SetAttrString(m, name, object(PyCFunction_New(d, cap)).p);
        }
        o->push_back(c);
        return *this;
    }
};
typedef module_ module;

// ---------------------------------------------------------------- enums
template <typename E> struct enum_ {
    PyObject *scope, *holder;
    std::vector<std::pair<std::string, PyObject *>> vals;
    enum_(module_ &m, const char *name, const char * = nullptr) : scope(m.m) {
        // an int subclass, so members are accepted wherever an int is and keep their identity
        object ns(PyDict_New());
        holder = PyObject_CallFunction((PyObject *) &PyType_Type, "s(O)O", name, (PyObject *) &PyLong_Type, ns.p);
        PyObject_SetAttrString(m.m, name, holder);
    }
    enum_ &value(const char *n, E v, const char * = nullptr) {
        PyObject *o = PyObject_CallFunction(holder, "L", (long long) v);
        PyObject_SetAttrString(holder, n, o);
        vals.push_back(std::make_pair(std::string(n), o));
        return *this;
    }
    enum_ &export_values() {
        for (auto &p : vals) PyObject_SetAttrString(scope, p.first.c_str(), p.second);
        return *this;
    }
};

// ---------------------------------------------------------------- classes
template <typename... A> struct init {};
template <typename T> struct classinfo { static Overloads *ctors() { static Overloads *o = new Overloads(); return o; } };
template <typename T> PyObject *class_new(PyTypeObject *t, PyObject *, PyObject *) {
    PyObject *o = t->tp_alloc(t, 0);
    if (o) reinterpret_cast<Instance *>(o)->value = nullptr;
    return o;
}
template <typename T> int class_init(PyObject *self, PyObject *args, PyObject *kw) {
    PyObject *r = dispatch(classinfo<T>::ctors(), args, kw);
    if (!r) return -1;
    reinterpret_cast<Instance *>(self)->value = PyCapsule_GetPointer(r, "v");
    Py_DECREF(r);
    return 0;
}
template <typename T> void class_free(PyObject *self) {
    delete static_cast<T *>(reinterpret_cast<Instance *>(self)->value);
    PyTypeObject *t = Py_TYPE(self);
    t->tp_free(self);
    Py_DECREF(t);
}
template <typename T> struct class_ {
    PyTypeObject *type;
    class_(module_ &m, const char *name, const char * = nullptr) {
        std::string *full = new std::string(std::string("integral.") + name);
        PyType_Slot *slots = new PyType_Slot[4]{{Py_tp_new, (void *) class_new<T>}, {Py_tp_init, (void *) class_init<T>},
                                                {Py_tp_dealloc, (void *) class_free<T>}, {0, nullptr}};
        PyType_Spec *spec = new PyType_Spec{full->c_str(), sizeof(Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        type = (PyTypeObject *) PyType_FromSpec(spec);
        registry()[std::type_index(typeid(T))] = type;
        PyObject_SetAttrString(m.m, name, (PyObject *) type);
    }
    template <typename... A, size_t... I> Callable ctor(iseq<I...>) {
        Callable c;
        c.n = sizeof...(A);
        c.call = [](PyObject **v) -> PyObject * {
            (void) v;
            return PyCapsule_New(new T(caster<typename bare<A>::type>::load(v[I])...), "v", nullptr);
        };
        return c;
    }
    template <typename... A, typename... X> class_ &def(const init<A...> &, const X &... x) {
        Callable c = ctor<A...>(typename mkseq<sizeof...(A)>::type());
        take_extra(c, x...);
        classinfo<T>::ctors()->push_back(c);
        return *this;
    }
    // attributes are not needed by the code under test: accepted and ignored
    template <typename... X> class_ &def(const char *, const X &...) { return *this; }
    template <typename... X> class_ &def_readwrite(const X &...) { return *this; }
    template <typename... X> class_ &def_readonly(const X &...) { return *this; }
};
struct gil_scoped_release {};
struct gil_scoped_acquire {};

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                        \
    static void pybind11_init_##name(pybind11::module_ &);                                     \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {              \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, "", -1, nullptr, nullptr,      \
                                  nullptr, nullptr, nullptr};                                  \
        PyObject *m = PyModule_Create(&def);                                                   \
        if (!m) return nullptr;                                                                \
        pybind11::module_ mod{m, new std::map<std::string, pybind11::Overloads *>()};          \
        pybind11_init_##name(mod);                                                             \
        return m;                                                                              \
    }                                                                                          \
    static void pybind11_init_##name(pybind11::module_ &variable)
