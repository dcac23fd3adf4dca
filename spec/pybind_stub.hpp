// Interface of the parts of pybind11 that bindings use, written so that every binding becomes a call of
// pybound_register(class, name, kind, callable, extras...): the analysis interprets the module function and looks up
// what was registered.  Nothing here is ever compiled into a program.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>

namespace pybind11
{
using ssize_t = ::ssize_t;
using size_t = std::size_t;
class object;
class handle
{
  public:
    template <class T> T cast() const;
    template <class K> object attr(K &&k) const;
    bool is_none() const;
    template <class T> void operator=(T &&) const;
};
class object : public handle
{
  public:
    object() = default;
    object(const object &) = default;
};
class none : public object
{
};
class str : public object
{
  public:
    str(const char *);
    str(const std::string &);
    operator std::string() const;
};
class bytes : public object
{
  public:
    bytes(const std::string &);
    bytes(const char *, size_t);
    operator std::string() const;
};
class item
{
  public:
    template <class T> T cast() const;
};
class tuple : public object
{
  public:
    size_t size() const;
    bool empty() const;
    item operator[](size_t i) const;
};
class list : public object
{
  public:
    list();
    template <class T> void append(T &&);
    size_t size() const;
    item operator[](size_t i) const;
};
class dict : public object
{
};
class slice : public object
{
  public:
    slice(ssize_t, ssize_t, ssize_t);
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *slicelength) const;
    bool compute(ssize_t length, ssize_t *start, ssize_t *stop, ssize_t *step, ssize_t *slicelength) const;
};
class iterator : public object
{
};
class buffer : public object
{
};
template <class... A> tuple make_tuple(A &&...a);
template <class T> T cast(const handle &);
template <class T> object cast(T &&);
template <class I> iterator make_iterator(I b, I e);
template <class C> iterator make_iterator(C &c);
class index_error : public std::runtime_error
{
  public:
    explicit index_error(const char *w = "") : std::runtime_error(w) {}
};
class key_error : public std::runtime_error
{
  public:
    explicit key_error(const char *w = "") : std::runtime_error(w) {}
};
class value_error : public std::runtime_error
{
  public:
    explicit value_error(const char *w = "") : std::runtime_error(w) {}
};
class type_error : public std::runtime_error
{
  public:
    explicit type_error(const char *w = "") : std::runtime_error(w) {}
};
class error_already_set : public std::exception
{
};
class cast_error : public std::runtime_error
{
  public:
    explicit cast_error(const char *w = "") : std::runtime_error(w) {}
};

template <class T> struct arg_v
{
    const char *name;
    T value;
};
struct arg
{
    const char *name;
    explicit constexpr arg(const char *n) : name(n) {}
    template <class T> arg_v<std::decay_t<T>> operator=(T &&v) const { return arg_v<std::decay_t<T>>{name, v}; }
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
};
struct is_operator
{
};
struct buffer_protocol
{
};
struct module_local
{
    explicit module_local(bool = true) {}
};
struct dynamic_attr
{
};
struct doc
{
    explicit doc(const char *) {}
};
struct kw_only
{
};
struct pos_only
{
};
template <class... T> struct call_guard
{
};
struct gil_scoped_release
{
};
template <size_t A, size_t B> struct keep_alive
{
};
enum class return_value_policy
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};

template <class... Args> struct overload_cast_impl
{
    template <class R> constexpr auto operator()(R (*pf)(Args...)) const noexcept -> decltype(pf) { return pf; }
    template <class R, class C>
    constexpr auto operator()(R (C::*pmf)(Args...), std::false_type = {}) const noexcept -> decltype(pmf)
    {
        return pmf;
    }
    template <class R, class C>
    constexpr auto operator()(R (C::*pmf)(Args...) const, std::true_type) const noexcept -> decltype(pmf)
    {
        return pmf;
    }
};
template <class... Args> static constexpr overload_cast_impl<Args...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

// what the analysis reads: (class, name, kind, callable, extras...)
template <class F, class... X> void pybound_register(const char *cls, const char *name, const char *kind, F &&f, const X &...x) {}


template <class... A> struct init_t
{
};
template <class... A> init_t<A...> init();
template <class F> struct init_f
{
    F f;
};
template <class F, std::enable_if_t<!std::is_same<F, void>::value, int> = 0> init_f<F> init(F f) { return init_f<F>{f}; }
template <class G, class S> struct pickle_t
{
    G get;
    S set;
};
template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return pickle_t<G, S>{g, s}; }

struct self_t
{
};
static const self_t self = self_t();
struct eq_t
{
};
struct ne_t
{
};
struct lt_t
{
};
struct add_t
{
};
struct sub_t
{
};
struct mul_t
{
};
struct div_t_
{
};
struct hash_t
{
};
inline eq_t operator==(const self_t &, const self_t &) { return {}; }
inline ne_t operator!=(const self_t &, const self_t &) { return {}; }
inline lt_t operator<(const self_t &, const self_t &) { return {}; }
inline add_t operator+(const self_t &, const self_t &) { return {}; }
inline sub_t operator-(const self_t &, const self_t &) { return {}; }
inline mul_t operator*(const self_t &, const self_t &) { return {}; }
inline div_t_ operator/(const self_t &, const self_t &) { return {}; }
template <class U> struct other_t
{
};
template <class U> struct mulo_t
{
};
template <class U> struct divo_t
{
};
template <class U> struct addo_t
{
};
template <class U> struct subo_t
{
};
inline mulo_t<double> operator*(const self_t &, double) { return {}; }
inline divo_t<double> operator/(const self_t &, double) { return {}; }
inline addo_t<double> operator+(const self_t &, double) { return {}; }
inline subo_t<double> operator-(const self_t &, double) { return {}; }
inline hash_t hash(const self_t &) { return {}; }

class module_ : public object
{
  public:
    template <class F, class... X> module_ &def(const char *name, F &&f, const X &...x)
    {
        pybound_register("", name, "def", f, x...);
        return *this;
    }
    const char *doc();
};
using module = module_;

template <class T, class... Opt> class class_ : public object
{
  public:
    const char *name_;
    template <class... X> class_(const handle &, const char *name, const X &...) : name_(name) {}

    template <class F, class... X> class_ &def(const char *name, F &&f, const X &...x)
    {
        pybound_register(name_, name, "def", f, x...);
        return *this;
    }
    template <class... A, class... X> class_ &def(const init_t<A...> &, const X &...x)
    {
        pybound_register(name_, "__init__", "init", [](A... a) { return T(a...); }, x...);
        return *this;
    }
    template <class F, class... X> class_ &def(const init_f<F> &i, const X &...x)
    {
        pybound_register(name_, "__init__", "init", i.f, x...);
        return *this;
    }
    template <class G, class S> class_ &def(const pickle_t<G, S> &p)
    {
        pybound_register(name_, "__getstate__", "def", p.get);
        pybound_register(name_, "__setstate__", "init", p.set);
        return *this;
    }
    template <class... X> class_ &def(eq_t, const X &...)
    {
        pybound_register(name_, "__eq__", "def", [](const T &a, const T &b) { return a == b; });
        return *this;
    }
    template <class... X> class_ &def(ne_t, const X &...)
    {
        pybound_register(name_, "__ne__", "def", [](const T &a, const T &b) { return a != b; });
        return *this;
    }
    template <class... X> class_ &def(add_t, const X &...)
    {
        pybound_register(name_, "__add__", "def", [](const T &a, const T &b) { return a + b; });
        return *this;
    }
    template <class... X> class_ &def(sub_t, const X &...)
    {
        pybound_register(name_, "__sub__", "def", [](const T &a, const T &b) { return a - b; });
        return *this;
    }
    template <class... X> class_ &def(mul_t, const X &...)
    {
        pybound_register(name_, "__mul__", "def", [](const T &a, const T &b) { return a * b; });
        return *this;
    }
    template <class... X> class_ &def(div_t_, const X &...)
    {
        pybound_register(name_, "__truediv__", "def", [](const T &a, const T &b) { return a / b; });
        return *this;
    }
    template <class U, class... X> class_ &def(addo_t<U>, const X &...)
    {
        pybound_register(name_, "__add__", "def", [](const T &a, const U &b) { return a + b; });
        return *this;
    }
    template <class U, class... X> class_ &def(subo_t<U>, const X &...)
    {
        pybound_register(name_, "__sub__", "def", [](const T &a, const U &b) { return a - b; });
        return *this;
    }
    template <class U, class... X> class_ &def(mulo_t<U>, const X &...)
    {
        pybound_register(name_, "__mul__", "def", [](const T &a, const U &b) { return a * b; });
        return *this;
    }
    template <class U, class... X> class_ &def(divo_t<U>, const X &...)
    {
        pybound_register(name_, "__truediv__", "def", [](const T &a, const U &b) { return a / b; });
        return *this;
    }
    template <class... X> class_ &def(hash_t, const X &...)
    {
        pybound_register(name_, "__hash__", "def", [](const T &a) { return std::hash<T>()(a); });
        return *this;
    }
    template <class D, class C, class... X> class_ &def_readwrite(const char *name, D C::*pm, const X &...)
    {
        pybound_register(name_, name, "get", [pm](const T &c) -> const D & { return c.*pm; });
        pybound_register(name_, name, "set", [pm](T &c, const D &v) { c.*pm = v; });
        return *this;
    }
    template <class D, class C, class... X> class_ &def_readonly(const char *name, const D C::*pm, const X &...)
    {
        pybound_register(name_, name, "get", [pm](const T &c) -> const D & { return c.*pm; });
        return *this;
    }
    template <class G, class S, class... X> class_ &def_property(const char *name, G &&g, S &&s, const X &...)
    {
        pybound_register(name_, name, "get", g);
        pybound_register(name_, name, "set", s);
        return *this;
    }
    template <class S, class... X> class_ &def_property(const char *name, std::nullptr_t, S &&s, const X &...)
    {
        pybound_register(name_, name, "set", s);
        return *this;
    }
    template <class G, class... X> class_ &def_property_readonly(const char *name, G &&g, const X &...)
    {
        pybound_register(name_, name, "get", g);
        return *this;
    }
    template <class F, class... X> class_ &def_static(const char *name, F &&f, const X &...x)
    {
        pybound_register(name_, name, "static", f, x...);
        return *this;
    }
    template <class D, class... X> class_ &def_readonly_static(const char *name, const D *d, const X &...)
    {
        pybound_register(name_, name, "value", *d);
        return *this;
    }
};
template <class T> class enum_ : public class_<T>
{
  public:
    template <class... X> enum_(const handle &h, const char *n, const X &...) : class_<T>(h, n) {}
    enum_ &value(const char *name, T v)
    {
        pybound_register(this->name_, name, "value", v);
        return *this;
    }
    enum_ &export_values() { return *this; }
};
template <class A, class B> void implicitly_convertible();
template <class V, class H = std::unique_ptr<V>, class... X> class_<V, H> bind_vector(const handle &h, const char *name, const X &...)
{
    return class_<V, H>(h, name);
}

// -- for the laws: call what is registered under a name
template <class R, class... A> R pybound(const char *cls, const char *name, const char *kind, A &&...a);
// is there a binding of that name that takes these arguments
template <class... A> bool accepts(const char *cls, const char *name, const char *kind, A &&...a);
} // namespace pybind11

#define PYBIND11_MODULE(name, var) void pybound_module(::pybind11::module_ &var)
#define PYBIND11_MAKE_OPAQUE(...)
