// A minimal stand-in for pybind11: typed arrays over plain memory, and module
// definitions that land in a table of callers (see driver.cpp).
#pragma once
#include <sys/types.h>
#include <algorithm>
#include <complex>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace pybind11 {
using ssize_t = ::ssize_t;

// one value that crosses the border: kind 'i', 'f', 'd' (double array), 'z' (complex array), 'I' (int list)
struct Value {
    char kind = 'n';
    long i = 0;
    double f = 0;
    std::vector<ssize_t> shape;
    std::shared_ptr<void> own;
    void *ptr = nullptr;
};

template <class T> struct code_of;
template <> struct code_of<double> { static constexpr char v = 'd'; };
template <> struct code_of<std::complex<double>> { static constexpr char v = 'z'; };
template <> struct code_of<int> { static constexpr char v = 'I'; };

struct array {
    enum { c_style = 1, f_style = 2, forcecast = 16 };
};

struct buffer_info {
    void *ptr;
    ssize_t size, ndim;
    std::vector<ssize_t> shape;
};

template <class T, int F = array::forcecast> class array_t : public array {
public:
    std::vector<ssize_t> shape_;
    std::shared_ptr<void> own_;
    T *p_ = nullptr;

    array_t() : array_t(std::vector<ssize_t>{0}) {}
    explicit array_t(std::vector<ssize_t> s) : shape_(std::move(s)) {
        ssize_t n = size();
        T *q = static_cast<T *>(std::malloc(sizeof(T) * (n + 32)));
        for (ssize_t i = 0; i < n + 32; ++i) q[i] = T(-7.25e7);
        own_ = std::shared_ptr<void>(q, std::free);
        p_ = q + 16;
    }
    array_t(std::initializer_list<ssize_t> s) : array_t(std::vector<ssize_t>(s)) {}
    template <class I, class = std::enable_if_t<std::is_integral<I>::value>> explicit array_t(I n) : array_t(std::vector<ssize_t>{ssize_t(n)}) {}
    template <int G> array_t(const array_t<T, G> &o) : shape_(o.shape_), own_(o.own_), p_(o.p_) {}
    array_t(std::vector<ssize_t> s, T *p) : shape_(std::move(s)), p_(p) {}

    ssize_t ndim() const { return shape_.size(); }
    ssize_t size() const {
        ssize_t n = 1;
        for (auto x : shape_) n *= x;
        return n;
    }
    ssize_t nbytes() const { return size() * sizeof(T); }
    ssize_t itemsize() const { return sizeof(T); }
    ssize_t shape(ssize_t i) const {
        if (i < 0 || i >= ndim()) throw std::runtime_error("invalid axis");
        return shape_[i];
    }
    const ssize_t *shape() const { return shape_.data(); }
    ssize_t strides(ssize_t i) const {
        ssize_t s = sizeof(T);
        for (ssize_t k = ndim() - 1; k > i; --k) s *= shape_[k];
        return s;
    }
    int flags() const { return array::c_style; }
    explicit operator bool() const { return p_ != nullptr; }
    template <class... I> ssize_t off(I... i) const {
        ssize_t ix[] = {0, ssize_t(i)...}, o = 0;
        constexpr int n = sizeof...(I);
        if (n > ndim()) throw std::runtime_error("too many indices");
        for (ssize_t k = 0; k < ndim(); ++k) {
            ssize_t v = k < n ? ix[k + 1] : 0;
            if (n && size() && (v < 0 || v >= shape_[k])) throw std::runtime_error("index out of bounds");
            o = o * shape_[k] + v;
        }
        return o;
    }
    template <class... I> const T *data(I... i) const { return p_ + off(i...); }
    template <class... I> T *mutable_data(I... i) const { return p_ + off(i...); }
    template <class... I> const T &at(I... i) const { return p_[off(i...)]; }
    template <class... I> T &mutable_at(I... i) { return p_[off(i...)]; }
    buffer_info request(bool = false) const { return {p_, size(), ndim(), shape_}; }

    template <int N> struct Ref {
        const array_t *a;
        template <class... I> T &operator()(I... i) const { return const_cast<T &>(a->p_[a->off(i...)]); }
        template <class... I> T *mutable_data(I... i) const { return const_cast<T *>(a->p_) + a->off(i...); }
        template <class... I> const T *data(I... i) const { return a->p_ + a->off(i...); }
        ssize_t shape(ssize_t i) const { return a->shape(i); }
        ssize_t ndim() const { return a->ndim(); }
    };
    template <int N> Ref<N> unchecked() const {
        if (ndim() != N) throw std::domain_error("array has incorrect number of dimensions");
        return {this};
    }
    template <int N> Ref<N> mutable_unchecked() const { return unchecked<N>(); }
};

struct none {};
struct arg_v;
struct arg {
    std::string name;
    explicit arg(const char *n) : name(n) {}
    arg &noconvert(bool = true) { return *this; }
    template <class T> arg_v operator=(T &&v) const;
};
struct arg_v {
    std::string name;
    Value val;
};
inline Value mkval(double x) { Value v; v.kind = 'f'; v.f = x; return v; }
inline Value mkval(int x) { Value v; v.kind = 'i'; v.i = x; return v; }
inline Value mkval(bool x) { Value v; v.kind = 'i'; v.i = x; return v; }
template <class T> arg_v arg::operator=(T &&v) const { return {name, mkval(v)}; }

template <class T, class = void> struct caster;
template <class T> struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static T get(const Value &v) {
        if (v.kind == 'f') return v.f;
        if (v.kind == 'i') return v.i;
        throw std::invalid_argument("number expected");
    }
    static void put(T x, std::vector<Value> &o) { o.push_back(mkval(double(x))); }
};
template <class T> struct caster<T, std::enable_if_t<std::is_integral<T>::value>> {
    static T get(const Value &v) {
        if (v.kind != 'i') throw std::invalid_argument("integer expected");
        return v.i;
    }
    static void put(T x, std::vector<Value> &o) { o.push_back(mkval(int(x))); }
};
template <> struct caster<std::vector<int>> {
    static std::vector<int> get(const Value &v) {
        if (v.kind != 'I') throw std::invalid_argument("list of integers expected");
        const int *p = static_cast<const int *>(v.ptr);
        return std::vector<int>(p, p + v.shape[0]);
    }
};
template <class T, int F> struct caster<array_t<T, F>> {
    static array_t<T, F> get(const Value &v) {
        if (v.kind == code_of<T>::v) return array_t<T, F>(v.shape, static_cast<T *>(v.ptr));
        if (v.kind == 'd' && code_of<T>::v == 'z') {  // forcecast
            array_t<T, F> a{std::vector<ssize_t>(v.shape)};
            for (ssize_t i = 0; i < a.size(); ++i) a.p_[i] = T(static_cast<double *>(v.ptr)[i]);
            return a;
        }
        throw std::invalid_argument("array of another type expected");
    }
    static void put(const array_t<T, F> &a, std::vector<Value> &o) {
        Value v;
        v.kind = code_of<T>::v, v.shape = a.shape_, v.own = a.own_, v.ptr = a.p_;
        o.push_back(v);
    }
};
template <class A, class B> struct caster<std::pair<A, B>> {
    static void put(const std::pair<A, B> &x, std::vector<Value> &o) { caster<A>::put(x.first, o), caster<B>::put(x.second, o); }
};
template <class... A> struct caster<std::tuple<A...>> {
    static void put(const std::tuple<A...> &x, std::vector<Value> &o) {
        std::apply([&](const auto &...y) { (caster<std::decay_t<decltype(y)>>::put(y, o), ...); }, x);
    }
};

using Caller = std::function<void(std::vector<Value> &, std::vector<Value> &)>;
inline std::map<std::string, Caller> &table() {
    static std::map<std::string, Caller> t;
    return t;
}

struct module_ {
    template <class R, class... A, class... X> module_ &def(const char *name, R (*f)(A...), const X &...extra) {
        std::vector<Value> defaults;
        auto take = [&](const auto &e) {
            if constexpr (std::is_same<std::decay_t<decltype(e)>, arg_v>::value) defaults.push_back(e.val);
        };
        (take(extra), ...);
        table()[name] = [f, defaults](std::vector<Value> &in, std::vector<Value> &out) {
            std::vector<Value> a = in;
            size_t n = sizeof...(A), miss = n - std::min(n, a.size());
            if (a.size() > n || miss > defaults.size()) throw std::invalid_argument("wrong number of arguments");
            for (size_t k = defaults.size() - miss; k < defaults.size(); ++k) a.push_back(defaults[k]);
            call(f, a, out, std::index_sequence_for<A...>());
        };
        return *this;
    }
    template <class R, class... A, size_t... K> static void call(R (*f)(A...), std::vector<Value> &a, std::vector<Value> &out, std::index_sequence<K...>) {
        if constexpr (std::is_void<R>::value)
            f(caster<std::decay_t<A>>::get(a[K])...);
        else
            caster<R>::put(f(caster<std::decay_t<A>>::get(a[K])...), out);
    }
    template <class F, class... X, class = std::enable_if_t<!std::is_pointer<F>::value && std::is_class<F>::value>> module_ &def(const char *name, F f, const X &...extra) { return def(name, +f, extra...); }
    const char *&doc() { static const char *d; return d; }
};
using module = module_;
}  // namespace pybind11

#define PYBIND11_MODULE(name, m) void vf_module(::pybind11::module_ &m)
