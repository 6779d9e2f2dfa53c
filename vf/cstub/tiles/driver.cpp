// plain C interface to openms/lib/tensor++ for vf/tiles.py
#include <cassert>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <memory>
#include "Tile.hpp"
#include "TiledTensor.hpp"
using namespace tensorlib;

struct AnyTile { virtual ~AnyTile() {} virtual int rank() = 0; virtual bool dbl() = 0; };
template <class T, int R> struct TT : AnyTile { Tile<T, R> t; TT(Tile<T, R> x) : t(std::move(x)) {} int rank() { return R; } bool dbl() { return sizeof(T) == 8; } };
struct Any { virtual ~Any() {} virtual long count() = 0; virtual void indices(int*) = 0; virtual AnyTile* get(const int*) = 0; virtual void set(const int*, AnyTile*) = 0; virtual void dims(int*) = 0; };

template <class T, int R> std::array<int, R> arr(const int* p) { std::array<int, R> a; std::copy(p, p + R, a.begin()); return a; }
template <class T, int R> struct Ten : Any {
    std::unique_ptr<TiledTensor<T, R>> x;
    Ten(const int* s, const int* t, int init, int mod) {
        std::function<void(const std::array<int, R>&, Tile<T, R>&)> f = nullptr;
        std::function<bool(const std::array<int, R>&)> g = nullptr;
        if (init) f = [](const std::array<int, R>& i, Tile<T, R>& z) { double c = 1; for (int k : i) c = 10 * c + k; z.fill(T(c)); };
        if (mod) g = [mod](const std::array<int, R>& i) { int c = 0; for (int k : i) c = 3 * c + k; return c % mod == 0; };
        x = std::make_unique<TiledTensor<T, R>>(arr<T, R>(s), arr<T, R>(t), f, g);
    }
    long count() { return x->tile_indices().size(); }
    void indices(int* o) { for (auto& i : x->tile_indices()) for (int k : i) *o++ = k; }
    AnyTile* get(const int* i) { auto p = x->get_tile(arr<T, R>(i)); return p ? new TT<T, R>(*p) : nullptr; }
    void set(const int* i, AnyTile* t) { x->set_tile(arr<T, R>(i), static_cast<TT<T, R>*>(t)->t); }
    void dims(int* o) { for (int k : x->shape()) *o++ = k; for (int k : x->tile_shape()) *o++ = k; }
};
template <class F> auto with(int dbl, int rank, F f) {
    if (dbl) { if (rank == 2) return f((TT<double, 2>*)0); if (rank == 3) return f((TT<double, 3>*)0); return f((TT<double, 4>*)0); }
    if (rank == 2) return f((TT<float, 2>*)0); if (rank == 3) return f((TT<float, 3>*)0); return f((TT<float, 4>*)0);
}
template <class T, int R> T* raw(Tile<T, R>& t) { return t.data().data(); }
template <class X> struct Tr; template <class T, int R> struct Tr<TT<T, R>> { using type = T; static constexpr int rank = R; };
#define W(...) with(dbl, rank, [&](auto* q) { using X = std::remove_pointer_t<decltype(q)>; using T = typename Tr<X>::type; constexpr int R = Tr<X>::rank; __VA_ARGS__ })
static std::string err;
extern "C" {
const char* tl_error() { return err.c_str(); }
void* tl_new(int dbl, int rank, const int* s, const int* t, int init, int mod) {
    try {
        return W(return (void*)(Any*)new Ten<T, R>(s, t, init, mod););
    } catch (std::exception& e) { err = e.what(); return nullptr; }
}
long tl_all(int rank, const int* s, const int* t, int* o, long cap) {
    int dbl = 1;
    return W(auto v = generate_all_tile_indices<R>(arr<T, R>(s), arr<T, R>(t)); if (o && (long)v.size() <= cap) for (auto& i : v) for (int k : i) *o++ = k; return (long)v.size(););
}
long tl_count(void* x) { return ((Any*)x)->count(); }
void tl_indices(void* x, int* o) { ((Any*)x)->indices(o); }
void tl_dims(void* x, int* o) { ((Any*)x)->dims(o); }
void* tl_get(void* x, const int* i) { return ((Any*)x)->get(i); }
void tl_set(void* x, const int* i, void* t) { ((Any*)x)->set(i, (AnyTile*)t); }
void* tl_tile(int dbl, int rank, const int* s) { return W(return (void*)(AnyTile*)new X(Tile<T, R>(arr<T, R>(s)));); }
void tl_shape(int dbl, int rank, void* t, int* o) { W(auto& z = static_cast<X*>((AnyTile*)t)->t; for (int k = 0; k < R; k++) { o[k] = z.shape()[k]; o[R + k] = z.data().dimension(k); } return 0;); }
void* tl_data(int dbl, int rank, void* t) { return W(return (void*)raw(static_cast<X*>((AnyTile*)t)->t);); }
void tl_fill(int dbl, int rank, void* t, double v) { W(static_cast<X*>((AnyTile*)t)->t.fill(T(v)); return 0;); }
void* tl_add(int dbl, int rank, void* a, void* b) { return W(return (void*)(AnyTile*)new X(static_cast<X*>((AnyTile*)a)->t + static_cast<X*>((AnyTile*)b)->t);); }
void* tl_mul(int dbl, int rank, void* a, double v) { return W(return (void*)(AnyTile*)new X(static_cast<X*>((AnyTile*)a)->t * T(v));); }
void* tl_transpose(int dbl, int rank, void* a, const int* p) { return W(return (void*)(AnyTile*)new X(static_cast<X*>((AnyTile*)a)->t.transpose(arr<T, R>(p)));); }
}
