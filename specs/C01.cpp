#include "vc.hpp"
#include "vecmem/containers/data/vector_view.hpp"
#include "vecmem/containers/data/jagged_vector_view.hpp"
using vc::addr;
using u32 = uint32_t;
using vecmem::data::vector_view;
using vecmem::data::jagged_vector_view;
struct big { char c[24]; };

template <typename V, typename S, typename P>
static void is(V& v, u32 cap, S s, P p, u32 size) {
    const V& c = v;
    vc_check(v.ptr() == p && c.ptr() == p, "the given pointer");
    vc_check(v.size_ptr() == s && c.size_ptr() == s, "the given size variable");
    vc_check(c.capacity() == cap, "the given capacity");
    vc_check(c.size() == size, "the size in memory, or the capacity");
}
template <typename T>
static void vec() {
    u32 cap = vc_u32("capacity"), size = vc_u32("size");
    u32* sv = vc::array<u32>("sizevar", 1);
    *sv = size;
    T* p = static_cast<T*>(vc::ptr(vc_u64("p")));
    bool resizable = vc_bool("resizable");
    u32* s = resizable ? sv : nullptr;
    u32 exp = resizable ? size : cap;
    vector_view<T> v = resizable ? vector_view<T>(cap, s, p) : vector_view<T>(cap, p);
    is(v, cap, s, p, exp);
    vector_view<T> w(v), x(1, nullptr);
    is(w, cap, s, p, exp);
    x = v;
    is(x, cap, s, p, exp);
    x = x;
    is(x, cap, s, p, exp);
    vector_view<const T> c(v), d(1, nullptr), e(c);
    is(c, cap, s, p, exp);
    d = v;
    is(d, cap, s, p, exp);
    is(e, cap, s, p, exp);
    d = e;
    is(d, cap, s, p, exp);
    vc_check(v == w && v == x && v == c && c == v && d == e && !(v != w) && !(c != v),
             "views of the same memory are equal");
    if (resizable) {
        // the size is the one currently stored
        u32 n = vc_u32("n");
        *sv = n;
        is(v, cap, s, p, n);
        is(d, cap, s, p, n);
    }
    // an arbitrary other view
    u32 cap2 = vc_u32("capacity2");
    u32* sv2 = vc::array<u32>("sizevar2", 1);
    T* p2 = static_cast<T*>(vc::ptr(vc_u64("p2")));
    u32* s2 = vc_bool("same_size_var") ? s : vc_bool("fixed") ? nullptr : sv2;
    vector_view<T> o(cap2, s2, p2);
    vector_view<const T> oc(o);
    bool same = cap2 == cap && s2 == s && p2 == p;
    vc_check((v == o) == same && (o == v) == same && (v != o) == !same && (oc == v) == same &&
                 (v == oc) == same && (oc != v) == !same && (c == oc) == same,
             "equal exactly if they describe the same memory");
    if (same) vc_cover("same");
    if (!same) vc_cover("different");
}
PROOF(vector32) { vec<u32>(); }
PROOF(vector_big) { vec<big>(); }

template <typename V, typename P>
static void jis(V& v, uint64_t n, P p, P h) {
    const V& c = v;
    vc_check(c.size() == n && c.capacity() == n, "the given number of rows");
    vc_check(addr(v.ptr()) == addr(p) && addr(c.ptr()) == addr(p), "the given pointer");
    vc_check(addr(v.host_ptr()) == addr(h) && addr(c.host_ptr()) == addr(h), "the given host pointer");
}
PROOF(jagged) {
    using R = vector_view<u32>;
    uint64_t n = vc_u64("n");
    R* p = static_cast<R*>(vc::ptr(vc_u64("p")));
    R* h = static_cast<R*>(vc::ptr(vc_u64("h")));
    jagged_vector_view<u32> one(n, p);
    jis(one, n, p, p);
    jagged_vector_view<u32> v(n, p, h);
    if (!h) h = p;
    jis(v, n, p, h);
    jagged_vector_view<u32> w(v), x(1, nullptr);
    jis(w, n, p, h);
    x = v;
    jis(x, n, p, h);
    jagged_vector_view<const u32> c(v), d(1, nullptr);
    jis(c, n, p, h);
    d = v;
    jis(d, n, p, h);
    d = c;
    jis(d, n, p, h);
    vc_check(v == w && v == c && c == v && d == c && !(v != w) && !(v != c),
             "views of the same memory are equal");
    uint64_t n2 = vc_u64("n2");
    R* p2 = static_cast<R*>(vc::ptr(vc_u64("p2")));
    R* h2 = static_cast<R*>(vc::ptr(vc_range("h2", 1, ~uint64_t(0))));
    jagged_vector_view<u32> o(n2, p2, h2);
    jagged_vector_view<const u32> oc(o);
    bool same = n2 == n && p2 == p && h2 == h;
    vc_check((v == o) == same && (o == v) == same && (v != o) == !same && (oc == v) == same &&
                 (v == oc) == same && (oc != v) == !same, "equal exactly if they describe the same memory");
    if (same) vc_cover("same");
    if (!same) vc_cover("different");
}
// A row of a jagged view of constant elements is the same row.
PROOF(jagged_rows) {
    using R = vector_view<u32>;
    uint64_t n = vc_range("n", 0, 1 << 24), i = vc_range("i", 0, 1 << 24);
    vc_assume(i < n);
    R* rows = static_cast<R*>(vc_mem("rows", n * sizeof(R), 8, 4));
    jagged_vector_view<u32> v(n, rows);
    jagged_vector_view<const u32> c(v);
    u32 cap = vc_u32("cap");
    uint64_t p = vc_u64("p");
    rows[i] = R(cap, static_cast<u32*>(vc::ptr(p)));
    vc_check(c.ptr()[i].capacity() == cap && addr(c.ptr()[i].ptr()) == p && c.ptr()[i].size() == cap &&
                 c.host_ptr() == c.ptr(), "rows of a constant view are the same rows");
    vc_cover("done");
}
