// Fixed-size arrays and tuples.  static_array and device_array are proved per size (0, 1, 3, 7);
// array for every run-time size.
#include "vc.hpp"
#include <string>
#include <utility>
#include "vecmem/containers/array.hpp"
#include "vecmem/containers/device_array.hpp"
#include "vecmem/containers/static_array.hpp"
#include "vecmem/utils/tuple.hpp"
//@ trust the text of std::to_string is not verified
//@ replace .*7__cxx119to_stringEm.* empty_string
//@ replace .*basic_string.*10_M_replaceEmmPKcm same_string
//@ replace .*basic_string.*9_M_appendEPKcm same_string1
// stand for std::to_string and for joining strings
extern "C" std::string empty_string(unsigned long) { return {}; }
extern "C" void* same_string(void* s, unsigned long, unsigned long, const char*, unsigned long) { return s; }
extern "C" void* same_string1(void* s, const char*, unsigned long) { return s; }
using vc::addr;
using u32 = uint32_t;
using vecmem::data::vector_view;

template <typename C, typename T>
static void iterates(C& a, T* p, uint64_t n) {
    const C& c = a;
    vc_check(a.data() == p && c.data() == p, "data");
    vc_check(c.size() == n && c.empty() == (n == 0), "size");
    vc_check(a.begin() == p && a.end() == p + n && c.begin() == p && c.end() == p + n &&
                 c.cbegin() == p && c.cend() == p + n, "iteration covers exactly the elements");
    vc_check(a.rbegin().base() == a.end() && a.rend().base() == a.begin() &&
                 c.rbegin().base() == c.end() && c.rend().base() == c.begin() &&
                 c.crbegin().base() == c.end() && c.crend().base() == c.begin(),
             "reverse iteration covers exactly the elements");
}
template <typename C, typename T>
static void elements(C& a, T* p, uint64_t n, uint64_t i) {
    const C& c = a;
    vc_check(&a[i] == p + i && &c[i] == p + i && &a.at(i) == p + i && &c.at(i) == p + i, "element access");
    vc_check(&a.front() == p && &c.front() == p && &a.back() == p + (n - 1) && &c.back() == p + (n - 1),
             "first and last element");
    vc_check(&*(a.rbegin() + (std::ptrdiff_t)i) == p + (n - 1 - i) &&
                 &c.rbegin()[(std::ptrdiff_t)i] == p + (n - 1 - i), "reverse order");
}
template <typename C>
static void out_of_range(C& a, uint64_t i) {
    const C& c = a;
    bool one = false, two = false;
    try {
        a.at(i);
    } catch (const std::out_of_range&) {
        one = true;
    }
    try {
        c.at(i);
    } catch (const std::out_of_range&) {
        two = true;
    }
    vc_check(one && two, "checked access outside is reported");
}

// ---- static_array
template <std::size_t N>
static void statics() {
    using A = vecmem::static_array<u32, N>;
    A* a = reinterpret_cast<A*>(vc::array<u32>("a", N));
    A* b = reinterpret_cast<A*>(vc::array<u32>("b", N));
    u32* p = reinterpret_cast<u32*>(a);
    u32* q = reinterpret_cast<u32*>(b);
    iterates(*a, p, N);
    vc_check(a->max_size() == N && sizeof(A) == N * sizeof(u32), "size");
    uint64_t i = vc_u64("i");
    if (i < N) {
        elements(*a, p, N, i);
        vc_cover("inside");
    } else {
        out_of_range(*a, i);
        vc_cover("outside");
    }
    bool same = true;
    for (std::size_t k = 0; k < N; ++k) same = same && p[k] == q[k];
    vc_check((*a == *b) == same && (*a != *b) == !same && (*b == *a) == same, "equal exactly if all elements are");
    if (!same) vc_cover("different");
    A c = *a;
    for (std::size_t k = 0; k < N; ++k) vc_check(c[k] == p[k], "copies have the same elements");
    *b = *a;
    for (std::size_t k = 0; k < N; ++k) vc_check(q[k] == p[k], "assigned element by element");
    u32 x = vc_u32("x");
    a->fill(x);
    for (std::size_t k = 0; k < N; ++k) vc_check(p[k] == x && c[k] == q[k], "fill sets every element");
}
template <std::size_t N>
static void devices() {
    u32 cap = vc_range("capacity", N, vc::MAXN - 1), *s = nullptr;
    u32* p = vc::array<u32>("mem", cap);
    if (vc_bool("resizable")) {
        s = vc::array<u32>("sizevar", 1);
        *s = vc_range("size", N, vc::MAXN - 1);
    }
    vector_view<u32> v(cap, s, p);
    vecmem::device_array<u32, N> a(v), b(a), d(vector_view<u32>(N, nullptr));
    d = a;
    d = d;
    iterates(a, p, N);
    iterates(b, p, N);
    iterates(d, p, N);
    vecmem::device_array<const u32, N> e(v);
    vc_check(e.data() == p && e.size() == N && a.max_size() == N, "view of constant elements");
    uint64_t i = vc_range("i", 0, N - 1);
    elements(a, p, N, i);
    u32 old = p[i], x = vc_u32("x"), j = vc_range("j", 0, N - 1);
    vc_assume(j != i || N == 1);
    a[j] = x;
    vc_check(p[j] == x && (i == j || p[i] == old), "writes reach one element");
    vc_cover("done");
}
PROOF(static1) { statics<1>(); }
PROOF(static3) { statics<3>(); }
PROOF(static7) { statics<7>(); }
PROOF(static_get) {
    vecmem::static_array<u32, 3> a{{vc_u32("x"), vc_u32("x"), vc_u32("x")}};
    const auto& c = a;
    vc_check(&vecmem::get<0>(a) == &a[0] && &vecmem::get<1>(a) == &a[1] && &vecmem::get<2>(a) == &a[2] &&
                 &vecmem::get<0>(c) == &a[0] && &vecmem::get<2>(c) == &a[2] && &a.get<1>() == &a[1] &&
                 &c.get<1>() == &a[1], "compile-time access");
    u32 s = a[0];
    a[1] = s + 1;
    vc_check(a.get<1>() == s + 1 && a.get<0>() == s, "writes reach one element");
    vc_cover("done");
}
// An element type whose == and != are not those of its bytes.
struct mod7 {
    u32 v;
    bool operator==(const mod7& o) const { return v % 8 == o.v % 8; }
    bool operator!=(const mod7& o) const { return v % 8 != o.v % 8; }
};
PROOF(static_compare) {
    vecmem::static_array<mod7, 2> a{{{vc_u32("x")}, {vc_u32("x")}}}, b{{{vc_u32("x")}, {vc_u32("x")}}};
    bool same = a[0] == b[0] && a[1] == b[1];
    vc_check((a == b) == same && (a != b) == !same, "equal exactly if all elements are");
    if (same && a[0].v != b[0].v) vc_cover("equal but not identical");
}

PROOF(device1) { devices<1>(); }
PROOF(device3) { devices<3>(); }

// ---- array
struct item {
    u32 v, made, gone;
    item() : v(5) { made = made + 1; }
    ~item() { gone = gone + 1; }
};
PROOF(array) {
    vc::resource up;
    up.real = true;
    up.may_fail = false;
    uint64_t n = vc_range("n", 1, 1 << 28), i = vc_u64("i");
    {
        vecmem::array<u32> a(up, n);
        u32* p = a.data();
        vc_check(addr(p) == up.log[0].p && up.n == 1 && up.log[0].size >= n * sizeof(u32),
                 "one sufficient allocation");
        iterates(a, p, n);
        auto v = vecmem::get_data(a);
        const auto& ca = a;
        auto c = vecmem::get_data(ca);
        vc_check(v.ptr() == p && v.size() == n && v.capacity() == n && c.ptr() == p && c.size() == n,
                 "views describe exactly the elements");
        if (i < n) {
            vc_watch(i);
            vc_check(a[i] == 0, "elements are value-initialised");
            elements(a, p, n, i);
            u32 x = vc_u32("x");
            a.fill(x);
            vc_check(a[i] == x, "fill sets every element");
            vc_cover("inside");
        } else {
            out_of_range(a, i);
            vc_cover("outside");
        }
    }
    vc_check(up.n == 2 && up.log[1].kind == 3 && up.log[1].p == up.log[0].p &&
                 up.log[1].size == up.log[0].size && up.log[1].align == up.log[0].align, "released once");
}
PROOF(array_items) {
    vc::resource up;
    up.real = true;
    up.may_fail = false;
    uint64_t n = vc_range("n", 1, 1 << 28), i = vc_range("i", 0, 1 << 28);
    vc_assume(i < n);
    vc_watch(i);
    item* p;
    u32 made, gone;
    {
        vecmem::array<item> a(up, n);
        p = a.data();
        vc_check(p[i].v == 5, "every element is constructed");
        made = p[i].made;
        gone = p[i].gone;
    }
    vc_check(p[i].made == made && p[i].gone == gone + 1, "every element is destroyed once");
    vc_cover("done");
}
PROOF(array_empty) {
    vc::resource up;
    up.real = true;
    up.may_fail = false;
    vecmem::array<u32> a(up, 0);
    vc_check(a.size() == 0 && a.empty() && a.begin() == a.end() && vecmem::get_data(a).size() == 0, "empty");
    out_of_range(a, vc_u64("i"));
    const auto& c = a;
    int k = 0;
    try { a.front(); } catch (const std::out_of_range&) { ++k; }
    try { a.back(); } catch (const std::out_of_range&) { ++k; }
    try { c.front(); } catch (const std::out_of_range&) { ++k; }
    try { c.back(); } catch (const std::out_of_range&) { ++k; }
    vc_check(k == 4, "first and last element of nothing are reported");
    vecmem::array<u32, 4> b(up);
    vc_check(b.size() == 4 && up.log[up.n - 1].size >= 16, "compile-time size");
    vc_cover("done");
}
// ---- reverse iterators, over any sequence
PROOF(reverse) {
    using R = vecmem::details::reverse_iterator<u32*>;
    u32 n = vc_range("n", 1, vc::MAXN - 1);
    u32* m = vc::array<u32>("m", n);
    int64_t k = vc_range("k", 0, vc::MAXN), d = (int64_t)vc_u64("d");
    vc_assume(k >= 1 && k <= n);
    R r(m + k);
    vc_check(r.base() == m + k && &*r == m + (k - 1) && r.operator->() == m + (k - 1), "dereference");
    R s(r), t;
    t = r;
    t = t;
    vecmem::details::reverse_iterator<const u32*> c(r);
    vc_check(s == r && t == r && !(s != r) && c.base() == r.base(), "copies are equal");
    vc_check(&*(s++) == m + (k - 1) && s.base() == m + (k - 1) && s != r, "postfix ++");
    vc_check((++t).base() == m + (k - 1) && t == s, "prefix ++");
    vc_check((s--).base() == m + (k - 1) && s == r && (--t).base() == m + k && t == r, "--");
    vc_assume(d >= -(int64_t)n && d <= (int64_t)n && k - d >= 1 && k - d <= n);
    vc_check((r + d).base() == m + (k - d) && (r - -d).base() == m + (k - d) && &r[d] == m + (k - d - 1),
             "position arithmetic");
    s += d;
    vc_check(s.base() == m + (k - d), "+=");
    s -= d;
    vc_check(s == r, "-=");
    vc_cover("done");
}
// ---- tuples
struct wide { uint64_t a; u32 b; bool operator==(const wide& o) const { return a == o.a && b == o.b; } };
PROOF(tuple) {
    u32 x = vc_u32("x");
    uint8_t y = vc_u8("y");
    wide z{vc_u64("z"), vc_u32("z2")};
    vecmem::tuple<u32, uint8_t, wide> t(x, y, z), u(t);
    vc_check(vecmem::get<0>(t) == x && vecmem::get<1>(t) == y && vecmem::get<2>(t) == z, "constructed element by element");
    const auto& ct = t;
    vc_check(&vecmem::get<0>(ct) == &vecmem::get<0>(t) && &vecmem::get<1>(ct) == &vecmem::get<1>(t) &&
                 &vecmem::get<2>(ct) == &vecmem::get<2>(t), "access names the element");
    vc_check(vecmem::get<0>(u) == x && vecmem::get<1>(u) == y && vecmem::get<2>(u) == z, "copied element by element");
    vecmem::tuple<uint64_t, u32, wide> w(t);
    vc_check(vecmem::get<0>(w) == x && vecmem::get<1>(w) == y && vecmem::get<2>(w) == z, "converted element by element");
    auto m = vecmem::make_tuple(x, y, z);
    static_assert(std::is_same<decltype(m), vecmem::tuple<u32, uint8_t, wide>>::value, "");
    static_assert(std::is_same<vecmem::tuple_element_t<1, decltype(m)>, uint8_t>::value, "");
    vc_check(vecmem::get<0>(m) == x && vecmem::get<1>(m) == y && vecmem::get<2>(m) == z, "made element by element");
    u32 a = vc_u32("a"), b = vc_u32("b");
    vecmem::get<0>(t) = a;
    vc_check(vecmem::get<0>(t) == a && vecmem::get<1>(t) == y && vecmem::get<2>(t) == z && vecmem::get<0>(u) == x,
             "writes reach one element");
    u = t;
    vc_check(vecmem::get<0>(u) == a && vecmem::get<1>(u) == y && vecmem::get<2>(u) == z, "assigned element by element");
    auto r = vecmem::tie(a, b);
    vc_check(&vecmem::get<0>(r) == &a && &vecmem::get<1>(r) == &b, "tie names the arguments");
    vecmem::get<1>(r) = 9;
    vc_check(b == 9, "tie names the arguments");
    vc_cover("done");
}
