// Static vector as a sequence: every operation, any size and contents, for capacity 1000.
#include "vc.hpp"
#include <utility>
#include "vecmem/containers/static_vector.hpp"
using vc::addr;
using u32 = uint32_t;
constexpr uint64_t CAP = 1000;
using V = vecmem::static_vector<u32, CAP>;

struct env {
    uint64_t n, i;
    V& v;
    u32* mem;
    u32 old;
    explicit env(uint64_t room = 0, uint64_t min = 0)
        : n(vc_range("size", min, CAP - room)),
          i(vc_range("i", 0, CAP - 1)),
          v(*static_cast<V*>(vc_mem("v", sizeof(V), alignof(V), 4))),
          mem(reinterpret_cast<u32*>(&v.m_elements)) {
        v.m_size = n;
        vc_watch(i);
        old = mem[i];
    }
};
PROOF(access) {
    env e;
    V& v = e.v;
    const V& c = v;
    vc_check(c.size() == e.n && c.empty() == (e.n == 0) && c.max_size() == CAP && c.capacity() == CAP, "sizes");
    vc_check(v.data() == e.mem && c.data() == e.mem, "data");
    vc_check(v.begin() == e.mem && v.end() == e.mem + e.n && c.begin() == e.mem && c.end() == e.mem + e.n &&
                 c.cbegin() == e.mem && c.cend() == e.mem + e.n, "iteration covers exactly the elements");
    vc_check(v.rbegin().base() == v.end() && v.rend().base() == v.begin() && c.rbegin().base() == c.end() &&
                 c.rend().base() == c.begin() && c.crbegin().base() == c.end() && c.crend().base() == c.begin(),
             "reverse iteration covers exactly the elements");
    v.reserve(vc_range("reserve", 0, CAP));
    if (e.i < e.n) {
        vc_check(&v[e.i] == e.mem + e.i && &c[e.i] == e.mem + e.i && &v.at(e.i) == e.mem + e.i &&
                     &c.at(e.i) == e.mem + e.i, "element access");
        vc_check(&v.front() == e.mem && &c.front() == e.mem && &v.back() == e.mem + (e.n - 1) &&
                     &c.back() == e.mem + (e.n - 1), "first and last element");
        vc_cover("element");
    }
    vc_check(v.m_size == e.n && e.mem[e.i] == e.old, "other elements are kept");
}
PROOF(insert) {
    env e(1);
    uint64_t p = vc_range("pos", 0, e.n);
    u32 x = vc_u32("x"), k = vc_range("kind", 0, 1);
    vc_watch(e.i + 1);
    u32* r = k ? e.v.insert(e.v.begin() + p, x) : e.v.emplace(e.v.cbegin() + p, x);
    vc_check(r == e.mem + p && *r == x, "iterator to the new element");
    vc_check(e.v.m_size == e.n + 1, "size grows by one");
    if (e.i < e.n) vc_check(e.mem[e.i < p ? e.i : e.i + 1] == e.old, "other elements keep their values and order");
    vc_cover("done");
}
PROOF(insert_own) {
    env e(1);
    uint64_t p = vc_range("pos", 0, e.n), k = vc_range("kind", 0, 2);
    vc_assume(e.i < e.n && (k < 2 || e.n + 2 <= CAP));
    u32* r = k == 0 ? e.v.insert(e.v.begin() + p, e.v[e.i])
             : k == 1 ? e.v.emplace(e.v.cbegin() + p, e.v[e.i])
                      : e.v.insert(e.v.begin() + p, 2, e.v[e.i]);
    vc_check(r == e.mem + p && *r == e.old && (k < 2 || r[1] == e.old), "an own element is copied");
    vc_cover("done");
}
PROOF(insert_count) {
    env e;
    uint64_t p = vc_range("pos", 0, e.n), c = vc_range("count", 0, CAP - e.n), j = vc_range("j", 0, CAP);
    u32 x = vc_u32("x");
    vc_watch(j);
    vc_watch(e.i + c);
    u32* r = e.v.insert(e.v.begin() + p, c, x);
    vc_check(r == e.mem + p && e.v.m_size == e.n + c, "size grows by the count");
    if (j < c) vc_check(e.mem[p + j] == x, "the new elements have the value");
    if (e.i < e.n) vc_check(e.mem[e.i < p ? e.i : e.i + c] == e.old, "other elements keep their values and order");
    vc_cover("done");
}
PROOF(push_back) {
    env e(1);
    u32 x = vc_u32("x");
    if (vc_bool("own")) {
        vc_assume(e.i < e.n);
        e.v.push_back(e.v[e.i]);
        vc_check(e.mem[e.n] == e.old, "an own element is copied");
    } else if (vc_bool("emplace")) {
        u32& r = e.v.emplace_back(x);
        vc_check(&r == e.mem + e.n && r == x, "reference to the new element");
    } else {
        e.v.push_back(x);
        vc_check(e.mem[e.n] == x, "the new element is the last");
    }
    vc_check(e.v.m_size == e.n + 1, "size grows by one");
    vc_check(e.i == e.n || e.mem[e.i] == e.old, "other elements keep their values and order");
    vc_cover("done");
}
PROOF(erase) {
    env e(0, 1);
    uint64_t p = vc_range("pos", 0, e.n - 1);
    vc_watch(e.i - 1);
    u32* r = e.v.erase(e.v.begin() + p);
    vc_check(r == e.mem + p && e.v.m_size == e.n - 1, "size shrinks by one");
    if (e.i < e.n && e.i != p)
        vc_check(e.mem[e.i < p ? e.i : e.i - 1] == e.old, "other elements keep their values and order");
    vc_cover("done");
}
PROOF(erase_range) {
    env e;
    uint64_t p = vc_range("first", 0, e.n), q = vc_range("last", 0, e.n);
    vc_assume(p <= q);
    vc_watch(e.i - (q - p));
    u32* r = e.v.erase(e.v.begin() + p, e.v.cbegin() + q);
    vc_check(r == e.mem + p && e.v.m_size == e.n - (q - p), "size shrinks by the length of the range");
    if (e.i < p) vc_check(e.mem[e.i] == e.old, "elements before keep their values and order");
    if (e.i >= q && e.i < e.n) vc_check(e.mem[e.i - (q - p)] == e.old, "elements behind keep their values and order");
    vc_cover("done");
}
PROOF(pop_back) {
    env e(0, 1);
    e.v.pop_back();
    vc_check(e.v.m_size == e.n - 1, "size shrinks by one");
    if (e.i + 1 < e.n) vc_check(e.mem[e.i] == e.old, "other elements keep their values and order");
    vc_cover("done");
}
PROOF(clear) {
    env e;
    e.v.clear();
    vc_check(e.v.m_size == 0 && e.v.empty() && e.v.begin() == e.v.end(), "empty");
    vc_cover("done");
}
PROOF(resize) {
    env e;
    uint64_t n = vc_range("n", 0, CAP);
    u32 x = 0;
    if (vc_bool("value")) {
        x = vc_u32("x");
        e.v.resize(n, x);
    } else {
        e.v.resize(n);
    }
    vc_check(e.v.m_size == n, "size");
    if (e.i < n) vc_check(e.mem[e.i] == (e.i < e.n ? e.old : x), "exactly the new elements are set");
    if (n > e.n) vc_cover("grow");
    if (n < e.n) vc_cover("shrink");
}
PROOF(assign) {
    env e;
    uint64_t n = vc_range("n", 0, CAP);
    u32 x = vc_u32("x");
    e.v.assign(n, x);
    vc_check(e.v.m_size == n && (e.i >= n || e.mem[e.i] == x), "exactly the given elements");
    vc_cover("done");
}
PROOF(construct) {
    uint64_t n = vc_range("n", 0, CAP), i = vc_range("i", 0, CAP - 1);
    u32 x = 0;
    vc_watch(i);
    {
        V v;
        vc_check(v.size() == 0 && v.empty() && v.capacity() == CAP, "empty");
    }
    if (vc_bool("value")) {
        x = vc_u32("x");
        V v(n, x);
        vc_check(v.size() == n && (i >= n || v[i] == x), "exactly the given elements");
    } else {
        V v(n);
        vc_check(v.size() == n && (i >= n || v[i] == 0), "exactly the given elements");
    }
    vc_cover("done");
}
PROOF(copying) {
    env e, f;
    V c(e.v);
    vc_check(c.m_size == e.n && (e.i >= e.n || c[e.i] == e.old), "same elements");
    vc_watch(e.i);
    f.v = e.v;
    vc_check(f.v.m_size == e.n && (e.i >= e.n || f.v[e.i] == e.old), "same elements");
    f.v = f.v;
    vc_check(f.v.m_size == e.n && (e.i >= e.n || f.v[e.i] == e.old), "self-assignment");
    vc_check(e.v.m_size == e.n && e.mem[e.i] == e.old, "the source is kept");
    vc_cover("done");
}
struct alignas(64) line { uint64_t x[8]; };
PROOF(aligned) {
    using L = vecmem::static_vector<line, 3>;
    L* v = static_cast<L*>(vc_mem("v", sizeof(L), alignof(L), 8));
    vc_check(addr(v->data()) % alignof(line) == 0 && addr(v->data()) >= addr(v) &&
                 addr(v->data() + 3) <= addr(v) + sizeof(L), "elements lie aligned inside the object");
    vecmem::static_vector<u32, 0> z;
    vc_check(z.size() == 0 && z.empty() && z.capacity() == 0 && z.begin() == z.end(), "no capacity");
    vc_cover("done");
}
