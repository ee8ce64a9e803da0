// Static vectors of objects: construction, destruction and order, for capacities 3 and 4.
//@ opt nosum unroll=12
#include "vc.hpp"
#include <utility>
#include "vecmem/containers/static_vector.hpp"
using vc::addr;
using u32 = uint32_t;

// Elements with identity: each knows where it lives; every construction and destruction is checked.
struct obj;
static uint64_t g_lo, g_hi, g_live;
struct obj {
    u32 v;
    const obj* self;
    void born() {
        if (addr(this) >= g_lo && addr(this) < g_hi) vc_check(self != this, "constructed only once");
        self = this;
        ++g_live;
    }
    explicit obj(u32 x) : v(x) { born(); }
    obj() : v(9) { born(); }
    obj(const obj& o) : v(o.v) { vc_check(o.self == &o, "copied from a living object"); born(); }
    obj(obj&& o) : v(o.v) { vc_check(o.self == &o, "moved from a living object"); o.v = 77; born(); }
    obj& operator=(const obj&) = delete;
    ~obj() { vc_check(self == this, "destroyed only once"); self = nullptr; --g_live; }
};
template <std::size_t M>
struct oenv {
    using O = vecmem::static_vector<obj, M>;
    uint64_t n;
    u32 a[M + 1];     // the sequence
    alignas(O) unsigned char raw[sizeof(O)];
    O* v;
    explicit oenv(uint64_t room = 0, uint64_t min = 0) : n(vc_split(vc_range("size", min, M - room), min, M - room)) {
        g_live = 0;
        v = new (raw) O();
        g_lo = addr(&v->m_elements);
        g_hi = g_lo + M * sizeof(obj);
        for (uint64_t k = 0; k < n; ++k) v->emplace_back(a[k] = vc_u32("a"));
    }
    void is(uint64_t m, const u32* s) {
        vc_check(v->size() == m && g_live == m, "exactly the elements live");
        for (uint64_t k = 0; k < m; ++k) {
            vc_check((*v)[k].self == &(*v)[k], "every element lives in its place");
            vc_check((*v)[k].v == s[k], "the sequence");
        }
        v->~O();
        vc_check(g_live == 0, "all elements are destroyed");
    }
};
static void objects_insert() {
    oenv<4> e(1);
    uint64_t p = vc_split(vc_range("pos", 0, e.n), 0, e.n), k = vc_split(vc_range("kind", 0, 3), 0, 3);
    u32 x = vc_u32("x"), s[5] = {};
    uint64_t c = 1, o = 0;
    if (k == 3) {
        vc_assume(e.n > 0);
        o = vc_split(vc_range("own", 0, e.n - 1), 0, e.n - 1);
        x = e.a[o];
    }
    if (k == 2) {
        c = vc_split(vc_range("count", 0, 4 - e.n), 0, 4 - e.n);
    }
    for (uint64_t j = 0; j < e.n + c; ++j) s[j] = j < p ? e.a[j] : j < p + c ? x : e.a[j - c];
    obj* r;
    if (k == 0) {
        obj t(x);
        r = e.v->insert(e.v->begin() + p, t);
    } else if (k == 1) {
        r = e.v->emplace(e.v->begin() + p, x);
    } else if (k == 2) {
        obj t(x);
        r = e.v->insert(e.v->begin() + p, c, t);
    } else {
        r = e.v->insert(e.v->begin() + p, (*e.v)[o]);
    }
    vc_check(r == &(*e.v)[p], "iterator to the new element");
    e.is(e.n + c, s);
}
static void objects_erase() {
    oenv<4> e;
    uint64_t p = vc_split(vc_range("first", 0, e.n), 0, e.n), q = vc_split(vc_range("last", p, e.n), p, e.n);
    u32 s[5] = {};
    for (uint64_t j = 0; j < e.n - (q - p); ++j) s[j] = e.a[j < p ? j : j + (q - p)];
    if (q == p + 1 && vc_bool("single")) {
        vc_check(e.v->erase(e.v->begin() + p) == &(*e.v)[p], "iterator behind the removed element");
    } else {
        vc_check(e.v->erase(e.v->begin() + p, e.v->begin() + q) == &(*e.v)[p], "iterator behind the removed elements");
    }
    e.is(e.n - (q - p), s);
}
static void objects_resize() {
    oenv<4> e;
    uint64_t m = vc_split(vc_range("n", 0, 4), 0, 4), k = vc_split(vc_range("kind", 0, 4), 0, 4);
    u32 x = vc_u32("x"), s[5] = {};
    for (uint64_t j = 0; j < m; ++j) s[j] = j < e.n && k < 2 ? e.a[j] : k == 1 ? 9 : x;
    if (k == 0) {
        obj t(x);
        e.v->resize(m, t);
    } else if (k == 1) {
        e.v->resize(m);
    } else if (k == 2) {
        obj t(x);
        e.v->assign(m, t);
    } else if (k == 3) {
        e.v->clear();
        m = 0;
    } else {
        vc_assume(e.n > 0);
        e.v->pop_back();
        m = e.n - 1;
        for (uint64_t j = 0; j < m; ++j) s[j] = e.a[j];
    }
    e.is(m, s);
}
static void objects_copy() {
    oenv<3> e;
    using O = oenv<3>::O;
    uint64_t lo = g_lo, hi = g_hi;
    {
        uint64_t live = g_live;
        O c(*e.v);
        vc_check(g_live == live + e.n && c.size() == e.n, "copies are constructed");
        for (uint64_t j = 0; j < e.n; ++j) vc_check(c[j].v == e.a[j] && c[j].self == &c[j], "the sequence");
        O d(vc_split(vc_range("m", 0, 3), 0, 3));
        vc_check(g_live == live + e.n + d.size(), "exactly the elements live");
        d = c;
        vc_check(g_live == live + 2 * e.n && d.size() == e.n, "assignment replaces the elements");
        for (uint64_t j = 0; j < e.n; ++j) vc_check(d[j].v == e.a[j] && d[j].self == &d[j], "the sequence");
        d = d;
        vc_check(g_live == live + 2 * e.n && d.size() == e.n, "self-assignment");
        for (uint64_t j = 0; j < e.n; ++j) vc_check(d[j].v == e.a[j] && d[j].self == &d[j], "the sequence");
    }
    e.is(e.n, e.a);
}
static void objects_range() {
    oenv<4> e;
    u32 in[4], s[5] = {};
    uint64_t c = vc_split(vc_range("count", 0, 4 - e.n), 0, 4 - e.n), p = vc_split(vc_range("pos", 0, e.n), 0, e.n);
    alignas(obj) unsigned char raw[4 * sizeof(obj)];
    obj* src = reinterpret_cast<obj*>(raw);
    for (uint64_t j = 0; j < c; ++j) new (src + j) obj(in[j] = vc_u32("b"));
    const obj *b = src, *f = src + c;
    if (vc_bool("assign")) {
        e.v->assign(b, f);
        for (uint64_t j = 0; j < c; ++j) src[j].~obj();
        e.is(c, in);
    } else {
        vc_check(e.v->insert(e.v->begin() + p, b, f) == &(*e.v)[p], "iterator to the first new element");
        for (uint64_t j = 0; j < e.n + c; ++j) s[j] = j < p ? e.a[j] : j < p + c ? in[j - p] : e.a[j - c];
        for (uint64_t j = 0; j < c; ++j) src[j].~obj();
        e.is(e.n + c, s);
    }
}
PROOF(objects_insert) { objects_insert(); vc_cover("done"); }
PROOF(objects_erase) { objects_erase(); vc_cover("done"); }
PROOF(objects_resize) { objects_resize(); vc_cover("done"); }
PROOF(objects_copy) { objects_copy(); vc_cover("done"); }
PROOF(objects_range) { objects_range(); vc_cover("done"); }
