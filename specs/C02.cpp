// Device vector as a sequence: every operation, any size and capacity, any contents.
#include "vc.hpp"
#include <utility>
#include "vecmem/containers/device_vector.hpp"
using vc::addr;
using vecmem::device_vector;
using vecmem::data::vector_view;
using u32 = uint32_t;

struct env {
    u32 cap, size;
    u32* sz;
    u32* mem;
    u32 i;      // an arbitrary position
    u32 old;    // its content
    device_vector<u32> v;
    explicit env(bool grow = false, u32 min = 0)
        : cap(vc_range("capacity", 0, vc::MAXN - 1)),
          size(vc_range("size", 0, vc::MAXN - 1)),
          sz(vc::array<u32>("sizevar", 1)),
          mem(vc::array<u32>("mem", cap)),
          i(vc_range("i", 0, vc::MAXN - 1)),
          old(0),
          v(vector_view<u32>(cap, sz, mem)) {
        vc_assume(size <= cap && size >= min && (!grow || size < cap) && i < cap);
        *sz = size;
        vc_watch(i);
        old = mem[i];
    }
    // nothing but the size changed at position i
    void kept(u32 n) {
        vc_check(*sz == n && v.size() == n && v.capacity() == cap, "size");
        vc_check(mem[i] == old, "other elements are kept");
    }
};

PROOF(access) {
    env e;
    const auto& c = e.v;
    vc_check(c.size() == e.size && c.capacity() == e.cap && c.max_size() == e.cap, "sizes");
    vc_check(c.empty() == (e.size == 0), "empty");
    vc_check(c.data() == e.mem && e.v.data() == e.mem, "data");
    vc_check(c.begin() == e.mem && c.end() == e.mem + e.size && c.cbegin() == c.begin() &&
                 c.cend() == c.end() && e.v.begin() == e.mem && e.v.end() == e.mem + e.size,
             "iteration covers exactly the elements");
    vc_check(c.rbegin().base() == c.end() && c.rend().base() == c.begin() &&
                 c.crbegin().base() == c.end() && c.crend().base() == c.begin() &&
                 e.v.rbegin().base() == e.v.end() && e.v.rend().base() == e.v.begin(),
             "reverse iteration covers exactly the elements");
    if (e.i < e.size) {
        vc_check(&c[e.i] == e.mem + e.i && &e.v[e.i] == e.mem + e.i && &c.at(e.i) == e.mem + e.i &&
                     &e.v.at(e.i) == e.mem + e.i, "element access");
        vc_check(&c.front() == e.mem && &e.v.front() == e.mem && &c.back() == e.mem + (e.size - 1) &&
                     &e.v.back() == e.mem + (e.size - 1), "first and last element");
        auto r = c.rbegin();
        vc_check(&*r == e.mem + (e.size - 1) && *r == c.back(), "reverse iteration starts at the last");
        auto q = r++;
        vc_check(q.base() == c.end() && r.base() == c.end() - 1, "reverse iterator moves backwards");
        ++r; --r; r--;
        vc_check(r == q && !(r != q), "reverse iterator moves back");
        vc_cover("element");
    }
    e.kept(e.size);
}
PROOF(fixed) {
    u32 n = vc_range("n", 0, vc::MAXN - 1);
    u32* mem = vc::array<u32>("mem", n);
    const device_vector<u32> v(vector_view<u32>(n, mem));
    vc_check(v.size() == n && v.capacity() == n && v.end() == mem + n && v.empty() == (n == 0),
             "a fixed-size vector is full");
    const device_vector<const u32> w(vector_view<const u32>(n, mem));
    vc_check(w.size() == n && w.data() == mem && w.end() == mem + n, "view of constant elements");
    vc_cover("done");
}
PROOF(copying) {
    env e;
    device_vector<u32> w(e.v), x(vector_view<u32>(0, nullptr));
    x = w;
    x = x;
    vc_check(x.data() == e.mem && x.size() == e.size && x.capacity() == e.cap && w.data() == e.mem &&
                 w.size() == e.size && w.capacity() == e.cap, "a copy is the same vector");
    vc_assume(e.size < e.cap);
    x.push_back(1);
    vc_check(e.v.size() == e.size + 1 && w.size() == e.size + 1, "a copy shares the size");
    vc_cover("done");
}
PROOF(push_back) {
    env e(true);
    u32 x = vc_u32("x");
    u32 r = e.v.push_back(x);
    vc_check(r == e.size, "index of the new element");
    vc_check(*e.sz == e.size + 1 && e.v.capacity() == e.cap, "size grows by one");
    vc_check(e.mem[e.size] == x, "the new element is the last");
    vc_check(e.i == e.size || e.mem[e.i] == e.old, "other elements are kept");
    vc_cover("done");
}
PROOF(push_back_own) {
    env e(true);
    vc_assume(e.i < e.size);
    u32 r = e.v.push_back(e.v[e.i]);
    vc_check(r == e.size && e.mem[e.size] == e.old && e.mem[e.i] == e.old, "an own element is copied");
    vc_cover("done");
}
PROOF(emplace_back) {
    env e(true);
    u32 x = vc_u32("x");
    u32& r = e.v.emplace_back(x);
    vc_check(&r == e.mem + e.size && r == x, "reference to the new element");
    vc_check(*e.sz == e.size + 1, "size grows by one");
    vc_check(e.i == e.size || e.mem[e.i] == e.old, "other elements are kept");
    vc_cover("done");
}
PROOF(bulk_append) {
    env e;
    u32 n = vc_u32("n"), x = 0;
    vc_assume(n <= e.cap - e.size);
    u32 r;
    if (vc_bool("value")) {
        x = vc_u32("x");
        r = e.v.bulk_append(n, x);
    } else {
        r = e.v.bulk_append(n);
    }
    vc_check(r == e.size, "index of the first new element");
    vc_check(*e.sz == e.size + n, "size grows by the count");
    vc_check(e.mem[e.i] == (e.i >= e.size && e.i < e.size + n ? x : e.old),
             "exactly the new elements are set");
    vc_cover("done");
}
PROOF(bulk_append_implicit) {
    env e;
    u32 n = vc_u32("n");
    vc_assume(n <= e.cap - e.size);
    u32 r = vc_bool("unsafe") ? e.v.bulk_append_implicit_unsafe(n) : e.v.bulk_append_implicit(n);
    vc_check(r == e.size, "index of the first new element");
    e.kept(e.size + n);
    vc_cover("done");
}
PROOF(pop_back) {
    env e(false, 1);
    u32 r = e.v.pop_back();
    vc_check(r == e.size - 1, "new size returned");
    e.kept(e.size - 1);
    vc_cover("done");
}
PROOF(clear) {
    env e;
    e.v.clear();
    e.kept(0);
    vc_cover("done");
}
PROOF(resize) {
    env e;
    u32 n = vc_u32("n"), x = 0;
    vc_assume(n <= e.cap);
    if (vc_bool("value")) {
        x = vc_u32("x");
        e.v.resize(n, x);
    } else {
        e.v.resize(n);
    }
    vc_check(*e.sz == n && e.v.size() == n && e.v.capacity() == e.cap, "size");
    vc_check(e.mem[e.i] == (e.i >= e.size && e.i < n ? x : e.old), "exactly the new elements are set");
    if (n > e.size) vc_cover("grow");
    if (n < e.size) vc_cover("shrink");
}
PROOF(resize_implicit) {
    env e;
    u32 n = vc_u32("n");
    vc_assume(n <= e.cap);
    if (vc_bool("unsafe")) e.v.resize_implicit_unsafe(n);
    else e.v.resize_implicit(n);
    e.kept(n);
    vc_cover("done");
}
PROOF(assign) {
    env e;
    u32 n = vc_u32("n"), x = vc_u32("x");
    vc_assume(n <= e.cap);
    e.v.assign(n, x);
    vc_check(*e.sz == n && e.v.capacity() == e.cap, "size");
    vc_check(e.mem[e.i] == (e.i < n ? x : e.old), "exactly the elements are set");
    vc_cover("done");
}

// Elements with constructors and destructors: each counts how often it was made and destroyed.
struct item {
    u32 v;
    u32 made, gone;
    item() : v(7) { made = made + 1; }
    explicit item(u32 x) : v(x) { made = made + 1; }
    item(const item& o) : v(o.v) { made = made + 1; }
    item& operator=(const item&) = delete;
    ~item() { gone = gone + 1; }
};
struct ienv {
    u32 cap, size;
    u32* sz;
    item* mem;
    u32 i;
    u32 v0, made, gone;
    device_vector<item> v;
    explicit ienv(bool grow = false, u32 min = 0)
        : cap(vc_range("capacity", 0, 1 << 28)),
          size(vc_range("size", 0, 1 << 28)),
          sz(vc::array<u32>("sizevar", 1)),
          mem(static_cast<item*>(vc_mem("mem", cap * sizeof(item), 4, 4))),
          i(vc_range("i", 0, 1 << 28)),
          v(vector_view<item>(cap, sz, mem)) {
        vc_assume(size <= cap && size >= min && (!grow || size < cap) && i < cap);
        *sz = size;
        vc_watch(i);
        v0 = mem[i].v;
        made = mem[i].made;
        gone = mem[i].gone;
    }
    // element i is constructed and destroyed exactly as often as its membership changes
    void life(u32 n, bool renewed = false) {
        bool was = i < size, is = i < n;
        vc_check(*sz == n, "size");
        vc_check(mem[i].made == made + (is && (!was || renewed)), "constructed exactly when it joins");
        vc_check(mem[i].gone == gone + (was && (!is || renewed)), "destroyed exactly when it leaves");
        vc_check(renewed || !was || !is || mem[i].v == v0, "elements that stay keep their value");
        vc_check(was || is || mem[i].v == v0, "space after the end is not touched");
    }
};
PROOF(items_append) {
    ienv e(true);
    u32 n = 1;
    if (vc_bool("push")) {
        item x(vc_u32("x"));
        e.v.push_back(x);
    } else if (vc_bool("emplace")) {
        e.v.emplace_back(vc_u32("x"));
    } else {
        n = vc_u32("n");
        vc_assume(n <= e.cap - e.size);
        if (vc_bool("value")) {
            item x(vc_u32("x"));
            e.v.bulk_append(n, x);
        } else {
            e.v.bulk_append(n);
        }
    }
    e.life(e.size + n);
    vc_cover("done");
}
PROOF(items_remove) {
    ienv e(false, 1);
    if (vc_bool("pop")) {
        e.v.pop_back();
        e.life(e.size - 1);
        vc_cover("pop");
    } else {
        e.v.clear();
        e.life(0);
        vc_cover("clear");
    }
}
PROOF(items_resize) {
    ienv e;
    u32 n = vc_u32("n");
    vc_assume(n <= e.cap);
    item x(vc_u32("x"));
    if (vc_bool("assign")) {
        e.v.assign(n, x);
        e.life(n, true);
        vc_check(e.i >= n || e.mem[e.i].v == x.v, "assigned value");
        vc_cover("assign");
    } else {
        e.v.resize(n, x);
        e.life(n);
        vc_check(e.i >= n || e.i < e.size || e.mem[e.i].v == x.v, "new elements have the value");
        vc_cover("resize");
    }
}
