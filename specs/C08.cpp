// Jagged vector buffers: every row has its own aligned, disjoint storage inside the block requested.
#include "vc.hpp"
#include <utility>
#include <vector>
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
using vc::addr;
using u32 = uint32_t;
using vecmem::data::buffer_type;
using vecmem::data::jagged_vector_buffer;
using vecmem::data::jagged_vector_view;
using vecmem::data::vector_view;
struct alignas(64) line { uint64_t x[8]; };
struct odd { uint8_t b[3]; };

// A std::vector over an arbitrary array (its elements are the contents of that array).
template <typename T>
struct any_vector {
    std::vector<T> v;
    any_vector(T* a, uint64_t n) {
        v._M_impl._M_start = a;
        v._M_impl._M_finish = v._M_impl._M_end_of_storage = a + n;
    }
    ~any_vector() { v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr; }
};
constexpr uint64_t ROWS = 1ul << 22;
using V = vector_view<int>;

struct env {
    uint64_t n = vc_range("rows", 0, ROWS), i = 0, j = 0;
    u32* caps = vc::array<u32>("capacities", n);
    bool rs, two;
    vc::resource dev{"dev"}, host{"host"};
    env(bool resizable, bool host_access) : rs(resizable), two(host_access) {
        dev.real = host.real = true;
        dev.may_fail = host.may_fail = false;
        if (n) {
            i = vc_range("i", 0, ROWS);
            j = vc_range("j", 0, ROWS);
            vc_assume(i < n && j < n && i <= j);
            vc_watch(i);
            vc_watch(j);
        }
    }
    buffer_type type() const { return rs ? buffer_type::resizable : buffer_type::fixed_size; }
    vc::resource* access() { return two ? &host : nullptr; }
    template <typename T>
    void described(const jagged_vector_view<T>& b) {
        vc_check(b.size() == n, "as many rows as capacities");
        if (n == 0) {
            vc_check(dev.n == 0 && host.n == 0 && b.ptr() == nullptr && b.host_ptr() == nullptr, "an empty buffer owns nothing");
            vc_cover("empty");
            return;
        }
        uint64_t vb = n * sizeof(vector_view<T>), h = addr(b.host_ptr()), d = addr(b.ptr());
        vc::resource& hr = two ? host : dev;
        vc_check(h == hr.log[0].p && hr.log[0].size >= vb && h % alignof(vector_view<T>) == 0, "host description in its own block");
        vc_check(d == dev.log[0].p && dev.log[0].size >= vb && d % alignof(vector_view<T>) == 0, "device description in its own block");
        vc_check(two == (h != d), "one description suffices if it is host accessible");
        const vector_view<T> x = b.host_ptr()[i], y = b.host_ptr()[j];
        vc_check(x.capacity() == caps[i], "the row has its capacity");
        uint64_t p = addr(x.ptr()), pn = uint64_t(caps[i]) * sizeof(T), q = addr(y.ptr()), qn = uint64_t(caps[j]) * sizeof(T);
        if (pn || rs) {
            vc_check(dev.n == 2 && dev.log[1].kind == 1, "one block for all rows");
        }
        uint64_t lo = dev.log[1].p, hi = lo + dev.log[1].size;
        if (pn) {
            vc_check(p != 0 && p % alignof(T) == 0, "rows are aligned");
            vc_check(p >= lo && p + pn <= hi, "rows lie inside the block");
            if (i != j) vc_check(vc::disjoint(p, pn, q, qn), "rows are disjoint");
            vc_cover("row");
        }
        uint64_t s = addr(x.size_ptr()), t = addr(y.size_ptr());
        if (rs) {
            vc_check(s % 4 == 0 && s >= lo && s + 4 <= hi, "sizes lie aligned inside the block");
            if (i != j) vc_check(vc::disjoint(s, 4, t, 4), "sizes are disjoint");
            if (qn) vc_check(vc::disjoint(s, 4, q, qn), "sizes and rows are disjoint");
            vc_cover("size");
        } else {
            vc_check(s == 0 && x.size() == caps[i], "rows of fixed size are full");
        }
    }
    void gone() {
        for (vc::resource* r : {&dev, &host}) {
            int m = r->n / 2;
            vc_check(r->n == 2 * m, "everything is released");
            for (int k = 0; k < m; ++k) {
                vc_check(r->log[k].kind == 1 && r->log[m + k].kind == 3, "released at the end");
                bool ok = false;
                for (int l = m; l < 2 * m; ++l) ok |= r->ev(l, 3, r->log[k].p, r->log[k].size, r->log[k].align);
                vc_check(ok, "every block is released as it was requested");
            }
        }
    }
};
template <typename T>
static void same(const jagged_vector_view<T>& b, const jagged_vector_view<T>& c) {
    vc_check(b.size() == c.size() && b.ptr() == c.ptr() && b.host_ptr() == c.host_ptr(), "a move keeps the description");
}
template <typename T>
static void buffers(bool rs, bool two) {
    env e(rs, two);
    {
        any_vector<u32> c(e.caps, e.n);
        jagged_vector_buffer<T> b(c.v, e.dev, e.access(), e.type());
        const jagged_vector_view<T> v(b);
        e.described(v);
        jagged_vector_buffer<T> d(std::move(b)), f;
        same(d, v);
        f = std::move(d);
        same(f, v);
        const jagged_vector_buffer<T>& cf = f;
        vc_check(&vecmem::get_data(f) == &f && &vecmem::get_data(cf) == &cf, "describes itself");
        vc_check(e.dev.count(3) == 0 && e.host.count(3) == 0, "nothing is released by moves");
    }
    e.gone();
    vc_cover("done");
}
PROOF(fixed_int) { buffers<u32>(false, false); }
PROOF(fixed_int_host) { buffers<u32>(false, true); }
PROOF(resizable_int) { buffers<u32>(true, false); }
PROOF(resizable_int_host) { buffers<u32>(true, true); }
PROOF(fixed_odd) { buffers<odd>(false, vc_bool("host_access")); }
PROOF(resizable_odd) { buffers<odd>(true, vc_bool("host_access")); }
PROOF(fixed_line) { buffers<line>(false, vc_bool("host_access")); }
PROOF(resizable_line) { buffers<line>(true, vc_bool("host_access")); }
PROOF(resizable_long) { buffers<uint64_t>(true, vc_bool("host_access")); }
// capacities of another integer type
PROOF(size_type) {
    env e(vc_bool("resizable"), vc_bool("host_access"));
    uint64_t* wide = static_cast<uint64_t*>(vc_mem("wide", e.n * 8, 8, 8));
    for (uint64_t k = 0; k < e.n; ++k) wide[k] = e.caps[k];
    {
        any_vector<uint64_t> c(wide, e.n);
        jagged_vector_buffer<u32> b(c.v, e.dev, e.access(), e.type());
        e.described(b);
    }
    e.gone();
    vc_cover("done");
}
// made after the sizes of an existing jagged vector
static void like(bool rs, bool rrs) {
    env e(rs, false);
    using S = vector_view<const int>;
    S* rows = static_cast<S*>(vc_mem("source", e.n * sizeof(S), 8, 8));
    u32* big = vc::array<u32>("source_capacities", e.n);
    const int* data = vc::array<int>("source_data", 16);
    for (uint64_t k = 0; k < e.n; ++k) {
        rows[k].m_capacity = rrs ? big[k] : e.caps[k];
        rows[k].m_size = rrs ? e.caps + k : nullptr;
        rows[k].m_ptr = data;
    }
    {
        jagged_vector_view<const int> src(e.n, nullptr, rows);
        jagged_vector_buffer<int> b(src, e.dev, e.access(), e.type());
        e.described(b);
    }
    e.gone();
    vc_cover("done");
}
PROOF(like_fixed_fixed) { like(false, false); }
PROOF(like_fixed_resizable) { like(false, true); }
PROOF(like_resizable_fixed) { like(true, false); }
PROOF(like_resizable_resizable) { like(true, true); }
// failing resources: nothing leaks
PROOF(failing) {
    env e(vc_bool("resizable"), vc_bool("host_access"));
    e.dev.may_fail = e.host.may_fail = true;
    bool made = false;
    try {
        any_vector<u32> c(e.caps, e.n);
        jagged_vector_buffer<u32> b(c.v, e.dev, e.access(), e.type());
        made = true;
        vc_cover("made");
    } catch (const std::bad_alloc&) {
        vc_check(!made && e.dev.count(2) + e.host.count(2) == 1, "failures of the resources are passed on");
        vc_cover("failed");
    }
    for (vc::resource* r : {&e.dev, &e.host}) {
        vc_check(r->count(1) == r->count(3), "nothing is leaked");
        for (int k = 0; k < r->n; ++k) {
            if (r->log[k].kind != 1) continue;
            int m = 0;
            for (int l = k + 1; l < r->n; ++l) m += r->ev(l, 3, r->log[k].p, r->log[k].size, r->log[k].align);
            vc_check(m == 1, "every block is released as it was requested");
        }
    }
}
// assigning over a buffer releases what it owned, and only that
PROOF(replace) {
    vc::resource a{"a"}, b{"b"}, h{"h"};
    a.real = b.real = h.real = true;
    a.may_fail = b.may_fail = h.may_fail = false;
    uint64_t n = vc_range("rows", 1, ROWS);
    u32* caps = vc::array<u32>("capacities", n);
    u32 two[2] = {vc_u32("c0"), vc_u32("c1")};
    {
        any_vector<u32> c(caps, n), d(two, 2);
        jagged_vector_buffer<u32> x(c.v, a, &h, buffer_type::resizable), y(d.v, b, nullptr, buffer_type::resizable);
        const jagged_vector_view<u32> v(y);
        x = std::move(y);
        same(x, v);
        vc_check(a.n == 4 && h.n == 2 && b.n == 2, "the old blocks are released, the new ones are kept");
        vc_check(a.ev(2, 3, a.log[2].p, a.log[0].p == a.log[2].p ? a.log[0].size : a.log[1].size, a.log[2].align) &&
                     a.log[2].p != a.log[3].p && h.ev(1, 3, h.log[0].p, h.log[0].size, h.log[0].align), "released exactly once");
    }
    vc_check(a.n == 4 && h.n == 2 && b.n == 4, "released exactly once");
    vc_cover("done");
}
PROOF(empty) {
    jagged_vector_buffer<u32> b, c(std::move(b));
    b = std::move(c);
    vc_check(b.size() == 0 && b.ptr() == nullptr && b.host_ptr() == nullptr, "empty by default");
    vc_cover("done");
}
