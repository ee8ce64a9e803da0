// Vector buffers: one sufficient allocation, described exactly, released once.
#include "vc.hpp"
#include <utility>
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
using vc::addr;
using u32 = uint32_t;
using vecmem::data::buffer_type;
using vecmem::data::vector_buffer;
using vecmem::data::vector_view;
struct alignas(64) line { uint64_t x[8]; };
struct odd { uint8_t b[3]; };

template <typename T>
static void described(const vector_buffer<T>& b, vc::resource& up, u32 cap, bool resizable) {
    const vector_view<T>& v = vecmem::get_data(b);
    vc_check(v.capacity() == cap, "capacity");
    if (cap == 0) {
        vc_check(up.n == 0 && v.ptr() == nullptr, "an empty buffer owns nothing");
        return;
    }
    vc_check(up.n == 1 && up.log[0].kind == 1, "one allocation");
    uint64_t lo = up.log[0].p, hi = lo + up.log[0].size, p = addr(v.ptr()), s = addr(v.size_ptr());
    vc_check(p != 0 && p % alignof(T) == 0 && p >= lo && p + uint64_t(cap) * sizeof(T) <= hi,
             "elements lie aligned inside the allocation");
    if (resizable) {
        vc_check(s != 0 && s % 4 == 0 && s >= lo && s + 4 <= hi, "the size lies aligned inside the allocation");
        vc_check(vc::disjoint(s, 4, p, uint64_t(cap) * sizeof(T)), "size and elements are disjoint");
    } else {
        vc_check(s == 0 && v.size() == cap, "a fixed-size buffer is full");
    }
}
static void gone(vc::resource& up, u32 cap) {
    if (cap == 0) vc_check(up.n == 0, "nothing to release");
    else vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, up.log[0].size, up.log[0].align), "released exactly once");
}
template <typename T>
static void buffers() {
    vc::resource up;
    u32 cap = vc_range("capacity", 0, vc::MAXN - 1);
    bool rs = vc_bool("resizable");
    try {
        {
            vector_buffer<T> b(cap, up, rs ? buffer_type::resizable : buffer_type::fixed_size);
            described(b, up, cap, rs);
            vector_buffer<T> c(std::move(b)), d, e;
            described(c, up, cap, rs);
            d = std::move(c);
            described(d, up, cap, rs);
            vc_check(e.capacity() == 0 && e.size() == 0 && e.ptr() == nullptr && e.size_ptr() == nullptr, "empty by default");
            const vector_buffer<T>& cd = d;
            vc_check(&vecmem::get_data(d) == &d && &vecmem::get_data(cd) == &d, "describes itself");
            if (vc_bool("drop")) {
                d = std::move(e);
                gone(up, cap);
                vc_check(d.capacity() == 0 && d.ptr() == nullptr, "empty after the move");
            }
        }
        gone(up, cap);
        if (cap) vc_cover("released");
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
        vc_cover("failed");
    }
}
PROOF(ints) { buffers<u32>(); vc_cover("done"); }
PROOF(doubles) { buffers<double>(); vc_cover("done"); }
PROOF(odds) { buffers<odd>(); vc_cover("done"); }
PROOF(lines) { buffers<line>(); vc_cover("done"); }
// moving onto a buffer that owns memory of another resource
PROOF(replace) {
    vc::resource a, b;
    a.may_fail = b.may_fail = false;
    u32 n = vc_range("n", 0, vc::MAXN - 1), m = vc_range("m", 0, vc::MAXN - 1);
    bool rs = vc_bool("resizable");
    {
        vector_buffer<u32> x(n, a, rs ? buffer_type::resizable : buffer_type::fixed_size), y(m, b);
        y = std::move(x);
        described(y, a, n, rs);
        gone(b, m);
    }
    gone(a, n);
    vc_cover("done");
}
