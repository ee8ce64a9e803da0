// Descriptions of host containers: exactly their elements, in order.
#include "vc.hpp"
#include <array>
#include <utility>
#include <vector>
#include "vecmem/containers/array.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/containers/data/jagged_vector_data.hpp"
using vc::addr;
using u32 = uint32_t;
using vecmem::data::jagged_vector_data;
using vecmem::data::jagged_vector_view;
using vecmem::data::vector_view;
struct odd { uint8_t b[3]; };
constexpr uint64_t ROWS = 1ul << 22;

// A std::vector whose elements are the given ones.
template <typename V>
struct any_vector {
    V v;
    template <typename... A>
    any_vector(typename V::pointer a, uint64_t n, uint64_t spare, A&&... al) : v(std::forward<A>(al)...) {
        v._M_impl._M_start = a;
        v._M_impl._M_finish = a + n;
        v._M_impl._M_end_of_storage = a + n + spare;
    }
    ~any_vector() { v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr; }
};
// n rows: arbitrary addresses and sizes
template <typename R>
struct env {
    using T = typename R::value_type;
    uint64_t n = vc_range("rows", 0, ROWS), i = 0;
    uint64_t* at = vc::array<uint64_t>("addresses", n);
    u32* sizes = vc::array<u32>("sizes", n);
    R* rows = static_cast<R*>(vc_mem("vectors", n * sizeof(R), 8, 8));
    vc::resource up{"up"}, other{"other"};
    env() {
        up.real = other.real = true;
        up.may_fail = other.may_fail = false;
        if (n) {
            i = vc_range("i", 0, ROWS);
            vc_assume(i < n);
            vc_watch(i);
        }
        for (uint64_t k = 0; k < n; ++k) {
            T* p = static_cast<T*>(vc::ptr(at[k] & 0xffffffffffffull));
            rows[k]._M_impl._M_start = p;
            rows[k]._M_impl._M_finish = p + sizes[k];
            rows[k]._M_impl._M_end_of_storage = p + sizes[k] + (at[k] >> 48);
        }
    }
    template <typename U>
    void described(const jagged_vector_view<U>& d, vc::resource& r) {
        vc_check(d.size() == n && d.ptr() == d.host_ptr(), "one description of all rows");
        if (n == 0) {
            vc_check(r.n == 0 && d.ptr() == nullptr, "nothing to describe");
            return;
        }
        vc_check(r.n == 1 && r.log[0].kind == 1 && addr(d.ptr()) == r.log[0].p && r.log[0].size >= n * sizeof(vector_view<U>) &&
                     r.log[0].align >= alignof(vector_view<U>), "described in one block of the given resource");
        const vector_view<U>& x = d.ptr()[i];
        vc_check(x.capacity() == sizes[i] && x.size() == sizes[i] && x.size_ptr() == nullptr, "size of the row");
        vc_check(addr(x.ptr()) == (at[i] & 0xffffffffffffull), "address of the row");
    }
    void gone(vc::resource& r) {
        if (n == 0) vc_check(r.n == 0, "nothing to release");
        else vc_check(r.n == 2 && r.ev(1, 3, r.log[0].p, r.log[0].size, r.log[0].align), "released exactly once");
    }
};
template <typename T>
static void pmr_rows(bool constant) {
    using J = vecmem::jagged_vector<T>;
    env<vecmem::vector<T>> e;
    bool given = vc_bool("given");
    vc::resource& r = given ? e.other : e.up;
    {
        any_vector<J> a(e.rows, e.n, 0, &e.up);
        if (constant) {
            const J& c = a.v;
            auto d = vecmem::get_data(c, given ? &e.other : nullptr);
            e.template described<const T>(d, r);
            jagged_vector_data<const T> f(std::move(d)), g;
            e.template described<const T>(f, r);
            g = std::move(f);
            e.template described<const T>(g, r);
        } else {
            auto d = vecmem::get_data(a.v, given ? &e.other : nullptr);
            e.template described<T>(d, r);
            const auto& cd = d;
            vc_check(&vecmem::get_data(d) == &d && &vecmem::get_data(cd) == &d, "describes itself");
            jagged_vector_data<T> f(std::move(d)), g;
            e.template described<T>(f, r);
            g = std::move(f);
            e.template described<T>(g, r);
        }
    }
    e.gone(r);
    vc_check((given ? e.up : e.other).n == 0, "no other resource is used");
    vc_cover("done");
}
template <typename T>
static void std_rows(bool constant) {
    using J = std::vector<std::vector<T>>;
    env<std::vector<T>> e;
    {
        any_vector<J> a(e.rows, e.n, 0);
        if (constant) {
            const J& c = a.v;
            auto d = vecmem::get_data(c, &e.up);
            e.template described<const T>(d, e.up);
        } else {
            auto d = vecmem::get_data(a.v, &e.up);
            e.template described<T>(d, e.up);
        }
    }
    e.gone(e.up);
    vc_cover("done");
}
PROOF(jagged) { pmr_rows<int>(false); }
PROOF(jagged_const) { pmr_rows<int>(true); }
PROOF(jagged_odd) { pmr_rows<odd>(vc_bool("constant")); }
PROOF(std_jagged) { std_rows<int>(false); }
PROOF(std_jagged_const) { std_rows<int>(true); }
PROOF(std_jagged_long) { std_rows<uint64_t>(vc_bool("constant")); }

template <typename T, typename V, typename... A>
static void flat(A&&... al) {
    uint64_t n = vc_range("n", 0, vc::MAXN - 1);
    T* p = vc_bool("none") && n == 0 ? nullptr : vc::array<T>("elements", n);
    any_vector<V> a(p, n, p ? vc_range("spare", 0, 1000) : 0, std::forward<A>(al)...);
    const V& c = a.v;
    vector_view<T> d = vecmem::get_data(a.v);
    vector_view<const T> e = vecmem::get_data(c);
    vc_check(d.ptr() == p && d.size() == n && d.capacity() == n && d.size_ptr() == nullptr, "exactly the elements");
    vc_check(e.ptr() == p && e.size() == n && e.capacity() == n && e.size_ptr() == nullptr, "exactly the elements");
    vc_cover("done");
}
PROOF(vector_int) {
    vc::resource up;
    flat<int, vecmem::vector<int>>(&up);
    vc_check(up.n == 0, "no memory is requested");
}
PROOF(vector_odd) {
    vc::resource up;
    flat<odd, vecmem::vector<odd>>(&up);
    vc_check(up.n == 0, "no memory is requested");
}
PROOF(std_vector) { flat<uint64_t, std::vector<uint64_t>>(); }

PROOF(arrays) {
    vc::resource up;
    up.real = true;
    up.may_fail = false;
    {
        vecmem::array<u32, 5> s(up);
        const auto& cs = s;
        vector_view<u32> d = vecmem::get_data(s);
        vector_view<const u32> e = vecmem::get_data(cs);
        vc_check(d.ptr() == s.data() && d.size() == 5 && d.capacity() == 5 && d.size_ptr() == nullptr, "exactly the elements");
        vc_check(e.ptr() == s.data() && e.size() == 5 && e.capacity() == 5 && e.size_ptr() == nullptr, "exactly the elements");
    }
    {
        uint64_t n = vc_range("n", 0, vc::MAXN - 1);
        vecmem::array<u32> s(up, n);
        const auto& cs = s;
        vector_view<u32> d = vecmem::get_data(s);
        vector_view<const u32> e = vecmem::get_data(cs);
        vc_check(d.ptr() == s.data() && d.size() == n && d.capacity() == n && d.size_ptr() == nullptr, "exactly the elements");
        vc_check(e.ptr() == s.data() && e.size() == n && e.capacity() == n && e.size_ptr() == nullptr, "exactly the elements");
    }
    vc_cover("done");
}
PROOF(failing) {
    env<vecmem::vector<int>> e;
    e.up.may_fail = true;
    bool made = false;
    try {
        any_vector<vecmem::jagged_vector<int>> a(e.rows, e.n, 0, &e.up);
        auto d = vecmem::get_data(a.v);
        made = true;
    } catch (const std::bad_alloc&) {
        vc_check(!made && e.up.n == 1, "failures of the resource are passed on");
        vc_cover("failed");
    }
    if (made) e.gone(e.up);
}
PROOF(empty) {
    vc::resource up;
    jagged_vector_data<int> d, z(0, up), f(std::move(d));
    vc_check(f.size() == 0 && f.ptr() == nullptr && z.size() == 0 && z.ptr() == nullptr && up.n == 0, "empty by default");
    d = std::move(z);
    vc_cover("done");
}
PROOF(blank) {
    vc::resource up;
    up.real = true;
    up.may_fail = false;
    uint64_t n = vc_range("rows", 1, ROWS), i = vc_range("i", 0, ROWS);
    vc_assume(i < n);
    vc_watch(i);
    jagged_vector_data<odd> d(n, up);
    const vector_view<odd>& x = d.host_ptr()[i];
    vc_check(d.size() == n && x.capacity() == 0 && x.size_ptr() == nullptr && x.ptr() == nullptr, "rows to be filled are empty");
    vc_cover("done");
}
