// Structure-of-arrays buffers: one allocation, every column aligned and disjoint inside it.
#include "vc.hpp"
#include <utility>
#include <vector>
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/edm/buffer.hpp"
using vc::addr;
using vc::disjoint;
using u32 = uint32_t;
using vecmem::data::buffer_type;
using vecmem::data::jagged_vector_view;
using vecmem::data::vector_view;
namespace edm = vecmem::edm;
using edm::type::jagged_vector;
using edm::type::scalar;
using edm::type::vector;
struct alignas(64) line { uint64_t x[8]; };
struct odd { uint8_t b[3]; };

// What is found inside the block: a column, a size variable, descriptions of rows, ...
struct region {
    uint64_t p = 0, bytes = 0;
};
template <int N>
struct regions {
    region r[N];
    int n = 0;
    uint64_t lo, hi;
    bool full;
    explicit regions(const vc::event& e, bool all = true) : lo(e.p), hi(e.p + e.size), full(all) {}
    void add(uint64_t p, uint64_t count, uint64_t size, uint64_t align, const char* what) {
        if (count == 0) return;
        const uint64_t bytes = count * size;
        if (full) {
        vc_check(p != 0 && p % align == 0, "aligned");
        vc_check(p >= lo && p + bytes <= hi, "inside the allocation");
        for (int k = 0; k < n; ++k) vc_check(disjoint(p, bytes, r[k].p, r[k].bytes), "disjoint");
        }
        r[n++] = {p, bytes};
    }
};
template <typename T> struct column;
template <typename T> struct column<scalar<T>> {
    template <typename R>
    static void look(R& r, T* v, u32, uint64_t) { r.add(addr(v), 1, sizeof(T), alignof(T), "scalar"); }
};
template <typename T> struct column<vector<T>> {
    template <typename R>
    static void look(R& r, const vector_view<T>& v, u32 cap, uint64_t size) {
        vc_check(v.capacity() == cap, "full capacity");
        vc_check(addr(v.size_ptr()) == size, "all columns share one size");
        r.add(addr(v.ptr()), cap, sizeof(T), alignof(T), "column");
    }
};
template <typename... V> struct flat {
    using schema = edm::schema<V...>;
    using view = edm::view<schema>;
    template <std::size_t... I>
    static void columns(const view& v, const vc::resource& up, u32 cap, bool rs, std::index_sequence<I...>) {
        vc_check(up.n == 1 && up.log[0].kind == 1, "one allocation");
        regions<sizeof...(V) + 1> r(up.log[0]);
        const auto &z = v.size(), &d = v.payload();
        const uint64_t size = addr(z.ptr());
        vc_check(v.capacity() == cap, "capacity");
        (column<V>::look(r, v.template get<I>(), cap, rs ? size : 0), ...);
        if (d.ptr() != nullptr || d.size() != 0) {
            // the payload reported covers all columns
            for (int k = 0; k < r.n; ++k)
                vc_check(r.r[k].p >= addr(d.ptr()) && r.r[k].p + r.r[k].bytes <= addr(d.ptr()) + d.size(),
                         "inside the payload");
            vc_check(addr(d.ptr()) >= r.lo && addr(d.ptr()) + d.size() <= r.hi, "which is inside the allocation");
            if (rs) vc_check(disjoint(size, 4, addr(d.ptr()), d.size()), "and does not contain the size");
            vc_cover("payload");
        }
        if (rs) {
            vc_check(z.size() == 4, "one size variable");
            r.add(size, 1, 4, 4, "size");
        } else {
            vc_check(size == 0 && z.size() == 0, "no size variable");
        }
        vc_check(v.layout().ptr() == nullptr && v.layout().size() == 0 && v.host_layout().ptr() == nullptr,
                 "no layout");
    }
    static bool same(const view& a, const view& b) {
        return a.capacity() == b.capacity() && a.size().ptr() == b.size().ptr() &&
               a.size().size() == b.size().size() && a.payload().ptr() == b.payload().ptr() &&
               a.payload().size() == b.payload().size() && a.layout().ptr() == b.layout().ptr() &&
               a.layout().size() == b.layout().size() && a.host_layout().ptr() == b.host_layout().ptr();
    }
    static void run(u32 top) {
        constexpr auto all = std::index_sequence_for<V...>{};
        const bool rs = vc_bool("resizable");
        const u32 cap = vc_range("capacity", 0, top);
        vc::resource up;
        try {
            {
                edm::buffer<schema> b(cap, up, rs ? buffer_type::resizable : buffer_type::fixed_size);
                columns(b, up, cap, rs, all);
                const view before = b;
                edm::buffer<schema> c(std::move(b)), d;
                vc_check(same(c, before), "a move keeps the description");
                d = std::move(c);
                vc_check(same(d, before), "a move keeps the description");
                columns(d, up, cap, rs, all);
                columns(vecmem::get_data(d), up, cap, rs, all);
            }
            vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, up.log[0].size, up.log[0].align), "released exactly once");
        } catch (const std::bad_alloc&) {
            vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
        }
        vc_cover("done");
    }
};
// ---- with jagged vectors ----------------------------------------------------------------------
// A std::vector over an arbitrary array (its elements are the contents of that array).
template <typename T>
struct any_vector {
    std::vector<T> v;
    any_vector(T* a, uint64_t n) {
        v._M_impl._M_start = a;
        v._M_impl._M_finish = v._M_impl._M_end_of_storage = a + n;
    }
    ~any_vector() { v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr; }
};
constexpr uint64_t ROWS = 1ul << 22;

// One scalar, one vector, two jagged vectors.
template <typename S, typename T, typename A, typename B>
struct jagged {
    using schema = edm::schema<scalar<S>, jagged_vector<A>, vector<T>, jagged_vector<B>>;
    using view = edm::view<schema>;
    uint64_t n = vc_range("rows", 0, ROWS), i = 0, j = 0;
    u32* caps = vc::array<u32>("capacities", n);
    bool rs, two;
    vc::resource dev{"dev"}, host{"host"};
    jagged(bool resizable, bool host_access) : rs(resizable), two(host_access) {
        dev.real = host.real = true;
        dev.may_fail = host.may_fail = false;
        if (n) {
            i = vc_range("i", 0, ROWS);
            j = vc_range("j", 0, ROWS);
            vc_assume(i < n && j < n && i <= j);
            vc_watch(i);
            vc_watch(j);
        }
    }
    template <typename R>
    static void add(R& r, const void* p, uint64_t count, uint64_t size, uint64_t align) {
        r.add(addr(p), count, size, align, "");
    }
    template <typename R, typename T1>
    void rows(R& r, const jagged_vector_view<T1>& v, bool second) {
        const vector_view<T1>&x = v.host_ptr()[i], &y = v.host_ptr()[j];
        vc_check(x.capacity() == caps[i] && y.capacity() == caps[j], "rows have their capacity");
        add(r, x.ptr(), caps[i], sizeof(T1), alignof(T1));
        if (second && i != j) add(r, y.ptr(), caps[j], sizeof(T1), alignof(T1));
    }
    template <typename R, typename T1>
    void sizes(R& r, const jagged_vector_view<T1>& v, const view& w) {
        const u32 *s = v.host_ptr()[i].size_ptr(), *t = v.host_ptr()[j].size_ptr();
        if (!rs) {
            vc_check(s == nullptr && t == nullptr, "rows of fixed size are full");
            return;
        }
        add(r, s, 1, 4, 4);
        if (i != j) add(r, t, 1, 4, 4);
        const uint64_t lo = addr(w.size().ptr()), hi = lo + w.size().size();
        vc_check(addr(s) >= lo && addr(s) + 4 <= hi && addr(t) >= lo && addr(t) + 4 <= hi, "among the sizes");
    }
    template <typename R>
    void layouts(R& r, const view& v) {
        const auto& a = v.template get<1>();
        const auto& b = v.template get<3>();
        vc::resource& hr = two ? host : dev;
        vc_check(a.size() == n && b.size() == n, "as many rows as capacities");
        if (n == 0) return;
        vc_check(two == (a.ptr() != a.host_ptr()) && two == (b.ptr() != b.host_ptr()),
                 "one description suffices if it is host accessible");
        add(r, a.ptr(), n, sizeof(vector_view<A>), 8);
        add(r, b.ptr(), n, sizeof(vector_view<B>), 8);
        if (two) {
            regions<2> h(hr.log[0]);
            add(h, a.host_ptr(), n, sizeof(vector_view<A>), 8);
            add(h, b.host_ptr(), n, sizeof(vector_view<B>), 8);
        }
        // both are at the same place of the memory reported
        const auto &l = v.layout(), &h = v.host_layout();
        vc_check(l.size() == h.size() && addr(l.ptr()) <= addr(a.ptr()) &&
                     addr(b.ptr()) + n * sizeof(vector_view<B>) <= addr(l.ptr()) + l.size(), "in the layout");
        vc_check(addr(a.ptr()) - addr(l.ptr()) == addr(a.host_ptr()) - addr(h.ptr()) &&
                     addr(b.ptr()) - addr(l.ptr()) == addr(b.host_ptr()) - addr(h.ptr()), "which can be transferred");
    }
    // Scalar, vector, and two rows of each jagged vector.
    template <typename R>
    void payload(R& r, const view& v, bool second) {
        add(r, v.template get<0>(), 1, sizeof(S), alignof(S));
        const auto& f = v.template get<2>();
        vc_check(f.capacity() == n && f.size_ptr() == nullptr, "vectors are not resizable");
        add(r, f.ptr(), n, sizeof(T), alignof(T));
        if (n) {
            rows(r, v.template get<1>(), second);
            rows(r, v.template get<3>(), second);
        }
    }
    // Which part of the description is looked at?
    void described(const view& v, int part) {
        vc_check(v.capacity() == n, "capacity");
        vc_check(dev.n == 1 && host.n == (two ? 1 : 0), "one allocation");
        const auto& d = v.payload();
        if (part == 0) {
            regions<6> r(dev.log[0]);
            payload(r, v, true);
            vc_cover("columns");
        } else if (part == 1) {
            if (d.ptr() == nullptr && d.size() == 0) return;
            regions<4> r(dev.log[0], false);
            payload(r, v, false);
            for (int k = 0; k < r.n; ++k)
                vc_check(r.r[k].p >= addr(d.ptr()) && r.r[k].p + r.r[k].bytes <= addr(d.ptr()) + d.size(),
                         "inside the payload");
            vc_check(addr(d.ptr()) >= r.lo && addr(d.ptr()) + d.size() <= r.hi, "which is inside the allocation");
            vc_cover("payload");
        } else {
            regions<10> r(dev.log[0]), o(dev.log[0], false);
            layouts(r, v);
            if (n) {
                sizes(r, v.template get<1>(), v);
                sizes(r, v.template get<3>(), v);
            }
            if (!rs) vc_check(v.size().ptr() == nullptr && v.size().size() == 0, "no sizes");
            payload(o, v, false);
            for (int k = 0; k < r.n; ++k) {
                for (int l = 0; l < o.n; ++l)
                    vc_check(disjoint(r.r[k].p, r.r[k].bytes, o.r[l].p, o.r[l].bytes), "disjoint from the columns");
                if (d.size())
                    vc_check(disjoint(r.r[k].p, r.r[k].bytes, addr(d.ptr()), d.size()), "not in the payload");
            }
            vc_cover("layout");
        }
    }
    void run(int part) {
        {
            any_vector<u32> c(caps, n);
            edm::buffer<schema> b(c.v, dev, two ? &host : nullptr, rs ? buffer_type::resizable : buffer_type::fixed_size);
            described(b, part);
            const view before = b;
            edm::buffer<schema> d(std::move(b)), f;
            f = std::move(d);
            vc_check((flat<scalar<S>, jagged_vector<A>, vector<T>, jagged_vector<B>>::same(f, before)), "a move keeps the description");
            vc_check(f.template get<1>().host_ptr() == before.template get<1>().host_ptr() &&
                         f.template get<1>().ptr() == before.template get<1>().ptr() &&
                         f.template get<0>() == before.template get<0>(), "of all columns");
            vc_check(dev.count(3) == 0 && host.count(3) == 0, "nothing is released by moves");
        }
        for (vc::resource* r : {&dev, &host}) {
            if (r->n) vc_check(r->n == 2 && r->ev(1, 3, r->log[0].p, r->log[0].size, r->log[0].align), "released exactly once");
        }
        vc_cover("done");
    }
};
// Where a column is inside the payload depends on nothing but the capacities (what copies of whole
// payloads rely on).
template <typename S, typename T, typename A, typename B>
static void same_places(bool first_resizable, bool second_resizable) {
    using schema = typename jagged<S, T, A, B>::schema;
    const uint64_t n = vc_range("rows", 1, ROWS), i = vc_range("i", 0, ROWS);
    vc_assume(i < n);
    vc_watch(i);
    u32* caps = vc::array<u32>("capacities", n);
    any_vector<u32> c(caps, n);
    vc::resource m[2];
    for (auto& r : m) {
        r.real = true;
        r.may_fail = false;
    }
    edm::buffer<schema> a(c.v, m[0], nullptr, first_resizable ? buffer_type::resizable : buffer_type::fixed_size);
    edm::buffer<schema> b(c.v, m[1], nullptr, second_resizable ? buffer_type::resizable : buffer_type::fixed_size);
    const auto place = [&](const edm::view<schema>& v, const void* p) { return addr(p) - addr(v.payload().ptr()); };
    vc_check(a.payload().size() == b.payload().size(), "payloads of the same size");
    if (a.payload().ptr() && b.payload().ptr()) {
        vc_check(place(a, a.template get<0>()) == place(b, b.template get<0>()), "scalars at the same place");
        vc_check(place(a, a.template get<2>().ptr()) == place(b, b.template get<2>().ptr()), "vectors at the same place");
        if (caps[i]) {
            vc_check(place(a, a.template get<1>().host_ptr()[i].ptr()) == place(b, b.template get<1>().host_ptr()[i].ptr()),
                     "rows at the same place");
            vc_check(place(a, a.template get<3>().host_ptr()[i].ptr()) == place(b, b.template get<3>().host_ptr()[i].ptr()),
                     "rows at the same place");
        }
        if (first_resizable && second_resizable) {
            vc_check(a.size().size() == b.size().size(), "sizes");
            vc_check(addr(a.template get<1>().host_ptr()[i].size_ptr()) - addr(a.size().ptr()) ==
                             addr(b.template get<1>().host_ptr()[i].size_ptr()) - addr(b.size().ptr()) &&
                         addr(a.template get<3>().host_ptr()[i].size_ptr()) - addr(a.size().ptr()) ==
                             addr(b.template get<3>().host_ptr()[i].size_ptr()) - addr(b.size().ptr()),
                     "sizes at the same place");
        }
    }
    vc_cover("done");
}
constexpr u32 ANY = ~u32(0);
PROOF(ints) { flat<scalar<int>, vector<int>, vector<float>>::run(ANY); }
PROOF(mixed) { flat<vector<char>, scalar<double>, vector<short>, vector<double>>::run(ANY); }
PROOF(mixed_last_small) { flat<vector<double>, vector<int>, vector<odd>, scalar<char>>::run(ANY); }
PROOF(wide) { flat<scalar<char>, vector<line>, vector<char>>::run(ANY); }
PROOF(single) { flat<vector<uint64_t>>::run(ANY); }

PROOF(jagged_fixed_columns) { jagged<float, double, char, double>(false, false).run(0); }
PROOF(jagged_fixed_payload) { jagged<float, double, char, double>(false, false).run(1); }
PROOF(jagged_fixed_layout) { jagged<float, double, char, double>(false, false).run(2); }
PROOF(jagged_fixed_host_columns) { jagged<float, double, char, double>(false, true).run(0); }
PROOF(jagged_fixed_host_payload) { jagged<float, double, char, double>(false, true).run(1); }
PROOF(jagged_fixed_host_layout) { jagged<float, double, char, double>(false, true).run(2); }
PROOF(jagged_resizable_columns) { jagged<float, double, char, double>(true, false).run(0); }
PROOF(jagged_resizable_payload) { jagged<float, double, char, double>(true, false).run(1); }
PROOF(jagged_resizable_layout) { jagged<float, double, char, double>(true, false).run(2); }
PROOF(jagged_resizable_host_columns) { jagged<float, double, char, double>(true, true).run(0); }
PROOF(jagged_resizable_host_payload) { jagged<float, double, char, double>(true, true).run(1); }
PROOF(jagged_resizable_host_layout) { jagged<float, double, char, double>(true, true).run(2); }
PROOF(jagged_small_last_columns) { jagged<double, char, line, int>(true, false).run(0); }
PROOF(jagged_small_last_payload) { jagged<double, char, line, int>(true, false).run(1); }
PROOF(jagged_small_last_layout) { jagged<double, char, line, int>(true, false).run(2); }
PROOF(places_fixed) { same_places<float, double, char, double>(false, false); }
PROOF(places_resizable) { same_places<double, double, double, char>(true, true); }
PROOF(places_mixed) { same_places<double, double, double, char>(false, true); }
