// Host and device structure-of-arrays containers: all columns are kept in step.
//@ flags -I$VERIF/specs/models/text
//@ trust the text of error messages is not verified
//@ trust atomic operations on one object are totally ordered (modification order)
//@ opt shared time=60
//@ replace .*7__cxx119to_stringEm.* empty_string
//@ replace .*basic_string.*10_M_replaceEmmPKcm same_string
//@ replace .*basic_string.*9_M_appendEPKcm same_string1
//@ replace _ZNSt3pmr20get_default_resourceEv other_resource
#include "vc.hpp"
#include <string>
#include <utility>
#include <vector>
#ifdef VC_NATIVE
#include <atomic>
#include <thread>
#endif
#include "vecmem/edm/device.hpp"
#include "vecmem/edm/host.hpp"
#include "vecmem/edm/data.hpp"
// stand for std::to_string and for joining strings
extern "C" std::string empty_string(unsigned long) { return {}; }
extern "C" void* same_string(void* s, unsigned long, unsigned long, const char*, unsigned long) { return s; }
extern "C" void* same_string1(void* s, const char*, unsigned long) { return s; }
using vc::addr;
using u32 = uint32_t;
using vecmem::data::jagged_vector_view;
using vecmem::data::vector_view;
namespace edm = vecmem::edm;
using edm::type::jagged_vector;
using edm::type::scalar;
using edm::type::vector;
template <typename B> struct interface : B { using B::B; };

struct supply : std::pmr::memory_resource {
#ifdef VC_NATIVE
    void* do_allocate(std::size_t n, std::size_t a) override { return ::operator new(n, std::align_val_t(a)); }
#else
    void* do_allocate(std::size_t n, std::size_t a) override { return vc_mem("memory", n, a, 1); }
#endif
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// Equality of bits, for the sake of NaNs.
template <typename T> bool same(const T& a, const T& b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }

// stands for std::pmr::get_default_resource
static supply another;
extern "C" std::pmr::memory_resource* other_resource() { return &another; }

template <typename V> struct column;
template <typename T> struct column<scalar<T>> {
    using type = T;
    static constexpr bool one = true;
    T* p;
    T old;
    void make(T*& v, u32, u32*, u32) {
        v = p = vc::array<T>("scalar", 1);
        old = *p;
    }
    template <typename C> void where(C& c, u32) const { vc_check(&c == p, "the scalar"); }
    void unchanged(u32, bool) const { vc_check(same(*p, old), "scalars are not touched"); }
    template <typename P> void element(P& x, u32) const { vc_check(&x == p, "proxies name the scalar"); }
};
template <typename T> struct column<vector<T>> {
    using type = T;
    static constexpr bool one = false;
    T* p;
    T old;
    void make(vector_view<T>& v, u32 cap, u32* size, u32 i) {
        p = vc::array<T>("column", cap);
        if (i < cap) old = p[i];
        v = size ? vector_view<T>(cap, size, p) : vector_view<T>(cap, p);
    }
    template <typename C> void where(C& c, u32 n) const {
        vc_check(c.size() == n, "every column has the size of the container");
        vc_check(c.data() == p, "the storage of the column");
    }
    void unchanged(u32 i, bool is_new) const {
        vc_check(same(p[i], is_new ? T() : old), "only the new element is touched");
    }
    template <typename P> void element(P& x, u32 i) const { vc_check(&x == p + i, "proxies name the element"); }
};

template <typename T> struct column<jagged_vector<T>> {
    using type = T;
    static constexpr bool one = false;
    vector_view<T>* rows;
    void make(jagged_vector_view<T>& v, u32 cap, u32*, u32) {
        rows = vc::array<vector_view<T>>("rows", cap);
        v = jagged_vector_view<T>(cap, rows);
    }
    template <typename C> void where(C& c, u32 n) const {
        vc_check(c.size() == n, "every column has the size of the container");
        vc_check(c.capacity() == n, "jagged columns are full");
    }
    void unchanged(u32, bool) const {}
    template <typename P> void element(P& x, u32 i) const {
        vc_check(x.data() == rows[i].ptr() && x.capacity() == rows[i].capacity(), "proxies name the row");
        if (rows[i].size_ptr() == nullptr) vc_check(x.size() == rows[i].capacity(), "all of it");
    }
};

template <typename... V> struct flat {
    static constexpr bool has_rows = (edm::type::details::is_jagged_vector_v<V> || ...);
    static constexpr auto all = std::index_sequence_for<V...>{};
    using schema = edm::schema<V...>;
    using const_schema = edm::details::add_const_t<schema>;
    using view = edm::view<schema>;
    using const_view = edm::view<const_schema>;
    using device = edm::device<schema, interface>;
    using const_device = edm::device<const_schema, interface>;
    using host = edm::host<schema, interface>;
    using columns = std::tuple<column<V>...>;

    template <std::size_t... I>
    static void make(columns& c, view& v, u32 cap, u32* size, u32 i, std::index_sequence<I...>) {
        (std::get<I>(c).make(v.template get<I>(), cap, size, i), ...);
    }
    template <typename C, std::size_t... I>
    static void where(const columns& c, C& x, u32 n, std::index_sequence<I...>) {
        (std::get<I>(c).where(x.template get<I>(), n), ...);
    }
    template <typename P, std::size_t... I>
    static void element(const columns& c, P&& x, u32 i, std::index_sequence<I...>) {
        (std::get<I>(c).element(x.template get<I>(), i), ...);
        const auto& y = x;
        (std::get<I>(c).element(y.template get<I>(), i), ...);
    }
    template <std::size_t... I>
    static void unchanged(const columns& c, u32 i, bool is_new, std::index_sequence<I...>) {
        (std::get<I>(c).unchanged(i, is_new), ...);
    }

    // Sizes, columns and proxies of device containers.
    static void access() {
        const u32 cap = vc_u32("capacity"), i = vc_u32("i");
        const bool rs = !has_rows && vc_bool("resizable");
        u32* size = rs ? vc::array<u32>("size", 1) : nullptr;
        const u32 n = rs ? *size : cap;
        vc_assume(n <= cap);
        view v(cap, {rs ? 4u : 0u, reinterpret_cast<char*>(size)});
        columns c;
        make(c, v, cap, size, i, all);
        device d(v);
        const device& e = d;
        const_view w(v);
        const_device f(w);
        const const_device& g = f;
        vc_check(d.size() == n && e.size() == n && f.size() == n, "size");
        vc_check(d.capacity() == cap && f.capacity() == cap, "capacity");
        where(c, d, n, all);
        where(c, e, n, all);
        where(c, f, n, all);
        where(c, g, n, all);
        if (i < n) {
            element(c, d[i], i, all);
            element(c, f[i], i, all);
            element(c, d.at(i), i, all);
            if constexpr (!has_rows) {       // (those with rows cannot be instantiated)
                element(c, e[i], i, all);
                element(c, e.at(i), i, all);
            }
            element(c, g.at(i), i, all);
            unchanged(c, i, false, all);
            vc_cover("elements");
        }
        vc_check(!rs || *size == n, "reading changes nothing");
        vc_cover("done");
    }

    // Growing, while other threads do the same.
    static void grow() {
#ifdef VC_NATIVE
        constexpr u32 T = 4, N = 20000;
        std::vector<u32> got[T];
        std::vector<char> seen(T * N);
        u32 size = 0;
        view v(T * N, {4u, reinterpret_cast<char*>(&size)});
        columns c;
        [&](auto&... k) { ((k.p = new typename std::decay_t<decltype(k)>::type[std::decay_t<decltype(k)>::one ? 1 : T * N]), ...); }
            (std::get<column<V>>(c)...);
        native_make(c, v, T * N, &size, all);
        std::vector<std::thread> ts;
        std::atomic<u32> ready{0};
        for (u32 t = 0; t < T; ++t)
            ts.emplace_back([&, t] {
                device d(v);
                ++ready;
                while (ready != T) std::this_thread::yield();     // all at once
                for (u32 k = 0; k < N; ++k) {
                    const u32 r = d.push_back_default();
                    got[t].push_back(r);
                    native_set(d, r, all);
                }
            });
        for (auto& t : ts) t.join();
        vc_check(size == T * N, "the size counts every element");
        for (auto& g : got)
            for (u32 r : g) {
                vc_check(r < T * N && !seen[r], "slots are distinct");
                seen[r] = 1;
                device d(v);
                native_get(d, r, all);
            }
#else
        const u32 cap = vc_range("capacity", 0, vc::MAXN - 1), i = vc_range("i", 0, vc::MAXN - 1);
        u32* size = vc::array<u32>("size", 1);
        view v(cap, {4u, reinterpret_cast<char*>(size)});
        columns c;
        vc_assume(i < cap);
        vc_watch(i);
        make(c, v, cap, size, i, all);
        device d(v);
        vc_shared(size, 4, 0);
        vc_shared_range(size, 0, cap - 1);       // all together stay within the capacity
        vc_atom_clear();
        const u32 r = d.push_back_default();
        uint64_t steps = 0;
        for (uint64_t k = 0; k < vc_atom_count(); ++k) {
            vc_check(vc_atom_addr(k) == addr(size), "no other atomic access");
            if (vc_atom_kind(k) != 1 && vc_atom_old(k) != vc_atom_new(k)) {
                vc_check(vc_atom_old(k) == r && vc_atom_new(k) == uint64_t(r) + 1,
                         "the slot comes from the step that counts it");
                ++steps;
            }
        }
        vc_check(steps == 1, "the size changes in exactly one step");
        unchanged(c, i, i == r, all);
#endif
        vc_cover("done");
    }
#ifdef VC_NATIVE
    template <std::size_t... I>
    static void native_make(columns& c, view& v, u32 cap, u32* size, std::index_sequence<I...>) {
        auto one = [&](auto& x, auto& y) {
            if constexpr (std::decay_t<decltype(x)>::one) y = x.p;
            else y = {cap, size, x.p};
        };
        (one(std::get<I>(c), v.template get<I>()), ...);
    }
    template <std::size_t... I>
    static void native_set(device& d, u32 r, std::index_sequence<I...>) {
        auto one = [&](auto& x) {
            if constexpr (std::is_class_v<std::decay_t<decltype(x)>>) {
                vc_check(x[r] == 0, "new elements are default");
                x[r] = std::decay_t<decltype(x[r])>(r % 100 + 1);
            }
        };
        (one(d.template get<I>()), ...);
    }
    template <std::size_t... I>
    static void native_get(device& d, u32 r, std::index_sequence<I...>) {
        auto one = [&](auto& x) {
            if constexpr (std::is_class_v<std::decay_t<decltype(x)>>)
                vc_check(x[r] == std::decay_t<decltype(x[r])>(r % 100 + 1), "every slot is written by one thread only");
        };
        (one(d.template get<I>()), ...);
    }
#endif

    // ---- host containers
    template <typename X> static constexpr bool is_scalar_v = std::is_arithmetic_v<std::decay_t<X>>;
    template <typename X> static constexpr bool is_rows_v = std::is_class_v<std::decay_t<decltype(std::declval<X>()[0])>>;
    static u32 count(const char* name) {
        if constexpr (has_rows) return u32(vc_split(vc_range(name, 0, 3), 0, 3));
        else return vc_range(name, 0, vc::MAXN / 2);
    }
    template <std::size_t... I>
    static void host_sizes(const host& h, u32 n, std::index_sequence<I...>) {
        auto one = [&](auto& x) {
            if constexpr (!is_scalar_v<decltype(x)>) vc_check(x.size() == n, "every column has the size of the container");
        };
        (one(h.template get<I>()), ...);
        vc_check(h.size() == n, "which it reports");
    }
    template <std::size_t... I>
    static void host_fill(host& h, u32 i, uint32_t* values, std::index_sequence<I...>) {
        auto one = [&](auto& x, uint32_t value) {
            if constexpr (is_scalar_v<decltype(x)>) x = std::decay_t<decltype(x)>(value);
            else if constexpr (is_rows_v<decltype(x)>) {
                if (i < x.size()) {
                    x[i].resize(value);
                    if (value) x[i][value / 2] = 77;
                }
            } else if (i < x.size()) x[i] = std::decay_t<decltype(x[i])>(value);
        };
        (one(h.template get<I>(), values[I]), ...);
    }
    template <std::size_t... I>
    static void host_check(host& h, u32 i, bool old, uint32_t* values, std::index_sequence<I...>) {
        auto one = [&](auto& x, uint32_t value) {
            if constexpr (is_scalar_v<decltype(x)>) vc_check(x == std::decay_t<decltype(x)>(value), "scalars are not affected");
            else if constexpr (is_rows_v<decltype(x)>) {
                if (i < x.size()) {
                    vc_check(x[i].size() == (old ? value : 0), "rows keep their size, new ones are empty");
                    if (old && value) vc_check(x[i][value / 2] == 77, "rows are kept");
                    vc_check(x[i].get_allocator().resource() == &h.resource(), "rows use the resource of the container");
                }
            } else if (i < x.size())
                vc_check(x[i] == std::decay_t<decltype(x[i])>(old ? value : 0), "elements are kept, new ones are zero");
        };
        (one(h.template get<I>(), values[I]), ...);
    }
    template <typename P, std::size_t... I>
    static void host_element(host& h, P&& p, u32 i, std::index_sequence<I...>) {
        auto one = [&](auto& x, auto& y) {
            if constexpr (is_scalar_v<decltype(x)>) vc_check(&x == &y, "proxies name the scalar");
            else vc_check(&x[i] == &y, "proxies name the element");
        };
        (one(h.template get<I>(), p.template get<I>()), ...);
        const auto& q = p;
        (one(h.template get<I>(), q.template get<I>()), ...);
    }
    template <typename W, std::size_t... I>
    static void host_view(const host& h, const W& v, u32 n, u32 i, std::index_sequence<I...>) {
        auto one = [&](auto& x, auto& y) {
            if constexpr (is_scalar_v<decltype(x)>) vc_check(&x == y, "the scalar");
            else if constexpr (is_rows_v<decltype(x)>) {
                vc_check(y.size() == n && y.ptr() == y.host_ptr(), "all of the rows");
                if (i < n)
                    vc_check(y.ptr()[i].ptr() == x[i].data() && y.ptr()[i].capacity() == x[i].size() &&
                                 y.ptr()[i].size_ptr() == nullptr, "the whole row");
            } else vc_check(y.ptr() == x.data() && y.capacity() == n && y.size_ptr() == nullptr, "the whole column");
        };
        (one(h.template get<I>(), v.template get<I>()), ...);
        vc_check(v.capacity() == n && v.size().ptr() == nullptr && v.payload().ptr() == nullptr, "of fixed size");
    }
    static void resizing() {
        supply m;
        host h(m);
        const host& k = h;
        uint32_t values[sizeof...(V)];
        for (auto& x : values) x = vc_u8("value") & 63;
        vc_check(&h.resource() == &m, "the resource");
        host_sizes(h, 0, all);
        const u32 a = count("a"), b = count("b"), i = has_rows ? count("i") : vc_u32("i");
        vc_watch(i);
        h.resize(a);
        host_sizes(h, a, all);
        host_fill(h, i, values, all);
        h.resize(b);
        host_sizes(h, b, all);
        host_check(h, i, i < a, values, all);
        vc_cover("done");
    }
    static void reserving() {
        supply m;
        host h(m);
        uint32_t values[sizeof...(V)];
        for (auto& x : values) x = vc_u8("value") & 63;
        const u32 a = count("a"), b = count("b"), i = has_rows ? count("i") : vc_u32("i");
        vc_watch(i);
        h.resize(a);
        host_fill(h, i, values, all);
        h.reserve(b);
        host_sizes(h, a, all);
        host_check(h, i, true, values, all);
        vc_cover("done");
    }
    static void host_access() {
        supply m;
        host h(m);
        const host& k = h;
        const u32 n = count("n");
        const uint64_t i = has_rows ? count("i") : vc_range("i", 0, ~0ul);
        uint32_t values[sizeof...(V)];
        for (auto& x : values) x = vc_u8("value") & 63;
        h.resize(n);
        host_fill(h, i, values, all);
        if (i < n) {
            host_element(h, h[i], i, all);
            host_element(h, k[i], i, all);
            host_element(h, h.at(i), i, all);
            host_element(h, k.at(i), i, all);
            vc_cover("inside");
        } else {
            bool one = false, two = false;
            try { h.at(i); } catch (const std::out_of_range&) { one = true; }
            try { k.at(i); } catch (const std::out_of_range&) { two = true; }
            vc_check(one && two, "checked access outside is reported");
            vc_cover("outside");
        }
        auto v = vecmem::get_data(h);
        auto w = vecmem::get_data(k);
        host_view(h, vecmem::get_data(v), n, i, all);
        host_view(h, w, n, i, all);
        const auto& cv = v;
        host_view(h, vecmem::get_data(cv), n, i, all);
        vc_cover("done");
    }
    // Columns resized separately are noticed.
    template <std::size_t I>
    static void out_of_step() {
        supply m;
        host h(m);
        const u32 a = count("a"), b = count("b");
        h.resize(a);
        h.template get<I>().resize(b);
        bool refused = false;
        try { h.size(); } catch (const std::length_error&) { refused = true; }
        vc_check(refused == (a != b), "columns of different sizes are reported");
        vc_cover("done");
    }
};
using ints = flat<scalar<int>, vector<float>, vector<char>>;
using mixed = flat<vector<char>, vector<uint64_t>, scalar<double>, vector<uint16_t>>;
PROOF(device_ints) { ints::access(); }
PROOF(device_mixed) { mixed::access(); }
using jagged = flat<scalar<double>, jagged_vector<float>, vector<int>, jagged_vector<char>>;
PROOF(device_jagged) { jagged::access(); }
PROOF(grow_ints) { ints::grow(); }
PROOF(host_resize_ints) { ints::resizing(); }
PROOF(host_resize_mixed) { mixed::resizing(); }
PROOF(host_reserve_ints) { ints::reserving(); }
PROOF(host_reserve_mixed) { mixed::reserving(); }
PROOF(host_access_ints) { ints::host_access(); }
PROOF(host_access_mixed) { mixed::host_access(); }
PROOF(host_out_of_step_first) { mixed::out_of_step<0>(); }
PROOF(host_out_of_step_last) { mixed::out_of_step<3>(); }
PROOF(host_out_of_step) { ints::out_of_step<1>(); }

// Jagged vectors: up to three rows (of up to 63 elements)
//@ proof host_resize_jagged bounded="at most three rows"
PROOF(host_resize_jagged) { jagged::resizing(); }
//@ proof host_reserve_jagged bounded="at most three rows"
PROOF(host_reserve_jagged) { jagged::reserving(); }
//@ proof host_access_jagged bounded="at most three rows"
PROOF(host_access_jagged) { jagged::host_access(); }
//@ proof host_out_of_step_jagged bounded="at most three rows"
PROOF(host_out_of_step_jagged) { jagged::out_of_step<1>(); }
