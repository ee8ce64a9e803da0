// Copies between structure-of-arrays containers.  The copies of bytes (do_copy) are observed: an
// arbitrary byte of an arbitrary element of an arbitrary column of the target is followed.
//@ opt trials=1
//@ flags -I$VERIF/specs/models/text
//@ trust the text of error messages (std::stringstream) is not verified
#include "vc.hpp"
#include <utility>
#include <vector>
#include "core/src/utils/copy.cpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/edm/buffer.hpp"
using vc::addr;
using vc::disjoint;
using u32 = uint32_t;
using kind = vecmem::copy::type::copy_type;
using vecmem::data::buffer_type;
using vecmem::data::vector_view;
namespace edm = vecmem::edm;
using edm::type::scalar;
using edm::type::vector;
#ifdef VC_NATIVE
#include "E03_native.inc"
#define NATIVE_TRIALS trials::all(); return
#else
#define NATIVE_TRIALS
#endif
struct odd { uint8_t b[3]; };
template <typename B> struct interface : B { using B::B; };
template <typename T> static bool same(const T& a, const T& b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
constexpr u32 ANY = ~u32(0);

struct region {
    uint64_t p = 0, bytes = 0, object = 0;
    region() = default;
    region(uint64_t a, uint64_t n) : p(a), bytes(n), object(n ? vc_object(vc::ptr(a)) : 0) {}
    bool holds(const void* q, uint64_t n) const {
        return vc_object(q) == object && ((addr(q) >= p) & (addr(q) + n <= p + bytes));
    }
    bool starts(const void* q) const { return bytes && vc_object(q) == object && addr(q) == p; }
};

// The storage of one container.
struct storage {
    region column[4], size, payload;
    int n = 0;
    u32 count = 0;       // elements in use
    bool holds(const void* q, uint64_t bytes) const {
        bool r = payload.holds(q, bytes);
        for (int k = 0; k < n; ++k) r = r | column[k].holds(q, bytes);
        return r;
    }
    bool owns(const void* q) const {
        const uint64_t o = vc_object(q);
        bool r = o == size.object || o == payload.object;
        for (int k = 0; k < n; ++k) r = r || o == column[k].object;
        return r;
    }
};

struct tracking : vecmem::copy {
    const storage &f, &t;
    uint64_t byte[4];                   // watched bytes of the target
    kind k = type::unknown;
    mutable uint64_t origin[4] = {};    // where they came from (0: untouched)
    mutable u32 size;                   // size variable of the target
    mutable bool sized = false;
    tracking(const storage& from, const storage& to) : f(from), t(to), size(vc_u32("old_size")) {}
    void do_copy(std::size_t n, const void* from, void* to, kind c) const override {
        if (n == 0) return;
        if (f.size.starts(from)) {
            vc_check(n == 4, "the size is copied");
            if (t.size.starts(to)) {
                size = f.count;
                sized = true;
            } else {
                vc_check(!f.owns(to) && !t.owns(to), "to a variable");
                *static_cast<u32*>(to) = f.count;
            }
            return;
        }
        if (t.size.starts(to)) {
            vc_check(n == 4 && !f.owns(from) && !t.owns(from), "the size is set from a variable");
            size = *static_cast<const u32*>(from);
            sized = true;
            return;
        }
        vc_check(c == k, "in the requested direction");
        vc_check(f.holds(from, n), "from the source");
        vc_check(t.holds(to, n), "to the target");
        if (vc_object(to) == t.size.object)
            vc_check(disjoint(addr(to), n, t.size.p, 4), "not over the size");
        for (int k = 0; k < t.n; ++k) {
            if (vc_object(to) == t.column[k].object && byte[k] - addr(to) < n)
                origin[k] = addr(from) + (byte[k] - addr(to));
        }
    }
};

// Which bytes are set, and to which value?
struct setting : vecmem::copy {
    const storage& s;
    uint64_t byte[4];
    mutable bool set[4] = {}, size_set = false, any = false;
    mutable int value = 1;
    explicit setting(const storage& x) : s(x) {}
    void do_memset(std::size_t n, void* p, int v) const override {
        if (n == 0) return;
        value = v;
        if (s.size.starts(p)) {
            vc_check(n == 4, "the size is set");
            size_set = true;
            return;
        }
        any = true;
        vc_check(s.holds(p, n), "inside the container");
        if (vc_object(p) == s.size.object) vc_check(disjoint(addr(p), n, s.size.p, 4), "not over the size");
        for (int k = 0; k < s.n; ++k)
            if (vc_object(p) == s.column[k].object && byte[k] - addr(p) < n) set[k] = true;
    }
    void do_copy(std::size_t n, const void*, void*, kind) const override {
        vc_check(n == 0, "nothing is copied");
    }
};

template <typename V> struct column;
template <typename T> struct column<scalar<T>> {
    static constexpr bool one = true;
    static constexpr uint64_t bytes = sizeof(T);
    static void make(T*& v, u32, u32*, uint64_t p) { v = static_cast<T*>(vc::ptr(p)); }
    static uint64_t start(T* v) { return addr(v); }
    static void compare(const T& a, T* v, u32, u32) { vc_check(same(a, *v), "scalars are copied"); }
};
template <typename T> struct column<vector<T>> {
    static constexpr bool one = false;
    static constexpr uint64_t bytes = sizeof(T);
    static void make(vector_view<T>& v, u32 cap, u32* size, uint64_t p) {
        T* a = static_cast<T*>(vc::ptr(p));
        v = size ? vector_view<T>(cap, size, a) : vector_view<T>(cap, a);
    }
    static uint64_t start(const vector_view<T>& v) { return addr(v.ptr()); }
    static void compare(const vecmem::vector<T>& a, const vector_view<T>& v, u32 n, u32 i) {
        vc_check(a.size() == n, "every column has the size of the source");
        vc_check(same(a[i], v.ptr()[i]), "elements are copied");
    }
};


struct supply : std::pmr::memory_resource {
    void* do_allocate(std::size_t n, std::size_t a) override { return vc_mem("memory", n, a, 1); }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

template <typename... V> struct flat {
    static constexpr int N = sizeof...(V);
    using schema = edm::schema<V...>;
    using view = edm::view<schema>;
    using const_view = edm::view<edm::details::add_const_t<schema>>;
    using host_type = edm::host<schema, interface>;
    static constexpr auto all = std::index_sequence_for<V...>{};

    // Where the columns are.
    template <std::size_t... I>
    static void describe(storage& s, const view& v, u32 count, std::index_sequence<I...>) {
        s.n = N;
        s.count = count;
        ((s.column[I] = {column<V>::start(v.template get<I>()),
                         column<V>::one ? column<V>::bytes : uint64_t(v.capacity()) * column<V>::bytes}), ...);
        s.size = {addr(v.size().ptr()), v.size().size()};
        s.payload = {addr(v.payload().ptr()), v.payload().size()};
    }
    // A container made of separate arrays.
    template <std::size_t... I>
    static view separate(const char* name, u32 cap, bool resizable, std::index_sequence<I...>) {
        u32* size = resizable ? vc::array<u32>("size", 1) : nullptr;
        view v(cap, {resizable ? 4u : 0u, reinterpret_cast<char*>(size)});
        (column<V>::make(v.template get<I>(), cap, size, addr(vc_mem(name, (column<V>::one ? 1 : uint64_t(cap)) * column<V>::bytes, 8, 1))), ...);
        return v;
    }
    static u32 any_count(const char* name, u32 cap, bool resizable) {
        if (!resizable) return cap;
        const u32 n = vc_u32(name);
        vc_assume(n <= cap);
        return n;
    }
    static uint64_t width(int k) {
        const uint64_t b[] = {column<V>::bytes...};
        return b[k];
    }
    static bool is_scalar(int k) {
        const bool b[] = {column<V>::one...};
        return b[k];
    }
    // The copy, and what it has to do.
    static void transfer(const view& fv, const view& tv, const storage& f, const storage& t) {
        tracking c(f, t);
        const uint64_t i = vc_range("i", 0, ANY);
        uint64_t o[N];
        for (int k = 0; k < N; ++k) {
            o[k] = vc_range("byte", 0, width(k) - 1);
            c.byte[k] = t.column[k].p + (is_scalar(k) ? 0 : i * width(k)) + o[k];
        }
        vc_assume(i < tv.capacity());
        c.k = kind(vc_range("kind", 0, 4));
        bool refused = false;
        try {
            c(const_view(fv), tv, c.k)->wait();
        } catch (const std::length_error&) {
            refused = true;
        }
        vc_check(refused == (f.count > tv.capacity()), "refused exactly if it does not fit");
        if (refused) {
            vc_check(!c.sized, "a refused copy does not change the size");
            vc_cover("refused");
            return;
        }
        for (int k = 0; k < N; ++k) {
            const uint64_t from = f.column[k].p + (is_scalar(k) ? 0 : i * width(k)) + o[k];
            vc_check(is_scalar(k) | (i < f.count) ? c.origin[k] == from : t.payload.bytes || c.origin[k] == 0,
                     "every element is copied, others are not");
        }
        vc_cover("copied");
        vc_check(t.size.bytes == 0 ? !c.sized : c.sized && c.size == f.count, "the size is set");
    }
    static void separate_arrays() {
        storage f, t;
        const u32 fc = vc_u32("from_cap"), tc = vc_u32("to_cap");
        const bool fr = vc_bool("from_resizable"), tr = vc_bool("to_resizable");
        const view fv = separate("from", fc, fr, all), tv = separate("to", tc, tr, all);
        describe(f, fv, any_count("from_count", fc, fr), all);
        describe(t, tv, 0, all);
        transfer(fv, tv, f, t);
        vc_cover("done");
    }
    static void buffers() {
        storage f, t;
        const u32 fc = vc_u32("from_cap"), tc = vc_u32("to_cap");
        const bool fr = vc_bool("from_resizable"), tr = vc_bool("to_resizable");
        vc::resource fm, tm;
        fm.may_fail = tm.may_fail = false;
        fm.real = tm.real = true;
        edm::buffer<schema> fb(fc, fm, fr ? buffer_type::resizable : buffer_type::fixed_size);
        edm::buffer<schema> tb(tc, tm, tr ? buffer_type::resizable : buffer_type::fixed_size);
        describe(f, fb, any_count("from_count", fc, fr), all);
        describe(t, tb, 0, all);
        transfer(fb, tb, f, t);
        vc_cover("done");
    }
    // From a buffer into separate arrays, and back.
    static void mixed_storage(bool into_buffer) {
        storage f, t;
        const u32 ac = vc_u32("arrays_cap"), bc = vc_u32("buffer_cap");
        const bool ar = vc_bool("arrays_resizable"), br = vc_bool("buffer_resizable");
        vc::resource m;
        m.may_fail = false;
        m.real = true;
        edm::buffer<schema> b(bc, m, br ? buffer_type::resizable : buffer_type::fixed_size);
        const view bv = b, av = separate("arrays", ac, ar, all);
        const view &fv = into_buffer ? av : bv, &tv = into_buffer ? bv : av;
        describe(f, fv, any_count("from_count", fv.capacity(), fv.size().ptr()), all);
        describe(t, tv, 0, all);
        transfer(fv, tv, f, t);
        vc_cover("done");
    }
    // setup() and memset(): which bytes are set?
    static void preparation(bool as_buffer) {
        const u32 cap = vc_u32("cap");
        const bool rs = vc_bool("resizable");
        vc::resource m;
        m.may_fail = false;
        m.real = true;
        edm::buffer<schema> b;
        view v;
        if (as_buffer) {
            b = edm::buffer<schema>(cap, m, rs ? buffer_type::resizable : buffer_type::fixed_size);
            v = b;
        } else {
            v = separate("arrays", cap, rs, all);
        }
        storage s;
        describe(s, v, 0, all);
        setting c(s);
        c.setup(v)->wait();
        vc_check(!c.any, "setup does not touch the columns");
        vc_check(rs ? c.size_set && c.value == 0 : !c.size_set, "setup empties resizable containers");
        c.size_set = c.any = false;
        const uint64_t i = vc_range("i", 0, ANY);
        vc_assume(i < cap);
        for (int k = 0; k < N; ++k) {
            c.byte[k] = s.column[k].p + (is_scalar(k) ? 0 : i * width(k)) + vc_range("byte", 0, width(k) - 1);
            c.set[k] = false;
        }
        const int value = int(vc_u32("value"));
        c.memset(v, value)->wait();
        vc_check(!c.size_set, "memset does not touch the size");
        for (int k = 0; k < N; ++k) vc_check(c.set[k], "memset sets every byte of every column");
        vc_check(c.value == value, "to the value");
        vc_cover("done");
    }
    static void count() {
        const u32 cap = vc_u32("cap");
        const bool rs = vc_bool("resizable");
        const view v = separate("arrays", cap, rs, all);
        storage s, none;
        describe(s, v, any_count("count", cap, rs), all);
        vc_check(tracking(s, none).get_size(v) == s.count, "the size is read");
        vc_cover("done");
    }
    // Into a host container, whatever size that had.
    template <std::size_t... I>
    static void compare(host_type& h, const view& v, u32 n, u32 i, std::index_sequence<I...>) {
        (column<V>::compare(h.template get<I>(), v.template get<I>(), n, i), ...);
    }
    static void to_host() {
        const u32 cap = vc_u32("cap"), i = vc_u32("i");
        const bool rs = vc_bool("resizable");
        vc_watch(i);
        const view v = separate("arrays", cap, rs, all);
        const u32 n = rs ? *reinterpret_cast<u32*>(v.size().ptr()) : cap;
        vc_assume(n <= cap);
        supply m;
        host_type h(m);
        h.resize(vc::pick("old_size", 0, 2));
        vecmem::copy c;
        c(const_view(v), h, kind(vc_range("kind", 1, 3)))->wait();
        vc_check(h.size() == n, "the container takes the size of the source");
        if (i < n) compare(h, v, n, i, all);
        vc_cover("done");
    }
};
using ints = flat<scalar<int>, vector<int>, vector<float>>;
using mixed = flat<vector<char>, scalar<double>, vector<short>, vector<double>>;
using small = flat<vector<double>, vector<int>, vector<odd>, scalar<char>>;
using single = flat<vector<uint64_t>>;
using bytes = flat<vector<char>, vector<char>, scalar<double>>;
PROOF(arrays_ints) { NATIVE_TRIALS; ints::separate_arrays(); }
PROOF(arrays_mixed) { NATIVE_TRIALS; mixed::separate_arrays(); }
PROOF(arrays_single) { NATIVE_TRIALS; single::separate_arrays(); }
PROOF(buffers_ints) { NATIVE_TRIALS; ints::buffers(); }
PROOF(buffers_mixed) { NATIVE_TRIALS; mixed::buffers(); }
PROOF(buffers_small) { NATIVE_TRIALS; small::buffers(); }
PROOF(buffers_bytes) { NATIVE_TRIALS; bytes::buffers(); }
PROOF(buffers_single) { NATIVE_TRIALS; single::buffers(); }
PROOF(to_buffer) { NATIVE_TRIALS; ints::mixed_storage(true); }
PROOF(from_buffer) { NATIVE_TRIALS; ints::mixed_storage(false); }
PROOF(preparation_buffer) { NATIVE_TRIALS; ints::preparation(true); }
PROOF(preparation_small) { NATIVE_TRIALS; small::preparation(true); }
PROOF(preparation_arrays) { NATIVE_TRIALS; mixed::preparation(false); }
PROOF(counts) { NATIVE_TRIALS; mixed::count(); }
PROOF(host_ints) { NATIVE_TRIALS; ints::to_host(); }
PROOF(host_mixed) { NATIVE_TRIALS; mixed::to_host(); }
