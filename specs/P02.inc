#include "vc.hpp"
#include "core/src/utils/copy.cpp"
using vc::addr;
using vecmem::data::jagged_vector_view;
using vecmem::data::vector_view;
using u32 = uint32_t;
using kind = vecmem::copy::type::copy_type;
constexpr uint64_t ROWS = 1 << 22, HEAP = uint64_t(1) << 45;

#ifndef NATIVE_FILE
#define NATIVE_FILE "P02_native.inc"
#endif
#ifdef VC_NATIVE
#include NATIVE_FILE
#define NATIVE_TRIALS native_trials(); return
#else
#define NATIVE_TRIALS
#endif

static u32 fcap(uint64_t i) { return u32(vc_fn("from_cap", i, 0)); }
static u32 tcap(uint64_t i) { return u32(vc_fn("to_cap", i, 0)); }
static u32 fsize(uint64_t i) { return u32(vc_fn("from_size", i, 0)); }
static u32 size(uint64_t i) { return u32(vc_fn("size", i, 0)); }
static u32 old_size(uint64_t i) { return u32(vc_fn("old_size", i, 0)); }
static uint64_t foff(uint64_t i) { return vc_fn("from_off", i, 0); }
static uint64_t toff(uint64_t i) { return vc_fn("to_off", i, 0); }

template <typename T>
struct tracking : vecmem::copy {
    uint64_t from = 0, to = 0;      // heaps
    uint64_t byte = 0;              // the watched target byte
    kind k = type::unknown;
    mutable uint64_t origin = 0;    // where it came from (0: untouched)
    void watch(uint64_t f, uint64_t t) {
        from = f;
        to = t;
        k = kind(vc_range("kind", 0, 4));
    }
    void do_copy(std::size_t n, const void* f, void* t, kind c) const override {
        vc_check(vc_object(t) == to && vc_object(f) == from, "from the source to the target");
        vc_check(c == k, "rows are copied in the requested direction");
        if (byte - addr(t) < n) origin = addr(f) + (byte - addr(t));
    }
};

enum layout { ANY, ADJACENT };

// All rows of one jagged vector.
template <typename T>
struct table {
    vector_view<T>* rows;
    u32* sizes = nullptr;
    uint64_t heap;
    template <layout L, typename C, typename S, typename O>
    void fill(const char* nr, const char* ns, const char* nh, uint64_t n, bool resizable, C cap,
              S size, O off) {
        rows = vc::array<vector_view<T>>(nr, ROWS, 8);
        heap = addr(vc_mem(nh, HEAP, 64, 8));
        if (resizable) {
            sizes = vc::array<u32>(ns, ROWS);
            for (uint64_t i = 0;; ++i) {
                vc_head();
                if (i >= n) break;
                sizes[i] = size(i);
            }
        }
        uint64_t p = heap + 8;
        for (uint64_t i = 0;; ++i) {
            vc_head();
            if (i >= n) break;
            T* ptr = static_cast<T*>(vc::ptr(L == ANY ? heap + off(i) : p));
            if (resizable) new (rows + i) vector_view<T>(cap(i), sizes + i, ptr);
            else new (rows + i) vector_view<T>(cap(i), ptr);
            if (L == ADJACENT) p += uint64_t(cap(i)) * sizeof(T);
        }
    }
};

template <typename F>
u32* numbers(const char* name, uint64_t n, F f) {
    u32* r = vc::array<u32>(name, ROWS);
    for (uint64_t i = 0;; ++i) {
        vc_head();
        if (i >= n) break;
        r[i] = f(i);
    }
    return r;
}

template <typename T>
struct any_vector {
    std::vector<T> v;
    any_vector(T* a, uint64_t n) {
        v._M_impl._M_start = a;
        v._M_impl._M_finish = v._M_impl._M_end_of_storage = a + n;
    }
    ~any_vector() { v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr; }
};
