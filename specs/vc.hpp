// Specification interface: contracts are written as C++ functions over the real code.
//   vc_u64/vc_u32/vc_u8/vc_bool/vc_range : an arbitrary value (universally quantified)
//   vc_assume : precondition / assumed contract      vc_check : proof obligation
//   vc_mem    : a fresh object with arbitrary contents
//   vc_head   : start of a loop body that is not to be peeled (no meaning of its own)
//   vc_object : address of the object p points into (not available natively)
//   vc_watch  : instantiate facts about all loop iterations at this index
//   vc_cover  : must be reachable (guards against vacuous preconditions)
// Natively (replay) the same functions take their values from the counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory_resource>
#include <new>
#include <stdexcept>

extern "C" {
uint64_t vc_u64(const char* name);
uint32_t vc_u32(const char* name);
uint8_t vc_u8(const char* name);
bool vc_bool(const char* name);
uint64_t vc_range(const char* name, uint64_t lo, uint64_t hi);
void vc_assume(bool c);
void vc_check(bool c, const char* label);
void vc_cover(const char* label);
void vc_unreached(const char* label);
void vc_end();
void vc_watch(uint64_t idx);
__attribute__((noduplicate)) void vc_head();
uint64_t vc_object(const void* p);
void* vc_mem(const char* name, uint64_t bytes, uint64_t align, uint64_t granule);
void* vc_snapshot(const void* p);
void vc_havoc(void* p, uint64_t bytes, uint64_t granule);
void vc_shared(void* p, uint64_t n, uint64_t rely);
void vc_quiet(void* p, bool on);
uint64_t vc_atom_count();
uint64_t vc_atom_kind(uint64_t k);
uint64_t vc_atom_order(uint64_t k);
uint64_t vc_atom_addr(uint64_t k);
uint64_t vc_atom_value(uint64_t k);
uint64_t vc_atom_old(uint64_t k);
uint64_t vc_atom_new(uint64_t k);
void vc_shared_range(void* p, uint64_t lo, uint64_t hi);
void vc_atom_clear();
uint64_t vc_split(uint64_t v, uint64_t lo, uint64_t hi);
uint64_t vc_locks();
uint64_t vc_lock_addr();
uint64_t vc_live();
uint64_t vc_fn(const char* name, uint64_t x, uint64_t y);
uint64_t vc_qvar();
void vc_forall(uint64_t qvar, bool fact);
}

#define PROOF(name) extern "C" void proof_##name()

namespace vc {

constexpr uint64_t MAXN = uint64_t(1) << 32;   // element counts (32-bit size types)
constexpr uint64_t MAXB = uint64_t(1) << 46;   // bytes in one object

inline uint64_t addr(const void* p) { return reinterpret_cast<uint64_t>(p); }
inline void* ptr(uint64_t a) { return reinterpret_cast<void*>(a); }

// An arbitrary power of two (any valid alignment), up to 2^maxlog.
inline uint64_t alignment(const char* name, uint64_t maxlog = 40) {
    return uint64_t(1) << vc_split(vc_range(name, 0, maxlog), 0, maxlog);
}
// do_allocate is called directly: libstdc++ declares memory_resource::allocate returns_nonnull,
// so the compiler may fold a comparison of its (null, for zero bytes) result.
inline void* alloc(std::pmr::memory_resource& r, uint64_t n, uint64_t a) {
    return r.do_allocate(n, a);
}
// One of the given values (case split).
template <typename... T>
uint64_t pick(const char* name, T... vs) {
    const uint64_t a[] = {uint64_t(vs)...};
    return a[vc_split(vc_range(name, 0, sizeof...(T) - 1), 0, sizeof...(T) - 1)];
}
inline bool is_pow2(uint64_t a) { return a != 0 && (a & (a - 1)) == 0; }
inline bool disjoint(uint64_t a, uint64_t an, uint64_t b, uint64_t bn) {
    return a + an <= b || b + bn <= a;
}

template <typename T>
T* array(const char* name, uint64_t n, uint64_t granule = sizeof(T)) {
    return static_cast<T*>(vc_mem(name, n * sizeof(T), alignof(T), granule));
}

// Assumed contract of an upstream memory resource (abstract dependency): allocate(s, a) either
// throws std::bad_alloc or returns a non-null block aligned to a, of s bytes, disjoint from all
// of its live blocks; deallocate takes back exactly such a block.  Every call is logged.
struct event {
    int kind;   // 1 = allocate ok, 2 = allocate threw, 3 = deallocate
    uint64_t p, size, align;
};
struct resource : std::pmr::memory_resource {
    static constexpr int N = 8;
    event log[N] = {};
    int n = 0;
    bool may_fail = true;
    bool real = false;         // hand out accessible memory (instead of bare addresses)
    const char* name = "up";
    // one extra live block of an arbitrary earlier history
    uint64_t live_p = 0, live_n = 0;

    resource() = default;
    explicit resource(const char* nm) : name(nm) {}
    void* do_allocate(std::size_t s, std::size_t a) override {
        vc_check(is_pow2(a), "upstream is asked for a power-of-two alignment");
        vc_check(n < N, "bounded number of upstream calls");
        event& e = log[n++];
        e.size = s;
        e.align = a;
        if (may_fail && vc_bool("up_fails")) {
            e.kind = 2;
            throw std::bad_alloc();
        }
        e.kind = 1;
        if (real) {
            void* q = vc_mem(name, s, a, 1);
            e.p = addr(q);
            return q;
        }
        uint64_t p = vc_range("up_block", 16, MAXB);
        vc_assume(s <= MAXB && (p & (a - 1)) == 0);
        for (int i = 0; i + 1 < n; ++i) {
            if (log[i].kind == 1 && is_live(i)) {
                vc_assume(disjoint(p, s, log[i].p, log[i].size));
            }
        }
        if (live_n) {
            vc_assume(disjoint(p, s, live_p, live_n));
        }
        e.p = p;
        return ptr(p);
    }
    bool is_live(int i) const {
        for (int k = i + 1; k < n; ++k) {
            if (log[k].kind == 3 && log[k].p == log[i].p) {
                return false;
            }
        }
        return true;
    }
    void do_deallocate(void* p, std::size_t s, std::size_t a) override {
        vc_check(n < N, "bounded number of upstream calls");
        event& e = log[n++];
        e.kind = 3;
        e.p = addr(p);
        e.size = s;
        e.align = a;
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
        return this == &o;
    }
    int count(int kind) const {
        int c = 0;
        for (int i = 0; i < n; ++i) {
            c += log[i].kind == kind;
        }
        return c;
    }
    bool ev(int i, int kind, uint64_t p, uint64_t s, uint64_t a) const {
        return i < n && log[i].kind == kind && log[i].p == p && log[i].size == s &&
               log[i].align == a;
    }
};

}  // namespace vc
