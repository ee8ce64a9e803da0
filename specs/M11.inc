#include "vc.hpp"
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <vector>
#ifdef VC_NATIVE
#define NATIVE_TRIALS native_trials(); return
#else
#define NATIVE_TRIALS
#endif
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/details/binary_page_memory_resource_impl.cpp"
#include "core/src/memory/binary_page_memory_resource.cpp"
#ifdef VC_NATIVE
#include "M11_native.inc"
#endif
using vc::addr;
using impl = vecmem::details::binary_page_memory_resource_impl;
using superpage = impl::superpage;
using page_ref = impl::page_ref;
using page_state = impl::page_state;
constexpr uint64_t PAGES = 511, LO = 16, HI = 46, TOP = uint64_t(1) << 46;
enum : uint32_t { OCCUPIED, VACANT, SPLIT, NONE };

// Contracts of the integer helpers (proved in M13).
static uint64_t g_bytes, g_log2;
extern "C" uint64_t stub_round_up(uint64_t x) {
    vc_check(x == g_bytes, "the size asked for is rounded up");
    return g_log2;
}
extern "C" uint64_t stub_clzl(uint64_t x) {
    vc_check(x >= 1 && x <= PAGES, "a page number");
    for (uint64_t k = 0; k < 8; ++k)
        if (x < uint64_t(2) << k) return 63 - k;
    return 63 - 8;
}
static uint64_t parent(uint64_t p) { return (p - 1) / 2; }
static uint64_t sibling(uint64_t p) { return ((p - 1) ^ 1) + 1; }
static uint64_t page_at(uint64_t d, const char* name) {
    return (uint64_t(1) << d) - 1 + vc_range(name, 0, (uint64_t(1) << d) - 1);
}
static uint64_t depth_of(uint64_t p) { return 63 - stub_clzl(p + 1); }

struct pages {
    superpage* sp;
    uint32_t* st;
    uint64_t base, S;
    // the invariant, at page p
    bool legal(uint64_t p) const {
        if (p == 0) return (st[0] != NONE) & (st[0] <= 3);
        return (st[p] <= 3) & ((st[p] == NONE) == (st[parent(p)] != SPLIT)) &
               ((p < PAGES / 2) | (st[p] != SPLIT)) & !((st[p] == VACANT) & (st[sibling(p)] == VACANT));
    }
    void assume(uint64_t p) const { vc_assume(legal(p)); }
    // ... at a page and those it is a part of
    void assume_up(uint64_t p, uint64_t d) const {
        for (;; --d, p = parent(p)) {
            assume(p);
            if (d == 0) return;
            assume(sibling(p));
        }
    }
};
struct supplier : vecmem::memory_resource {
    uint64_t n = 0, size = 0, p = 0, freed = 0;
    bool failed = false, expected = true;
    void* do_allocate(std::size_t s, std::size_t) override {
        ++n;
        vc_assume(expected);
        if ((s > TOP) | vc_bool("fails")) {
            failed = true;
            throw std::bad_alloc();
        }
        size = s;
        p = vc_range("superpage", 16, TOP);
        return vc::ptr(p);
    }
    void do_deallocate(void* q, std::size_t s, std::size_t) override {
        vc_check(n == 1 && addr(q) == p && s == size, "given back as it was received");
        ++freed;
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
template <int N>
struct world {
    supplier up;
    impl* m;
    pages k[N + 1];
    world() {
        m = static_cast<impl*>(vc_mem("resource", sizeof(impl), 16, 8));
        *reinterpret_cast<vecmem::memory_resource**>(m) = &up;
        superpage* v = static_cast<superpage*>(::operator new((N + 1) * sizeof(superpage)));
        auto& mv = m->m_superpages;
        mv._M_impl._M_start = v;
        mv._M_impl._M_finish = v + N;
        mv._M_impl._M_end_of_storage = v + N + 1;
    }
    void add(int i, uint64_t S) {
        pages& x = k[i];
        x.S = S;
        x.sp = m->m_superpages._M_impl._M_start + i;
        x.sp->m_size = S;
        x.sp->m_min_page_size = S - 8;
        x.sp->m_num_pages = PAGES;
        x.st = vc::array<uint32_t>("states", PAGES);
        x.base = vc_range("base", 16, TOP);
        x.sp->m_pages._M_t._M_ptr() = reinterpret_cast<page_state*>(x.st);
        x.sp->m_memory._M_t._M_ptr() = reinterpret_cast<std::byte*>(x.base);
    }
};


