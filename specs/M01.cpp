#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/contiguous_memory_resource.cpp"
#include "core/src/memory/details/contiguous_memory_resource_impl.cpp"
//@ proof history bounded="two allocations from the initial state, four alignments"
using vc::addr;

// Construction and destruction: one upstream block of the configured size, returned once.
PROOF(lifetime) {
    vc::resource up;
    uint64_t size = vc_range("size", 0, vc::MAXB);
    try {
        vecmem::contiguous_memory_resource r(up, size);
        vc_check(up.n == 1 && up.log[0].kind == 1 && up.log[0].size == size, "one upstream block");
        vc_cover("constructed");
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "bad_alloc only from upstream");
        vc_cover("upstream failure");
        return;
    }
    vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, size, up.log[0].align), "block returned");
}

// The block is returned also when the resource has been moved from; moving keeps the state.
PROOF(moved) {
    vc::resource up;
    up.may_fail = false;
    uint64_t size = vc_range("size", 1, vc::MAXB);
    {
        vecmem::contiguous_memory_resource a(up, size);
        vecmem::contiguous_memory_resource b(std::move(a));
        vc_check(up.n == 1, "moving is free");
    }
    vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, size, up.log[0].align), "block returned once");
}

static void check_alloc(void* p, uint64_t n, uint64_t a, uint64_t b, uint64_t size) {
    uint64_t q = addr(p);
    if (n == 0) {
        vc_check(p == nullptr, "an empty request gives a null pointer");
        return;
    }
    vc_check(q != 0 && (q & (a - 1)) == 0, "aligned as requested");
    vc_check(q >= b && q + n <= b + size && q + n > q, "inside the upstream block");
}
static bool fits(uint64_t from, uint64_t n, uint64_t a, uint64_t end) {
    uint64_t q = (from + a - 1) & ~(a - 1);
    return q <= end && n <= end - q;
}

// The first request sees the whole block.
PROOF(first) {
    vc::resource up;
    up.may_fail = false;
    uint64_t size = vc_range("size", 1, vc::MAXB);
    vecmem::contiguous_memory_resource r(up, size);
    uint64_t b = up.log[0].p, n = vc_u64("n"), a = vc::alignment("a");
    try {
        void* p = vc::alloc(r, n, a);
        vc_cover("allocated");
        check_alloc(p, n, a, b, size);
    } catch (const std::bad_alloc&) {
        vc_cover("exhausted");
        vc_check(n != 0 && !fits(b, n, a, b + size), "fails only when it does not fit");
        void* p = nullptr;
        try {
            p = vc::alloc(r, size, 1);
        } catch (const std::bad_alloc&) {
            vc_unreached("a failed request consumes nothing");
        }
        vc_check(addr(p) == b, "a failed request leaves the state unchanged");
    }
    vc_check(up.n == 1, "requests never reach the upstream");
}

PROOF(history) {
    vc::resource up;
    up.may_fail = false;
    uint64_t size = vc_range("size", 1, vc::MAXB);
    vecmem::contiguous_memory_resource r(up, size);
    uint64_t b = up.log[0].p, n1 = vc_u64("n"), a1 = vc::pick("a", 1, 8, 64, 4096);
    uint64_t n2 = vc_u64("n"), a2 = vc::pick("a", 1, 4, 16, 4096);
    void* p = nullptr;
    try {
        p = vc::alloc(r, n1, a1);
    } catch (const std::bad_alloc&) {
        vc_end();
    }
    check_alloc(p, n1, a1, b, size);
    if (vc_bool("release")) {
        r.do_deallocate(p, n1, a1);
        vc_check(up.n == 1, "releases never reach the upstream");
    }
    try {
        void* q = vc::alloc(r, n2, a2);
        check_alloc(q, n2, a2, b, size);
        vc_cover("two");
        vc_check(n1 == 0 || n2 == 0 || vc::disjoint(addr(p), n1, addr(q), n2), "disjoint");
    } catch (const std::bad_alloc&) {
        vc_check(n2 != 0 && !fits(n1 ? addr(p) + n1 : b, n2, a2, b + size),
                 "second request fails only when it does not fit");
    }
}

// Two distinct resources are not interchangeable; each equals itself.
PROOF(equality) {
    vc::resource up;
    up.may_fail = false;
    vecmem::contiguous_memory_resource r(up, 64), s(up, 64);
    vc_check(static_cast<std::pmr::memory_resource&>(r).is_equal(r), "equal to itself");
    vc_check(!static_cast<std::pmr::memory_resource&>(r).is_equal(s), "different resources differ");
}
