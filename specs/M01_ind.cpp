// Inductive step over the private state: any amount of the block may have been handed out.
//@ inductive
#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/contiguous_memory_resource.cpp"
#include "core/src/memory/details/contiguous_memory_resource_impl.cpp"

PROOF(step) {
    vc::resource up;
    up.may_fail = false;
    uint64_t size = vc_range("size", 1, vc::MAXB);
    vecmem::contiguous_memory_resource r(up, size);
    uint64_t b = up.log[0].p;
    uint64_t used = vc_range("used", 0, vc::MAXB);
    vc_assume(used <= size);
    r.m_impl->m_next = vc::ptr(b + used);       // invariant: [b, b + used) is handed out
    uint64_t n = vc_u64("n"), a = vc::alignment("a");
    try {
        void* p = vc::alloc(r, n, a);
        uint64_t nx = vc::addr(r.m_impl->m_next);
        if (n == 0) {
            vc_check(p == nullptr, "an empty request gives a null pointer");
            vc_check(nx == b + used, "an empty request consumes nothing");
        } else {
            uint64_t q = vc::addr(p);
            vc_cover("allocated");
            vc_check((q & (a - 1)) == 0, "aligned");
            vc_check(q >= b + used && q + n <= b + size && q + n > q, "fresh and inside");
            vc_check(nx >= q + n && nx <= b + size, "invariant kept");
            vc_check(nx == q + n, "nothing else is consumed");
        }
        vc_check(up.n == 1, "no upstream traffic");
        r.do_deallocate(p, n, a);
        vc_check(up.n == 1, "releases never reach the upstream");
        vc_check(vc::addr(r.m_impl->m_next) == nx, "releases change nothing");
    } catch (const std::bad_alloc&) {
        vc_cover("exhausted");
        uint64_t q = (b + used + a - 1) & ~(a - 1);
        vc_check(n != 0 && (q > b + size || n > b + size - q), "fails only when it does not fit");
        vc_check(vc::addr(r.m_impl->m_next) == b + used, "unchanged on failure");
    }
}
