// Inductive step: the record may hold any number of live blocks of any upstream.
//@ inductive
//@ flags -I$VERIF/specs/models
//@ trust std::unordered_map satisfies the contract in specs/models/unordered_map
//@ trust an upstream never returns the address of a block that is still live
#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/coalescing_memory_resource.cpp"
#include "core/src/memory/details/coalescing_memory_resource_impl.cpp"
using vc::addr;
using refs = std::vector<std::reference_wrapper<vecmem::memory_resource>>;

PROOF(step) {
    vc::resource A("A"), B("B");
    refs v;
    v.reserve(2);
    v.push_back(A);
    v.push_back(B);
    vecmem::coalescing_memory_resource r(std::move(v));
    auto& m = r.m_impl->m_allocations;
    m.vc_arbitrary();
    m.fresh_keys = true;
    auto& f = m.vc_entry();
    uint64_t p2 = addr(f.first);
    vc_assume(p2 != 0);
    vc::resource* owner2 = vc_bool("owner_A") ? &A : &B;
    f.second = *owner2;
    uint64_t n = vc_range("n", 1, vc::MAXB), a = vc::pick("a", 1, 16, 4096);
    if (vc_bool("allocate")) {
        void* p = nullptr;
        size_t before = m.size();
        try {
            p = vc::alloc(r, n, a);
            vc_assume(addr(p) != p2);
            vc::resource* owner = A.log[0].kind == 1 ? &A : &B;
            if (vc_bool("now")) {
                r.do_deallocate(p, n, a);
                vc_check(owner->ev(owner->n - 1, 3, addr(p), n, a), "released to the supplier");
            }
            vc_cover("allocated");
        } catch (const std::bad_alloc&) {
            vc_check(m.size() == before, "nothing recorded on failure");
        }
    }
    int na = A.n, nb = B.n;
    r.do_deallocate(vc::ptr(p2), n, a);
    vc_check(A.n + B.n == na + nb + 1 && owner2->ev(owner2->n - 1, 3, p2, n, a),
             "earlier blocks keep their owner");
    vc_cover("done");
}
