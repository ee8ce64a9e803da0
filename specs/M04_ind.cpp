// Inductive step: the record may hold any number of live blocks of either upstream.
//@ inductive
//@ flags -I$VERIF/specs/models
//@ trust std::unordered_map satisfies the contract in specs/models/unordered_map
//@ trust an upstream never returns the address of a block that is still live
#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/choice_memory_resource.cpp"
#include "core/src/memory/details/choice_memory_resource_impl.cpp"
using vc::addr;

PROOF(release) {
    vc::resource A("A"), B("B");
    vecmem::choice_memory_resource r(
        [&](std::size_t, std::size_t) -> std::pmr::memory_resource& { return A; });
    auto& m = r.m_impl->m_allocations;
    m.vc_arbitrary();
    auto& e = m.vc_entry();
    vc::resource* owner = vc_bool("owner_A") ? &A : &B;
    e.second = *owner;
    uint64_t p = addr(e.first), n = vc_u64("n"), a = vc::alignment("a");
    vc_assume(p != 0);
    // another live block keeps its owner
    auto& f = m.vc_entry();
    uint64_t p2 = addr(f.first);
    vc_assume(p2 != p && p2 != 0);
    vc::resource* owner2 = vc_bool("owner_A") ? &A : &B;
    f.second = *owner2;
    r.do_deallocate(vc::ptr(p), n, a);
    vc_check(A.n + B.n == 1 && owner->ev(0, 3, p, n, a), "released unchanged to the owner");
    r.do_deallocate(vc::ptr(p2), n, a);
    vc_check(A.n + B.n == 2 && owner2->ev(owner2->n - 1, 3, p2, n, a),
             "the other block is still owned by its resource");
    vc_cover("both");
}
PROOF(allocate) {
    vc::resource A("A"), B("B");
    vc::resource* chosen = nullptr;
    vecmem::choice_memory_resource r(
        [&](std::size_t, std::size_t) -> std::pmr::memory_resource& {
            chosen = vc_bool("choose_A") ? &A : &B;
            return *chosen;
        });
    auto& m = r.m_impl->m_allocations;
    m.vc_arbitrary();
    m.fresh_keys = true;
    auto& f = m.vc_entry();
    uint64_t p2 = addr(f.first);
    vc_assume(p2 != 0);
    vc::resource* owner2 = vc_bool("owner_A") ? &A : &B;
    f.second = *owner2;
    uint64_t n = vc_range("n", 1, vc::MAXB), a = vc::alignment("a");
    void* p = nullptr;
    size_t before = m.size();
    try {
        p = vc::alloc(r, n, a);
    } catch (const std::bad_alloc&) {
        vc_check(m.size() == before, "nothing recorded on failure");
        r.do_deallocate(vc::ptr(p2), 8, 8);
        vc_check(owner2->ev(owner2->n - 1, 3, p2, 8, 8), "earlier blocks keep their owner");
        return;
    }
    vc_assume(addr(p) != p2);
    vc::resource* owner = chosen;
    if (vc_bool("order")) {
        r.do_deallocate(vc::ptr(p2), 8, 8);
        vc_check(owner2->ev(owner2->n - 1, 3, p2, 8, 8), "earlier blocks keep their owner");
    }
    r.do_deallocate(p, n, a);
    vc_check(owner->ev(owner->n - 1, 3, addr(p), n, a), "the new block belongs to the chosen one");
    vc_cover("done");
}
