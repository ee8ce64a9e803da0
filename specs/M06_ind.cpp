// Inductive step: any number of live blocks is known.
//@ inductive
//@ flags -I$VERIF/specs/models -I$VERIF/specs/models/text
//@ trust std::unordered_map satisfies the contract in specs/models/unordered_map
//@ trust the text of error messages (std::stringstream) is not verified
#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/debug_memory_resource.cpp"
#include "core/src/memory/details/debug_memory_resource_impl.cpp"
using vc::addr;

// invariant: the record holds exactly the live blocks (address, size, alignment), pairwise disjoint
PROOF(release) {
    vc::resource up;
    vecmem::debug_memory_resource r(up);
    auto& m = r.m_impl->m_allocations;
    m.vc_arbitrary();
    auto& e = m.vc_entry();
    auto& f = m.vc_entry();
    uint64_t p = addr(e.first), s = e.second.first, a = e.second.second;
    uint64_t p2 = addr(f.first), s2 = f.second.first, a2 = f.second.second;
    vc_assume(p != 0 && p2 != 0 && p != p2);
    uint64_t q = vc_range("q", 1, vc::MAXB), t = vc_u64("t"), b = vc_u64("b");
    bool ok = true;
    size_t before = m.size();
    vc_assume(q == p || (q != p2 && m.find(vc::ptr(q)) == m.end()));
    try {
        r.do_deallocate(vc::ptr(q), t, b);
    } catch (const std::logic_error&) {
        ok = false;
    }
    vc_check(ok == (q == p && t == s && b == a), "legal releases accepted, illegal ones reported");
    vc_check(up.n == (ok ? 1 : 0), "illegal releases never reach the upstream");
    vc_check(m.size() == before - ok, "exactly the released block is forgotten");
    if (ok) {
        vc_check(up.ev(0, 3, q, t, b), "release passed on unchanged");
        vc_cover("released");
        try {
            r.do_deallocate(vc::ptr(q), t, b);
            vc_unreached("double release reported");
        } catch (const std::logic_error&) {
        }
    }
    r.do_deallocate(vc::ptr(p2), s2, a2);
    vc_check(up.n == (ok ? 2 : 1) && up.log[up.n - 1].p == p2, "other blocks stay releasable");
    vc_cover("done");
}
PROOF(allocate) {
    vc::resource up;
    vecmem::debug_memory_resource r(up);
    auto& m = r.m_impl->m_allocations;
    m.vc_arbitrary();
    m.fresh_keys = true;
    auto& f = m.vc_entry();
    uint64_t p2 = addr(f.first), s2 = f.second.first, a2 = f.second.second;
    vc_assume(p2 > 0 && p2 < vc::MAXB && s2 > 0 && s2 < vc::MAXB);
    uint64_t n = vc_range("n", 1, vc::MAXB), a = vc::pick("a", 1, 64);
    size_t before = m.size();
    vc_watch(m.ghost[0]);
    void* p = nullptr;
    try {
        p = vc::alloc(r, n, a);
    } catch (const std::bad_alloc&) {
        vc_check(up.log[0].kind == 2 && m.size() == before, "failure passed on");
        return;
    } catch (const std::logic_error&) {
        vc_check(m.size() == before, "an overlapping block is not recorded");
        vc_cover("overlap");
        return;
    }
    vc_check(up.n == 1 && up.ev(0, 1, addr(p), n, a), "request and result passed on");
    vc_check(vc::disjoint(addr(p), n, p2, s2), "an overlap with any live block is reported");
    vc_check(m.size() == before + 1, "one block recorded");
    r.do_deallocate(p, n, a);
    vc_check(up.n == 2 && up.ev(1, 3, addr(p), n, a), "the new block is releasable");
    r.do_deallocate(vc::ptr(p2), s2, a2);
    vc_check(up.n == 3 && up.ev(2, 3, p2, s2, a2), "earlier blocks stay releasable");
    vc_cover("done");
}
