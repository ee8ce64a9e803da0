#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/synchronized_memory_resource.cpp"
//@ trust pthread_mutex_lock and pthread_mutex_unlock give mutual exclusion
using vc::addr;
using vecmem::synchronized_memory_resource;

struct watched : std::pmr::memory_resource {
    int n = 0, kind = 0;
    uint64_t p = 0, s = 0, a = 0, locks = 0, lock = 0;
    std::size_t id = 0;
    bool fail = false, odd = false;
    void note(int k, uint64_t q, uint64_t sz, uint64_t al) {
        ++n;
        kind = k;
        p = q;
        s = sz;
        a = al;
        locks = vc_locks();
        lock = vc_lock_addr();
    }
    void* do_allocate(std::size_t sz, std::size_t al) override {
        note(1, vc_u64("block"), sz, al);
        if (fail) throw std::bad_alloc();
        if (odd) throw std::logic_error("odd");
        return vc::ptr(p);
    }
    void do_deallocate(void* q, std::size_t sz, std::size_t al) override { note(3, addr(q), sz, al); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

PROOF(step) {
    watched up;
    synchronized_memory_resource r(up);
    uint64_t lock = 0;
    // any two calls one after the other: the second finds the lock free again
    for (int i = 0; i < 2; ++i) {
        uint64_t n = vc_u64("n"), a = vc_u64("a");
        up.fail = vc_bool("fails");
        up.odd = vc_bool("odd");
        if (vc_bool("allocate")) {
            int how = 0;
            void* q = nullptr;
            try {
                q = vc::alloc(r, n, a);
            } catch (const std::bad_alloc&) {
                how = 1;
            } catch (const std::logic_error&) {
                how = 2;
            }
            vc_check(up.n == i + 1 && up.kind == 1 && up.s == n && up.a == a, "request passed on unchanged, once");
            vc_check(how == (up.fail ? 1 : up.odd ? 2 : 0), "failures passed through");
            vc_check(how || addr(q) == up.p, "result passed through");
            if (how) vc_cover("failed");
        } else {
            uint64_t p = vc_u64("p");
            r.do_deallocate(vc::ptr(p), n, a);
            vc_check(up.n == i + 1 && up.kind == 3 && up.p == p && up.s == n && up.a == a,
                     "release passed on unchanged, once");
        }
        vc_check(up.locks == 1, "upstream runs under the lock");
        vc_check(i == 0 || up.lock == lock, "always the same lock");
        vc_check(vc_locks() == 0, "the lock is free again afterwards");
        lock = up.lock;
    }
    vc_check(lock >= addr(&r) && lock < addr(&r) + sizeof(r), "the lock belongs to the resource");
    vc_cover("done");
}
PROOF(copies) {
    watched up, other;
    synchronized_memory_resource r(up), s(other), c(r);
    vc_check(c.is_equal(r) && r.is_equal(up) && !r.is_equal(s) && !r.is_equal(other),
             "equal exactly to resources with the same upstream");
    c.do_deallocate(vc::ptr(1), 2, 4);
    vc_check(up.n == 1 && up.locks == 1, "copies use the same upstream, under a lock");
    s = r;
    s.do_deallocate(vc::ptr(1), 2, 4);
    vc_check(up.n == 2 && other.n == 0 && up.locks == 1, "assignment changes the upstream");
    synchronized_memory_resource t(std::move(s));
    t.do_deallocate(vc::ptr(1), 2, 4);
    c = std::move(t);
    c.do_deallocate(vc::ptr(1), 2, 4);
    vc_check(up.n == 4 && up.locks == 1 && vc_locks() == 0, "moves keep the upstream");
    vc_cover("done");
}
