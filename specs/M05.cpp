#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/coalescing_memory_resource.cpp"
#include "core/src/memory/details/coalescing_memory_resource_impl.cpp"
//@ opt nosum unroll=8
//@ trust unordered_map: the real libstdc++ code is verified along, with one bucket
//@ proof order bounded="up to four upstreams"
//@ proof history bounded="two upstreams, two blocks and one reused address"
using vc::addr;
using vecmem::coalescing_memory_resource;
using refs = std::vector<std::reference_wrapper<vecmem::memory_resource>>;

static coalescing_memory_resource make(vc::resource* u, int k) {
    refs v;
    v.reserve(4);
    for (int i = 0; i < k; ++i) v.push_back(u[i]);
    return coalescing_memory_resource(std::move(v));
}

PROOF(order) {
    vc::resource u[4];
    int k = (int)vc_split(vc_range("upstreams", 0, 4), 0, 4);
    coalescing_memory_resource r = make(u, k);
    uint64_t n = vc_u64("n"), a = vc::pick("a", 1, 8, 4096);
    void* p = nullptr;
    bool ok = true;
    try {
        p = vc::alloc(r, n, a);
    } catch (const std::bad_alloc&) {
        ok = false;
    }
    if (n == 0) {
        vc_check(ok && p == nullptr, "an empty request gives a null pointer");
        for (int i = 0; i < 4; ++i) vc_check(u[i].n == 0, "an empty request contacts nobody");
        return;
    }
    int served = k;
    for (int i = 0; i < k; ++i) {
        if (served < i) {
            vc_check(u[i].n == 0, "later upstreams are not contacted");
            continue;
        }
        vc_check(u[i].n == 1 && u[i].log[0].size == n && u[i].log[0].align == a,
                 "offered in order and unchanged");
        if (u[i].log[0].kind == 1) served = i;
    }
    vc_check(ok == (served < k), "fails only after all upstreams have failed");
    if (ok) {
        vc_check(addr(p) == u[served].log[0].p, "result passed through");
        vc_cover("served");
        r.do_deallocate(p, n, a);
        for (int i = 0; i < k; ++i) {
            vc_check(i == served ? u[i].n == 2 && u[i].ev(1, 3, addr(p), n, a) : u[i].n <= 1,
                     "released unchanged to the supplier only");
        }
    } else {
        vc_cover("all failed");
    }
}

// A failure that is not bad_alloc is not swallowed.
struct odd : std::pmr::memory_resource {
    void* do_allocate(std::size_t, std::size_t) override { throw std::logic_error("odd"); }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
PROOF(history) {
    vc::resource u[2];
    coalescing_memory_resource r = make(u, 2);
    void* p[3] = {};
    int own[3] = {-1, -1, -1};
    uint64_t n[3];
    int seen[2] = {0, 0};
    for (int i = 0; i < 3; ++i) n[i] = 64 * (i + 1);
    u[1].may_fail = false;
    int f = (int)vc_split(vc_range("first", 0, 1), 0, 1);
    auto request = [&](int i) {
        try {
            p[i] = vc::alloc(r, n[i], 8);
            own[i] = u[0].n > seen[0] && u[0].log[u[0].n - 1].kind == 1 ? 0 : 1;
            vc_check(u[own[i]].log[u[own[i]].n - 1].p == addr(p[i]), "result passed through");
        } catch (const std::bad_alloc&) {
            vc_check(false, "fails only after all upstreams have failed");
        }
        seen[0] = u[0].n;
        seen[1] = u[1].n;
    };
    auto release = [&](int i) {
        if (own[i] < 0) return;
        r.do_deallocate(p[i], n[i], 8);
        vc_check(u[0].n + u[1].n == seen[0] + seen[1] + 1 &&
                     u[own[i]].ev(u[own[i]].n - 1, 3, addr(p[i]), n[i], 8),
                 "released unchanged to the owner");
        seen[0] = u[0].n;
        seen[1] = u[1].n;
    };
    request(0);
    request(1);
    if (own[0] >= 0 && own[1] >= 0) vc_assume(vc::disjoint(addr(p[0]), n[0], addr(p[1]), n[1]));
    release(f);
    request(2);
    if (own[1 - f] >= 0 && own[2] >= 0)
        vc_assume(vc::disjoint(addr(p[1 - f]), n[1 - f], addr(p[2]), n[2]));
    release(1 - f);
    release(2);
    vc_cover("end");
}
