#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/choice_memory_resource.cpp"
#include "core/src/memory/details/choice_memory_resource_impl.cpp"
//@ trust unordered_map: the real libstdc++ code is verified along, with one bucket
//@ opt nosum
//@ proof history bounded="two blocks and one reused address"
using vc::addr;

struct fixture {
    vc::resource A{"A"}, B{"B"};
    int asked = 0;
    uint64_t size = 0, align = 0;
    vc::resource* chosen = nullptr;
    vecmem::choice_memory_resource r;
    fixture()
        : r([this](std::size_t s, std::size_t a) -> std::pmr::memory_resource& {
              ++asked;
              size = s;
              align = a;
              chosen = vc_bool("choose_A") ? &A : &B;
              return *chosen;
          }) {}
    // a request, with its contract
    void* request(uint64_t n, uint64_t a, vc::resource*& owner) {
        int na = A.n, nb = B.n, q = asked;
        void* p = nullptr;
        bool ok = true;
        try {
            p = vc::alloc(r, n, a);
        } catch (const std::bad_alloc&) {
            ok = false;
        }
        if (n == 0) {
            vc_check(ok && p == nullptr && A.n == na && B.n == nb,
                     "an empty request contacts nobody");
            owner = nullptr;
            return p;
        }
        vc_check(asked == q + 1 && size == n && align == a, "decision asked once, with the request");
        vc_check((chosen == &A) == (A.n == na + 1) && (chosen == &B) == (B.n == nb + 1) &&
                     A.n + B.n == na + nb + 1,
                 "served by the chosen resource only");
        const vc::event& e = chosen->log[chosen->n - 1];
        vc_check(e.size == n && e.align == a, "request passed on unchanged");
        vc_check(ok == (e.kind == 1), "failure passed through");
        if (ok) {
            vc_check(e.p == addr(p), "result passed through");
        }
        owner = ok ? chosen : nullptr;
        return p;
    }
    void release(void* p, uint64_t n, uint64_t a, vc::resource* owner) {
        int na = A.n, nb = B.n, q = asked;
        r.do_deallocate(p, n, a);
        vc_check(asked == q, "no decision for a release");
        vc_check(A.n + B.n == na + nb + 1 &&
                     owner->ev((owner == &A ? na : nb), 3, addr(p), n, a),
                 "released unchanged to the owner");
    }
};

PROOF(single) {
    fixture f;
    uint64_t n = vc_u64("n"), a = vc::alignment("a");
    vc::resource* o;
    void* p = f.request(n, a, o);
    if (o) {
        f.release(p, n, a, o);
        vc_cover("released");
    } else {
        f.r.do_deallocate(nullptr, n, a);
        vc_check(f.A.count(3) + f.B.count(3) == 0, "nothing to release");
    }
}
PROOF(history) {
    fixture f;
    uint64_t n[3] = {vc_range("n", 1, 1 << 20), vc_range("n", 1, 1 << 20), vc_range("n", 1, 1 << 20)};
    vc::resource* o[3];
    void* p[3];
    for (int i = 0; i < 2; ++i) {
        p[i] = f.request(n[i], 8, o[i]);
    }
    if (o[0] && o[1]) {
        vc_assume(vc::disjoint(addr(p[0]), n[0], addr(p[1]), n[1]));
    }
    int first = vc_bool("first") ? 1 : 0;
    if (o[first]) {
        f.release(p[first], n[first], 8, o[first]);
    }
    // a third block, possibly at the same address but from the other resource
    p[2] = f.request(n[2], 8, o[2]);
    if (o[2] && o[1 - first]) {
        vc_assume(vc::disjoint(addr(p[2]), n[2], addr(p[1 - first]), n[1 - first]));
    }
    if (o[2]) {
        f.release(p[2], n[2], 8, o[2]);
    }
    if (o[1 - first]) {
        f.release(p[1 - first], n[1 - first], 8, o[1 - first]);
        vc_cover("all");
    }
}
