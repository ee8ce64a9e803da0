#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/identity_memory_resource.cpp"
#include "core/src/memory/conditional_memory_resource.cpp"
#include "core/src/memory/details/conditional_memory_resource_impl.cpp"

struct pred_log {
    int n = 0;
    uint64_t size = 0, align = 0;
    bool ans = false;
};

template <typename R>
static void forward(R& r, vc::resource& up, pred_log* pl) {
    uint64_t n = vc_u64("n"), a = vc::alignment("a");
    void* p = nullptr;
    bool ok = false;
    try {
        p = vc::alloc(r, n, a);
        ok = true;
    } catch (const std::bad_alloc&) {
        vc_cover("failure");
        vc_check(n != 0, "an empty request does not fail");
        if (pl && !pl->ans) {
            vc_check(pl->n == 1 && up.n == 0, "refused without contacting the upstream");
        } else {
            vc_check(up.n == 1 && up.log[0].kind == 2 && up.log[0].size == n &&
                         up.log[0].align == a,
                     "upstream failure passed through");
        }
    }
    if (ok && n == 0) {
        vc_check(p == nullptr && up.n == 0, "an empty request gives a null pointer");
    }
    if (ok && n != 0) {
        vc_cover("success");
        vc_check(up.n == 1 && up.ev(0, 1, vc::addr(p), n, a), "request forwarded, result returned");
        vc_check(!pl || (pl->n == 1 && pl->ans), "only admitted requests are forwarded");
    }
    vc_check(!pl || n == 0 || (pl->n == 1 && pl->size == n && pl->align == a),
             "predicate sees the request");
}
template <typename R>
static void release(R& r, vc::resource& up) {
    uint64_t n = vc_u64("n"), a = vc::alignment("a"), p = vc_range("p", 1, vc::MAXB);
    r.do_deallocate(vc::ptr(p), n, a);
    vc_check(up.n == 1 && up.ev(0, 3, p, n, a), "release forwarded unchanged");
}
PROOF(identity_allocate) {
    vc::resource up;
    vecmem::identity_memory_resource r(up);
    forward(r, up, nullptr);
}
PROOF(identity_release) {
    vc::resource up;
    vecmem::identity_memory_resource r(up);
    release(r, up);
}
PROOF(identity_equality) {
    vc::resource up, up2;
    vecmem::identity_memory_resource r(up), s(up), t(up2);
    const std::pmr::memory_resource &R = r, &S = s, &T = t, &U = up;
    vc_check(R.is_equal(R) && R.is_equal(S) && !R.is_equal(T), "equal iff the upstreams are");
    vc_check(!R.is_equal(U), "not equal to its upstream");
}
PROOF(conditional_allocate) {
    vc::resource up;
    pred_log pl;
    vecmem::conditional_memory_resource r(up, [&pl](std::size_t s, std::size_t a) {
        pl.n++;
        pl.size = s;
        pl.align = a;
        return pl.ans = vc_bool("admit");
    });
    forward(r, up, &pl);
}
PROOF(conditional_release) {
    vc::resource up;
    vecmem::conditional_memory_resource r(up,
                                          [](std::size_t, std::size_t) { return vc_bool("admit"); });
    release(r, up);
}
// the predicate is consulted for every request anew
PROOF(conditional_twice) {
    vc::resource up;
    up.may_fail = false;
    int n = 0;
    bool ans = false;
    vecmem::conditional_memory_resource r(up, [&](std::size_t, std::size_t) {
        ++n;
        return ans = vc_bool("admit");
    });
    for (int i = 0; i < 2; ++i) {
        bool ok = true;
        try {
            vc::alloc(r, vc_range("n", 1, 100), 8);
        } catch (const std::bad_alloc&) {
            ok = false;
        }
        vc_check(n == i + 1 && ok == ans, "every request is judged by the predicate");
    }
    vc_cover("both");
}
