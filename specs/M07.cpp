#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/instrumenting_memory_resource.cpp"
#include "core/src/memory/details/instrumenting_memory_resource_impl.cpp"
//@ opt nosum unroll=8
//@ trust the clock returns arbitrary times
//@ proof request bounded="up to two hooks of each kind"
//@ proof release bounded="up to two hooks of each kind"
//@ proof history bounded="four calls"
using vc::addr;
using vecmem::instrumenting_memory_resource;
using event = instrumenting_memory_resource::memory_event;
constexpr auto ALLOC = event::type::ALLOCATION;
constexpr auto FREE = event::type::DEALLOCATION;

// one log over the upstream calls and the hooks
struct entry {
    int who;   // 0 upstream, 1.. hooks
    uint64_t p, s, a;
};
struct trace {
    entry e[12] = {};
    int n = 0;
    void add(int who, uint64_t p, uint64_t s, uint64_t a) {
        vc_check(n < 12, "no more calls than expected");
        e[n++] = entry{who, p, s, a};
    }
    bool is(int i, int who, uint64_t p, uint64_t s, uint64_t a) const {
        return i < n && e[i].who == who && e[i].p == p && e[i].s == s && e[i].a == a;
    }
};
struct upstream : std::pmr::memory_resource {
    trace& t;
    bool fail = false, odd = false;
    uint64_t p = 0;
    explicit upstream(trace& x) : t(x) {}
    void* do_allocate(std::size_t s, std::size_t a) override {
        t.add(0, 0, s, a);
        if (fail) throw std::bad_alloc();
        p = vc_range("up_block", 16, vc::MAXB);
        return vc::ptr(p);
    }
    void do_deallocate(void* q, std::size_t s, std::size_t a) override { t.add(0, addr(q), s, a); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static void hooks(instrumenting_memory_resource& r, trace& t, int n) {
    for (int k = 0; k < n; ++k) {
        r.add_pre_allocate_hook([&t, k](std::size_t s, std::size_t a) { t.add(10 + k, 0, s, a); });
        r.add_post_allocate_hook(
            [&t, k](std::size_t s, std::size_t a, void* p) { t.add(20 + k, addr(p), s, a); });
        r.add_pre_deallocate_hook(
            [&t, k](void* p, std::size_t s, std::size_t a) { t.add(30 + k, addr(p), s, a); });
    }
}
static bool same(const event& e, event::type ty, uint64_t p, uint64_t s, uint64_t a) {
    return e.m_type == ty && e.m_size == s && e.m_align == a && addr(e.m_ptr) == p;
}

PROOF(request) {
    trace t;
    upstream up(t);
    instrumenting_memory_resource r(up);
    int h = (int)vc_split(vc_range("hooks", 0, 2), 0, 2);
    hooks(r, t, h);
    uint64_t n = vc_u64("n"), a = vc_u64("a");
    up.fail = vc_bool("fails");
    uint64_t p = 0;
    bool ok = true;
    try {
        p = addr(vc::alloc(r, n, a));
    } catch (const std::bad_alloc&) {
        ok = false;
    }
    if (n == 0) {
        vc_check(ok && p == 0 && t.n == 0 && r.get_events().empty(), "an empty request leaves no trace");
        vc_cover("empty");
        return;
    }
    vc_check(ok == !up.fail && (!ok || p == up.p), "result or failure of the upstream reaches the caller");
    vc_check(t.n == 2 * h + 1, "each hook and the upstream are called exactly once");
    for (int k = 0; k < h; ++k) {
        vc_check(t.is(k, 10 + k, 0, n, a), "pre-allocation hooks run first, with the request");
        vc_check(t.is(h + 1 + k, 20 + k, ok ? p : 0, n, a), "post-allocation hooks run last, with the result");
    }
    vc_check(t.is(h, 0, 0, n, a), "request passed on unchanged");
    vc_check(r.get_events().size() == 1 && same(r.get_events()[0], ALLOC, ok ? p : 0, n, a),
             "exactly one event describes the request");
    if (ok) vc_cover("served");
    else vc_cover("failed");
}
PROOF(release) {
    trace t;
    upstream up(t);
    instrumenting_memory_resource r(up);
    int h = (int)vc_split(vc_range("hooks", 0, 2), 0, 2);
    hooks(r, t, h);
    uint64_t p = vc_u64("p"), n = vc_u64("n"), a = vc_u64("a");
    r.do_deallocate(vc::ptr(p), n, a);
    if (p == 0) {
        vc_check(r.get_events().size() == 0 && t.n == 0, "releasing nothing leaves no trace");
        return;
    }
    vc_check(t.n == h + 1, "each hook and the upstream are called exactly once");
    for (int k = 0; k < h; ++k) vc_check(t.is(k, 30 + k, p, n, a), "pre-deallocation hooks run first");
    vc_check(t.is(h, 0, p, n, a), "release passed on unchanged");
    vc_check(r.get_events().size() == 1 && same(r.get_events()[0], FREE, p, n, a),
             "exactly one event describes the release");
    vc_cover("done");
}
PROOF(history) {
    trace t;
    upstream up(t);
    instrumenting_memory_resource r(up);
    uint64_t p[4], n[4], a[4];
    bool al[4];
    for (int i = 0; i < 4; ++i) {
        al[i] = vc_split(vc_range("allocate", 0, 1), 0, 1);
        n[i] = vc_range("n", 1, ~uint64_t(0));
        a[i] = vc_u64("a");
        p[i] = 0;
        if (al[i]) {
            up.fail = vc_bool("fails");
            try {
                p[i] = addr(vc::alloc(r, n[i], a[i]));
            } catch (const std::bad_alloc&) {
            }
        } else {
            p[i] = vc_range("p", 1, vc::MAXB);
            r.do_deallocate(vc::ptr(p[i]), n[i], a[i]);
        }
    }
    vc_check(t.n == 4 && r.get_events().size() == 4, "one event and one upstream call each");
    for (int i = 0; i < 4; ++i) {
        vc_check(same(r.get_events()[i], al[i] ? ALLOC : FREE, p[i], n[i], a[i]), "events in order");
    }
    vc_cover("done");
}
