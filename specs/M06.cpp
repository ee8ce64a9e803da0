#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/debug_memory_resource.cpp"
#include "core/src/memory/details/debug_memory_resource_impl.cpp"
//@ flags -I$VERIF/specs/models/text
//@ opt nosum unroll=8
//@ trust unordered_map: the real libstdc++ code is verified along, with one bucket
//@ trust the text of error messages (std::stringstream) is not verified
//@ proof history bounded="two live blocks"
using vc::addr;

// an upstream that may misbehave: any address at all
struct wild : std::pmr::memory_resource {
    int n = 0, kind = 0;
    uint64_t p = 0, s = 0, a = 0;
    void* do_allocate(std::size_t sz, std::size_t al) override {
        ++n;
        s = sz;
        a = al;
        kind = 1;
        if (vc_bool("up_fails")) {
            kind = 2;
            throw std::bad_alloc();
        }
        p = vc_range("up_block", 16, vc::MAXB);
        return vc::ptr(p);
    }
    void do_deallocate(void* q, std::size_t sz, std::size_t al) override {
        ++n;
        kind = 3;
        p = addr(q);
        s = sz;
        a = al;
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
// 0: fine, 1: bad_alloc, 2: reported
static int request(std::pmr::memory_resource& r, uint64_t n, uint64_t a, uint64_t& p) {
    try {
        p = addr(vc::alloc(r, n, a));
        return 0;
    } catch (const std::bad_alloc&) {
        return 1;
    } catch (const std::exception&) {
        return 2;
    }
}
static int release(std::pmr::memory_resource& r, uint64_t p, uint64_t n, uint64_t a) {
    try {
        r.do_deallocate(vc::ptr(p), n, a);
        return 0;
    } catch (const std::exception&) {
        return 2;
    }
}

PROOF(history) {
    wild up;
    vecmem::debug_memory_resource r(up);
    uint64_t p[2] = {}, n[2] = {vc_range("n", 1, vc::MAXB), vc_range("n", 1, vc::MAXB)},
             a[2] = {vc::pick("a", 1, 8), vc::pick("a", 1, 16)};
    int k0 = request(r, n[0], a[0], p[0]);
    vc_check(up.n == 1 && up.s == n[0] && up.a == a[0], "request passed on unchanged");
    vc_check(k0 == (up.kind == 1 ? 0 : 1), "a first block is accepted, a failure passed on");
    if (k0) return;
    vc_check(p[0] == up.p, "result passed through");
    int k1 = request(r, n[1], a[1], p[1]);
    vc_check(up.n == 2 && up.s == n[1] && up.a == a[1], "request passed on unchanged");
    if (up.kind == 2) {
        vc_check(k1 == 1, "failure passed on");
    } else {
        bool overlap = !vc::disjoint(up.p, n[1], p[0], n[0]);
        vc_check(k1 == (overlap ? 2 : 0), "overlap reported, other blocks accepted");
        vc_check(k1 == 2 || p[1] == up.p, "result passed through");
    }
    bool two = k1 == 0;
    // an arbitrary release
    uint64_t q = vc_range("q", 1, vc::MAXB), s = vc_u64("s"), al = vc_u64("al");
    bool legal0 = q == p[0] && s == n[0] && al == a[0];
    bool legal1 = two && q == p[1] && s == n[1] && al == a[1];
    int c = release(r, q, s, al);
    vc_check(c == (legal0 || legal1 ? 0 : 2), "legal releases accepted, illegal ones reported");
    vc_check(up.n == 2 + (c == 0), "illegal releases never reach the upstream");
    if (c == 0) {
        vc_check(up.kind == 3 && up.p == q && up.s == s && up.a == al, "release passed on unchanged");
        vc_check(release(r, q, s, al) == 2 && up.n == 3, "double release reported");
        vc_cover("released");
        // the other block is still known
        if (two) {
            int o = legal0 ? 1 : 0;
            vc_check(release(r, p[o], n[o], a[o]) == 0 && up.n == 4 && up.p == p[o],
                     "the other block is still releasable");
        }
    } else {
        vc_check(release(r, p[0], n[0], a[0]) == 0 && up.n == 3, "a block survives illegal releases");
        vc_cover("reported");
    }
}
PROOF(empty) {
    wild up;
    vecmem::debug_memory_resource r(up);
    uint64_t p = 1;
    vc_check(request(r, 0, vc::alignment("a"), p) == 0 && p == 0 && up.n == 0,
             "an empty request gives a null pointer");
    vc_check(release(r, 0, vc_u64("n"), 8) == 0 && up.n == 0, "a null pointer is not released");
    vc_check(release(r, vc_range("q", 1, vc::MAXB), vc_u64("n"), vc_u64("al")) == 2 && up.n == 0,
             "unknown blocks are reported");
}
