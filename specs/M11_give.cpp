// The binary page resource: a live page is released (see M11.cpp).
//@ opt trials=1 nosum unroll=12
//@ replace _ZN6vecmem7details8round_upEm stub_round_up
//@ replace _ZN6vecmem7details4clzlEm stub_clzl
#include "M11.inc"
// Page x of superpage w, S - d being the logarithm of its size, is released.
template <int N>
static void give(uint64_t x, uint64_t d, uint64_t S, uint64_t w, bool joins) {
    world<N> e;
    e.up.expected = false;
    pages old[N];
    for (int i = 0; i < N; ++i) {
        e.add(i, i == int(w) ? S : vc_range("S", LO, HI));
        old[i] = e.k[i];
        old[i].st = static_cast<uint32_t*>(vc_snapshot(e.k[i].st));
    }
    const pages &k = e.k[w], &o = old[w];
    if (N > 1) {
        // the memory of another superpage
        const pages& z = e.k[1 - w];
        const uint64_t end = vc_range("end", 16, TOP + TOP);
        vc_assume(end == z.base + (uint64_t(1) << z.S));
        vc_assume(end <= k.base || k.base + (uint64_t(1) << S) <= z.base);
    }
    // any page
    const uint64_t g = vc_range("g", 0, PAGES - 1);
    o.assume_up(x, d);
    vc_assume(o.st[x] == OCCUPIED);
    // the pages that may change: those x is a part of, and their siblings
    uint64_t near[18], n = 0;
    for (uint64_t b = x, i = d;; --i, b = parent(b)) {
        near[n++] = b;
        if (i == 0) break;
        near[n++] = sibling(b);
    }
    if (!joins && d > 0) vc_assume(o.st[sibling(x)] != VACANT);
    g_bytes = vc_range("bytes", 0, uint64_t(1) << 63);
    // the size of the page is that of the request, rounded up, and 2^8 at least
    g_log2 = S - d == 8 ? vc_split(vc_range("log2", 0, 8), 0, 8) : S - d;
    vc_cover("start");
    e.m->deallocate(vc::ptr(k.base + ((x - ((uint64_t(1) << d) - 1)) << (S - d))), g_bytes, 1);
    vc_check(e.m->m_superpages.size() == N && e.up.freed == 0, "superpages are kept");
    for (int i = 0; i < N; ++i)
        if (i != int(w)) vc_check(e.k[i].st[g] == old[i].st[g], "other superpages are left alone");
    bool is_near = false;
    for (uint64_t i = 0; i < n; ++i) is_near = is_near | (g == near[i]);
    vc_check(is_near | (k.st[g] == o.st[g]), "other pages are left alone");
    for (uint64_t i = 0; i < n; ++i) {
        const uint64_t b = near[i];
        vc_check(k.legal(b), "the states of pages are consistent, vacant ones joined");
        vc_check(b == x || (k.st[b] == OCCUPIED) == (o.st[b] == OCCUPIED), "no other page is released");
        if (i < 2 && 2 * b + 2 < PAGES) {
            // the pages next to those that may change
            o.assume(2 * b + 1);
            o.assume(2 * b + 2);
            vc_check(k.legal(2 * b + 1) & k.legal(2 * b + 2), "and those of their parts");
        }
    }
    vc_check(k.st[x] != OCCUPIED, "the page is no longer in use");
    bool vacant = false;
    for (uint64_t b = x, i = d;; --i, b = parent(b)) {
        vacant = vacant | (k.st[b] == VACANT);
        if (i == 0) break;
    }
    vc_check(vacant, "its memory is available again");
}
// Superpages of every size: the first, second and last page of each depth.
static void locate(uint64_t lo, uint64_t hi) {
    const uint64_t S = vc_split(vc_range("S", lo, hi), lo, hi), d = vc_split(vc_range("depth", 0, 8), 0, 8);
    const uint64_t f = (uint64_t(1) << d) - 1, i = vc_split(vc_range("page", 0, 2), 0, 2);
    give<1>(f + (d == 0 ? 0 : i == 0 ? 0 : i == 1 ? 1 : f), d, S, 0, false);
}
// All pages of one superpage, joined with what is vacant around them.
static void join(uint64_t d, uint64_t lo, uint64_t hi) {
    const uint64_t f = (uint64_t(1) << d) - 1;
    give<1>(vc_split(vc_range("page", f + lo, f + hi), f + lo, f + hi), d, 21, 0, true);
}
PROOF(locate_0) { NATIVE_TRIALS; locate(16, 19); vc_cover("done"); }
PROOF(locate_1) { NATIVE_TRIALS; locate(20, 24); vc_cover("done"); }
PROOF(locate_2) { NATIVE_TRIALS; locate(25, 29); vc_cover("done"); }
PROOF(locate_3) { NATIVE_TRIALS; locate(30, 34); vc_cover("done"); }
PROOF(locate_4) { NATIVE_TRIALS; locate(35, 38); vc_cover("done"); }
PROOF(locate_5) { NATIVE_TRIALS; locate(39, 42); vc_cover("done"); }
PROOF(locate_6) { NATIVE_TRIALS; locate(43, 46); vc_cover("done"); }
PROOF(join_few) { NATIVE_TRIALS; const uint64_t d = vc_split(vc_range("d", 0, 4), 0, 4); join(d, 0, (uint64_t(1) << d) - 1); vc_cover("done"); }
PROOF(join_5) { NATIVE_TRIALS; join(5, 0, 31); vc_cover("done"); }
PROOF(join_6) { NATIVE_TRIALS; join(6, 0, 63); vc_cover("done"); }
PROOF(join_7a) { NATIVE_TRIALS; join(7, 0, 63); vc_cover("done"); }
PROOF(join_7b) { NATIVE_TRIALS; join(7, 64, 127); vc_cover("done"); }
PROOF(join_8a) { NATIVE_TRIALS; join(8, 0, 63); vc_cover("done"); }
PROOF(join_8b) { NATIVE_TRIALS; join(8, 64, 127); vc_cover("done"); }
PROOF(join_8c) { NATIVE_TRIALS; join(8, 128, 191); vc_cover("done"); }
PROOF(join_8d) { NATIVE_TRIALS; join(8, 192, 255); vc_cover("done"); }
