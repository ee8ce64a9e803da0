// The binary page resource, by induction over the state of its superpages: any page states which
// satisfy the invariant in M11.inc; allocation.
//@ opt trials=1 nopeel unroll=12
//@ replace _ZN6vecmem7details8round_upEm stub_round_up
//@ replace _ZN6vecmem7details4clzlEm stub_clzl
//@ replace .*page_ref8get_addrEv stub_addr
#include "M11.inc"
static superpage* g_sp;
static uint64_t g_page, g_addrs;
extern "C" void* stub_addr(const page_ref* r) {
    g_sp = &r->m_superpage.get();
    g_page = r->m_page;
    ++g_addrs;
    return vc::ptr(4096);
}
// The resource has N superpages, whose sizes relate to the request as given (9: too large or too small).
template <int N>
static void take(bool fresh, uint64_t rel0, uint64_t rel1 = 9, uint64_t lo = 8, uint64_t hi = 63) {
    world<N> e;
    g_bytes = vc_range("bytes", 0, uint64_t(1) << 63);
    g_log2 = vc_range("log2", 0, 63);
    uint64_t goal = g_log2 < 8 ? 8 : g_log2;
    e.up.expected = fresh;
    if (fresh) {
        vc_assume(goal >= lo && goal <= hi);
        goal = vc_split(goal, lo, hi);
    }
    // any page
    const uint64_t g = vc_range("g", 0, PAGES - 1);
    pages old[N + 1];
    for (int i = 0; i < N; ++i) {
        e.add(i, vc_range("S", LO, HI));
        const uint64_t rel = i ? rel1 : rel0;
        if (rel == 9) vc_assume((e.k[i].S < goal) | (e.k[i].S > goal + 8));
        else vc_assume(e.k[i].S == goal + rel);
        old[i] = e.k[i];
        old[i].st = static_cast<uint32_t*>(vc_snapshot(e.k[i].st));
    }
    void* res;
    vc_cover("start");
    try {
        res = e.m->allocate(g_bytes, 1);
    } catch (const std::bad_alloc&) {
        vc_check(e.up.failed, "only the upstream fails");
        vc_cover("refused");
        return;
    }
    vc_check(g_addrs == 1 && addr(res) == 4096, "the place of a page is returned");
    // the superpage it is from
    superpage* const all = e.m->m_superpages._M_impl._M_start;
    const bool grown = g_sp == all + N;
    vc_assume(grown == fresh);
    vc_check(e.up.n == grown, "nothing is taken from the upstream in vain");
    vc_check(e.m->m_superpages.size() == N + grown, "the superpages are kept");
    const uint64_t r = g_page;
    vc_check(r < PAGES, "a page of it");
    vc_assume(r < PAGES);
    if (grown) {
        pages x;
        x.sp = all + N;
        x.st = reinterpret_cast<uint32_t*>(x.sp->m_pages.get());
        x.S = x.sp->m_size;
        vc_check(x.S >= LO && x.S <= HI && x.sp->m_min_page_size == x.S - 8 && x.sp->m_num_pages == PAGES,
                 "a superpage of the usual form");
        vc_assume(x.S >= LO && x.S <= HI);
        vc_check(e.up.size == uint64_t(1) << x.S && addr(x.sp->m_memory.get()) == e.up.p, "with memory of its size");
        vc_check(x.S - depth_of(r) == goal, "the smallest page that is large enough");
        vc_check(x.st[r] == OCCUPIED, "the page is in use");
        vc_check(x.legal(g), "the states of pages are consistent");
        vc_check(g == r || x.st[g] != OCCUPIED, "and no other");
        for (int i = 0; i < N; ++i) vc_check(e.k[i].st[g] == old[i].st[g], "other superpages are left alone");
        vc_cover("done");
        return;
    }
    const uint64_t w = N > 1 && g_sp == all + 1 ? 1 : 0;
    vc_check(g_sp == all + w, "of a superpage of the resource");
    const pages &k = e.k[w], &o = old[w];
    for (int i = 0; i < N; ++i)
        if (i != int(w)) vc_check(e.k[i].st[g] == old[i].st[g], "other superpages are left alone");
    const uint64_t dr = w ? rel1 : rel0;
    vc_check(dr <= 8 && depth_of(r) == dr, "the smallest page that is large enough");
    o.assume_up(r, dr);
    vc_check(k.st[r] == OCCUPIED, "the page is in use");
    o.assume(g);
    if (g) o.assume(sibling(g));
    vc_check(o.st[g] != OCCUPIED || k.st[g] == OCCUPIED, "live pages stay in use");
    vc_check(k.legal(g), "the states of pages are consistent");
    vc_check(g == r || o.st[g] == OCCUPIED || k.st[g] != OCCUPIED, "no other page is in use");
    // hence (lemma in M11_place) it overlaps no live page
    uint64_t b = r;
    for (uint64_t d = dr;; --d, b = parent(b)) {
        vc_check(o.st[b] != OCCUPIED, "it is not, and is not a part of, a live page");
        if (d == 0) break;
    }
    vc_check(o.st[r] != SPLIT, "and no live page is a part of it");
}
PROOF(none_0) { NATIVE_TRIALS; take<0>(true, 9, 9, 8, 13); vc_cover("done"); }
PROOF(none_1) { NATIVE_TRIALS; take<0>(true, 9, 9, 14, 19); vc_cover("done"); }
PROOF(none_2) { NATIVE_TRIALS; take<0>(true, 9, 9, 20, 29); vc_cover("done"); }
PROOF(none_3) { NATIVE_TRIALS; take<0>(true, 9, 9, 30, 39); vc_cover("done"); }
PROOF(none_4) { NATIVE_TRIALS; take<0>(true, 9, 9, 40, 63); vc_cover("done"); }
PROOF(take_0) { NATIVE_TRIALS; take<1>(false, 0); vc_cover("done"); }
PROOF(take_1) { NATIVE_TRIALS; take<1>(false, 1); vc_cover("done"); }
PROOF(take_2) { NATIVE_TRIALS; take<1>(false, 2); vc_cover("done"); }
PROOF(take_3) { NATIVE_TRIALS; take<1>(false, 3); vc_cover("done"); }
PROOF(take_4) { NATIVE_TRIALS; take<1>(false, 4); vc_cover("done"); }
PROOF(take_5) { NATIVE_TRIALS; take<1>(false, 5); vc_cover("done"); }
PROOF(take_6) { NATIVE_TRIALS; take<1>(false, 6); vc_cover("done"); }
PROOF(take_7) { NATIVE_TRIALS; take<1>(false, 7); vc_cover("done"); }
PROOF(take_8) { NATIVE_TRIALS; take<1>(false, 8); vc_cover("done"); }
