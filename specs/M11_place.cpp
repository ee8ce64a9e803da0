// The places of the pages of a superpage, of 2^16 to 2^46 bytes, in its memory.
//@ opt trials=1 nopeel unroll=12
//@ replace _ZN6vecmem7details4clzlEm stub_clzl
#include "M11.inc"
// The place of a page in the memory of its superpage.
static void place(uint64_t lo, uint64_t hi) {
    world<1> e;
    const uint64_t S = vc_split(vc_range("S", lo, hi), lo, hi), d = vc_split(vc_range("depth", 0, 8), 0, 8);
    e.add(0, S);
    const uint64_t p = page_at(d, "page");
    page_ref r(*e.k[0].sp, p);
    vc_check(r.get_size() == S - d, "the size of a page");
    vc_check(addr(r.get_addr()) == e.k[0].base + ((p - ((uint64_t(1) << d) - 1)) << (S - d)), "the place of a page");
    vc_check(r.get_index() == p && r.get_state() == page_state(e.k[0].st[p]), "the number and state of a page");
}
PROOF(place_16) { NATIVE_TRIALS; place(16, 25); vc_cover("done"); }
PROOF(place_26) { NATIVE_TRIALS; place(26, 35); vc_cover("done"); }
PROOF(place_36) { NATIVE_TRIALS; place(36, 46); vc_cover("done"); }
// A superpage takes its memory from the upstream once and gives it back once, as it was received.
PROOF(back) {
    NATIVE_TRIALS;
    supplier up;
    const uint64_t S = vc_split(vc_range("S", LO, HI), LO, HI);
    try {
        superpage sp(S, up);
        vc_check(up.n == 1 && up.size == uint64_t(1) << S && up.freed == 0, "memory of its size");
        superpage to(std::move(sp));
        vc_check(up.freed == 0 && addr(to.m_memory.get()) == up.p, "it moves with the superpage");
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.failed && up.freed == 0, "only the upstream fails");
        vc_cover("refused");
        return;
    }
    vc_check(up.freed == 1, "given back once");
    vc_cover("done");
}
// Pages neither of which is a part of the other do not overlap (in units of the smallest page).
PROOF(lemma) {
    NATIVE_TRIALS;
    const uint64_t d1 = vc_split(vc_range("d1", 0, 8), 0, 8); const uint64_t d2 = vc_split(vc_range("d2", 0, 8), 0, 8);
    vc_assume(d1 <= d2);
    const uint64_t a = page_at(d1, "a"); const uint64_t b = page_at(d2, "b");
    uint64_t up = b;
    for (uint64_t i = d2; i > d1; --i) up = parent(up);
    const uint64_t x = (a - ((uint64_t(1) << d1) - 1)) << (8 - d1); const uint64_t y = (b - ((uint64_t(1) << d2) - 1)) << (8 - d2);
    vc_check(up == a || vc::disjoint(x, uint64_t(1) << (8 - d1), y, uint64_t(1) << (8 - d2)), "disjoint");
    vc_cover("done");
}
// A page with a state other than `none' is a part of split pages only: no live page is a part of another.
PROOF(ancestors) {
    NATIVE_TRIALS;
    pages k;
    k.st = vc::array<uint32_t>("states", PAGES);
    const uint64_t d = vc_split(vc_range("d", 0, 8), 0, 8);
    uint64_t p = page_at(d, "p");
    vc_assume(k.st[p] != NONE);
    for (uint64_t i = d; i > 0; --i) {
        k.assume(p);
        p = parent(p);
        vc_check(k.st[p] == SPLIT, "a part of split pages");
    }
    vc_cover("done");
}
