// The arena, by induction over its state: any superblocks, any number of free and live blocks.
//@ opt trials=1 nopeel
//@ trust std::set and std::find_if by their contracts (specs/set_model.inc)
#include "vc.hpp"
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <limits>
#include <memory>
#include <new>
#include <set>
#include <vector>
#include "vecmem/memory/memory_resource.hpp"
#ifdef VC_NATIVE
#define NATIVE_TRIALS native_trials(); return
#else
#define NATIVE_TRIALS
#include "set_model.inc"
#endif
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/details/arena_memory_resource_impl.cpp"
#include "core/src/memory/arena_memory_resource.cpp"
#ifdef VC_NATIVE
#include "M12_native.inc"
#define P(name) PROOF(name) { NATIVE_TRIALS; }
P(take_free) P(take_new) P(take_new_before) P(take_new_after) P(take_new_between)
P(give) P(give_before) P(give_after) P(give_between) P(give_unknown) P(create) P(destroy)
#else
using vc::addr;
using vc::disjoint;
using impl = vecmem::details::arena_memory_resource_impl;
using block = impl::block;
constexpr uint64_t TOP = uint64_t(1) << 46, COUNT = uint64_t(1) << 30;

static uint64_t fptr(uint64_t i) { return vc_fn("free_ptr", i, 0); }
static uint64_t fsize(uint64_t i) { return vc_fn("free_size", i, 0); }
static uint64_t fhome(uint64_t i) { return vc_fn("free_home", i, 0); }
static uint64_t aptr(uint64_t i) { return vc_fn("live_ptr", i, 0); }
static uint64_t asize(uint64_t i) { return vc_fn("live_size", i, 0); }
static uint64_t ahome(uint64_t i) { return vc_fn("live_home", i, 0); }
static uint64_t sptr(uint64_t i) { return vc_fn("super_ptr", i, 0); }
static uint64_t ssize(uint64_t i) { return vc_fn("super_size", i, 0); }
static block free_block(uint64_t i) { return {vc::ptr(fptr(i)), fsize(i)}; }
static block live_block(uint64_t i) { return {vc::ptr(aptr(i)), asize(i)}; }
static block superblock(uint64_t i) { return {vc::ptr(sptr(i)), ssize(i)}; }

// the superblock a block lies in
static bool apart(uint64_t a, uint64_t n, uint64_t b, uint64_t m) { return (a + n <= b) | (b + m <= a); }
static bool within(uint64_t a, uint64_t n, uint64_t b, uint64_t m) { return (a >= b) & (a + n <= b + m); }

// The free blocks before and after a place, and whether they touch a block (cases of a proof).
static uint64_t place;
static uint64_t free_count;
static void neighbours(uint64_t p, uint64_t n, bool before, bool after) {
    place = vc_range("place", 0, COUNT);
    vc_assume(place <= free_count);
    const bool b = place > 0 && fptr(place - 1) + fsize(place - 1) == p;
    vc_assume(b == before);
    const bool a = place < free_count && p + n == fptr(place);
    vc_assume(a == after);
    std::set<block>::place = &place;
}

// Hands out memory that overlaps no superblock.
struct supplier : vecmem::memory_resource {
    uint64_t n = 0, p = 0, size = 0, nsuper = 0;
    bool failed = false, expected = true, cases = false, before = false, after = false;
    void* do_allocate(std::size_t s, std::size_t) override {
        ++n;
        vc_assume(expected);
        if (vc_bool("fails")) {
            failed = true;
            throw std::bad_alloc();
        }
        size = s;
        p = vc_range("superblock", 16, TOP);
        vc_assume(s <= TOP);
        const uint64_t q = vc_qvar();
        vc_forall(q, (q >= nsuper) | apart(sptr(q), ssize(q), p, s) );
        vc_forall(q, (q >= nsuper) | (sptr(q) != p));
        if (cases) neighbours(p, s, before, after);
        return vc::ptr(p);
    }
    void do_deallocate(void*, std::size_t, std::size_t) override { vc_check(false, "nothing is given back"); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct state;
static state* now;
struct state {
    supplier up;
    impl* a;
    uint64_t nf, na, ns;
    uint64_t f = 0, l = 0;          // a free and a live block
    state() {
        a = static_cast<impl*>(vc_mem("arena", sizeof(impl), 16, 8));
        new (&a->free_blocks_) std::set<block>();
        new (&a->allocated_blocks_) std::set<block>();
        new (&a->superblocks_) std::set<block>();
        *reinterpret_cast<vecmem::memory_resource**>(a) = &up;
        vc_assume(a->size_superblocks_ <= TOP);
        nf = a->free_blocks_.n = vc_range("free", 0, COUNT);
        na = a->allocated_blocks_.n = vc_range("live", 0, COUNT);
        ns = a->superblocks_.n = up.nsuper = vc_range("superblocks", 0, COUNT);
        a->free_blocks_.make = free_block;
        a->allocated_blocks_.make = live_block;
        a->superblocks_.make = superblock;
        now = this;
        free_count = nf;
        a->free_blocks_.chosen = [](uint64_t i) { now->free_apart(i); };
        a->allocated_blocks_.chosen = [](uint64_t i) { now->live_apart(i); };
        a->superblocks_.chosen = [](uint64_t i) { now->super_apart(i); };
        const uint64_t q = vc_qvar();
        // every block lies in a superblock
        vc_forall(q, (q >= ns) | ((sptr(q) >= 16) & (sptr(q) <= TOP) & (ssize(q) <= TOP)));
        vc_forall(q, (q >= nf) | ((fsize(q) >= 1) & (fsize(q) <= TOP) & (fptr(q) <= TOP) & (fhome(q) < ns) &
                                  within(fptr(q), fsize(q), sptr(fhome(q)), ssize(fhome(q)))));
        vc_forall(q, (q >= na) | ((asize(q) >= 1) & (asize(q) <= TOP) & (aptr(q) <= TOP) & (ahome(q) < ns) &
                                  within(aptr(q), asize(q), sptr(ahome(q)), ssize(ahome(q)))));
    }
    // blocks and superblocks do not overlap others of their kind, nor do free ones live ones
    void free_apart(uint64_t i) {
        const uint64_t q = vc_qvar();
        vc_forall(q, (q >= nf) | (q == i) | apart(fptr(q), fsize(q), fptr(i), fsize(i)));
        vc_forall(q, (q >= na) | apart(aptr(q), asize(q), fptr(i), fsize(i)));
    }
    void live_apart(uint64_t i) {
        const uint64_t q = vc_qvar();
        vc_forall(q, (q >= na) | (q == i) | apart(aptr(q), asize(q), aptr(i), asize(i)));
        vc_forall(q, (q >= nf) | apart(fptr(q), fsize(q), aptr(i), asize(i)));
    }
    void super_apart(uint64_t i) {
        const uint64_t q = vc_qvar();
        vc_forall(q, (q >= ns) | (q == i) | apart(sptr(q), ssize(q), sptr(i), ssize(i)));
    }
    void some_blocks() {
        f = vc_range("f", 0, COUNT);
        l = vc_range("l", 0, COUNT);
        vc_assume(f < nf && l < na);
        vc_watch(f);
        vc_watch(l);
        free_apart(f);
        live_apart(l);
    }
};
struct take : state {
    uint64_t bytes = vc_u64("bytes"), r = 0, got = 0;
    bool ok = true;
    const std::set<block>&fb = a->free_blocks_, &ab = a->allocated_blocks_, &sb = a->superblocks_;
    void run(bool fresh) {
        some_blocks();
        vc_cover("start");
        std::set<block>::force_end = fresh;
        up.expected = fresh;
        try {
            r = addr(a->allocate(bytes, 1));
        } catch (const std::bad_alloc&) {
            vc_check(up.failed || bytes > TOP, "only the upstream fails");
            vc_check(!fb.changed() && !ab.changed() && !sb.changed(), "nothing has changed");
            vc_cover("refused");
            ok = false;
            return;
        }
        vc_check(ab.additions == 1 && ab.erasures == 0 && !ab.gone[0] && addr(ab.added[0].pointer()) == r,
                 "one more live block");
        got = ab.added[0].size();
        vc_check(got >= bytes && got >= 1, "large enough");
        vc_check(apart(r, got, aptr(l), asize(l)), "overlaps no live block");
    }
};
PROOF(take_free) {
    take e;
    e.run(false);
    if (!e.ok) return;
    // the one free block x that was chosen
    vc_check(e.fb.erasures == 1 && !e.sb.changed(), "from one free block");
    const uint64_t x = e.fb.erased[0];
    vc_check(within(e.r, e.got, fptr(x), fsize(x)), "inside it");
    uint64_t rest = 0;
    for (int k = 0; k < e.fb.additions; ++k)
        if (!e.fb.gone[k]) {
            const block& y = e.fb.added[k];
            vc_check(y.size() >= 1 && within(addr(y.pointer()), y.size(), fptr(x), fsize(x)) &&
                     apart(addr(y.pointer()), y.size(), e.r, e.got), "the rest of it is free");
            rest += y.size();
            vc_check(k == 0, "in one piece");
        }
    vc_check(rest + e.got == fsize(x), "nothing of it is lost");
    vc_cover("done");
}
static void take_new(bool before, bool after) {
    take e;
    e.up.cases = true;
    e.up.before = before;
    e.up.after = after;
    e.run(true);
    if (!e.ok) return;
    vc_check(e.up.n == 1 && e.sb.additions == 1 && e.sb.erasures == 0 &&
             addr(e.sb.added[0].pointer()) == e.up.p && e.sb.added[0].size() == e.up.size,
             "one more superblock is recorded");
    vc_check(within(e.r, e.got, e.up.p, e.up.size), "inside it");
    vc_check(e.fb.erasures == 0, "free blocks are kept");
    uint64_t rest = 0;
    for (int k = 0; k < e.fb.additions; ++k)
        if (!e.fb.gone[k]) {
            const block& y = e.fb.added[k];
            vc_check(y.size() >= 1 && within(addr(y.pointer()), y.size(), e.up.p, e.up.size) &&
                     apart(addr(y.pointer()), y.size(), e.r, e.got), "the rest of it is free");
            vc_check(rest == 0, "in one piece");
            rest += y.size();
        }
    vc_check(rest + e.got == e.up.size, "nothing of it is lost");
    vc_cover("done");
}
PROOF(take_new) { take_new(false, false); }
PROOF(take_new_before) { take_new(false, true); }
PROOF(take_new_after) { take_new(true, false); }
PROOF(take_new_between) { take_new(true, true); }

// A live block is released: the one called x.
static void give(bool before, bool after) {
    state e;
    e.some_blocks();
    const std::set<block>&fb = e.a->free_blocks_, &ab = e.a->allocated_blocks_, &sb = e.a->superblocks_;
    const uint64_t x = vc_range("x", 0, COUNT), bytes = vc_u64("bytes");
    vc_assume(x < e.na && x != e.l);
    vc_watch(x);
    e.live_apart(x);
    neighbours(aptr(x), asize(x), before, after);
    const bool known = e.a->deallocate(vc::ptr(aptr(x)), bytes, 1);
    vc_check(known, "a live block is known");
    vc_check(ab.erasures == 1 && ab.additions == 0 && ab.erased[0] == x && !sb.changed(),
             "that block is no longer live, the others are");
    // it is free now, possibly together with the free blocks next to it
    uint64_t lo = aptr(x), hi = lo + asize(x), total = asize(x);
    vc_check(fb.additions == 1 && !fb.gone[0], "one more free block");
    const block& y = fb.added[0];
    const uint64_t p = addr(y.pointer()), n = y.size(), home = ahome(x);
    bool f_erased = false;
    for (int k = 0; k < fb.erasures; ++k) {
        const uint64_t z = fb.erased[k];
        vc_check(within(fptr(z), fsize(z), p, n), "free blocks are kept, or joined to it");
        total += fsize(z);
        e.super_apart(fhome(z));
        f_erased = f_erased | (z == e.f);
    }
    vc_check(within(aptr(x), asize(x), p, n) && total == n, "which is that block and those next to it");
    e.super_apart(home);
    vc_check(within(p, n, sptr(home), ssize(home)), "inside one superblock");
    vc_check(f_erased || apart(p, n, fptr(e.f), fsize(e.f)), "overlaps no free block");
    vc_check(apart(p, n, aptr(e.l), asize(e.l)), "overlaps no live block");
    vc_cover("done");
}
PROOF(give) { give(false, false); }
PROOF(give_before) { give(false, true); }
PROOF(give_after) { give(true, false); }
PROOF(give_between) { give(true, true); }
PROOF(give_unknown) {
    state e;
    const std::set<block>&fb = e.a->free_blocks_, &ab = e.a->allocated_blocks_, &sb = e.a->superblocks_;
    const uint64_t p = vc_range("p", 0, TOP), q = vc_qvar();
    vc_forall(q, (q >= e.na) | (aptr(q) != p));
    vc_check(!e.a->deallocate(vc::ptr(p), vc_u64("bytes"), 1), "unknown blocks are reported");
    vc_check(!fb.changed() && !ab.changed() && !sb.changed(), "nothing has changed");
    vc_cover("done");
}
// Destruction gives back every superblock.
struct returning : vecmem::memory_resource {
    uint64_t p = 0, size = 0, count = 0, calls = 0;
    void* do_allocate(std::size_t, std::size_t) override {
        vc_check(false, "nothing is allocated");
        throw std::bad_alloc();
    }
    void do_deallocate(void* q, std::size_t s, std::size_t) override {
        if (addr(q) != p) return;
        vc_check(s == size, "with its original size");
        ++count;
    }
    bool do_is_equal(const std::pmr::memory_resource&) const noexcept override { return false; }
};
PROOF(destroy) {
    state e;
    returning up;
    *reinterpret_cast<vecmem::memory_resource**>(e.a) = &up;
    const uint64_t i = vc_range("i", 0, COUNT), q = vc_qvar();
    vc_assume(i < e.ns);
    vc_watch(i);
    up.p = sptr(i);
    up.size = ssize(i);
    vc_forall(q, (q >= e.ns) | (q == i) | (sptr(q) != up.p));
    e.a->~impl();
    vc_check(up.count == 1, "given back exactly once");
    vc_cover("done");
}
PROOF(create) {
    supplier up;
    impl* a = static_cast<impl*>(vc_mem("arena", sizeof(impl), 16, 8));
    const uint64_t first = vc_range("first", 0, TOP), most = vc_u64("most");
    try {
        new (a) impl(first, most, up);
    } catch (const std::bad_alloc&) {
        vc_check(up.failed, "only the upstream fails");
        vc_cover("refused");
        return;
    }
    const std::set<block>&fb = a->free_blocks_, &ab = a->allocated_blocks_, &sb = a->superblocks_;
    vc_check(ab.size() == 0, "nothing is live");
    vc_check(up.n == 1 && sb.size() == 1 && sb.additions == 1 && addr(sb.added[0].pointer()) == up.p &&
                 sb.added[0].size() == up.size, "one superblock, which is recorded");
    vc_check(fb.size() == 1 && fb.additions == 1 && addr(fb.added[0].pointer()) == up.p &&
                 fb.added[0].size() == up.size, "and free");
    vc_cover("done");
}
#endif
