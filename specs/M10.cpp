// The pool, by induction over its state: legal options, any number of free blocks of any size
// class, any cached and live oversized blocks.  The ghost block `other' stands for every other
// block there is (live, cached, or free in another size class): none of them is touched.
//@ opt trials=1 unroll=3 nopeel
//@ flags -I$VERIF/specs/models/text
//@ replace _ZN6vecmem7details7log2_riEm stub_log2_ri
//@ replace _ZNSt6vectorIPvSaIS0_EE9push_backE.* stub_push_block
//@ replace _ZNSt6vectorI.*16chunk_descriptor.*9push_backE.* stub_push_chunk
//@ replace _ZNSt6vectorI.*26oversized_block_descriptor.*9push_backE.* stub_push_oversized
//@ trust std::vector::push_back appends, std::lower_bound finds the lower bound
//@ trust the text of error messages (std::stringstream) is not verified
#include "vc.hpp"
#include <algorithm>
static uint64_t g_lower;
#ifdef VC_NATIVE
#define NATIVE_TRIALS native_trials(); return
#else
#define NATIVE_TRIALS
// std::find_if as a plain loop, and the contract of std::lower_bound on a sorted range.
namespace std {
template <typename I, typename P>
I vc_find_if(I a, I b, P p) {
    for (;; ++a) {
        vc_head();
        if (a == b || p(*a)) return a;
    }
}
template <typename I, typename V>
I vc_lower_bound(I a, I b, const V& v);
}
#define find_if vc_find_if
#define lower_bound vc_lower_bound
#endif
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/details/pool_memory_resource_impl.cpp"
#include "core/src/memory/pool_memory_resource.cpp"
#ifdef VC_NATIVE
#include "M10_native.inc"
#endif
using vc::addr;
using vc::disjoint;
using impl = vecmem::details::pool_memory_resource_impl;
using oversized = impl::oversized_block_descriptor;
using chunk = impl::chunk_descriptor;
constexpr uint64_t CLASSES = 47, BLOCKS = 1 << 22, TOP = uint64_t(1) << 46;

struct world {
    uint64_t b;          // the size class of the request: 2^b
    uint64_t bytes, smallest;
};
static world* w;

extern "C" uint64_t stub_log2_ri(uint64_t x) {
    if (!w) {
        const uint64_t r = vc_fn("log2_ri", x, 0);
        vc_assume(r < CLASSES);
        return r;
    }
    vc_check(x == (w->bytes < w->smallest ? w->smallest : w->bytes), "the class of the request");
    return w->b;
}
template <typename T>
static void append(std::vector<T>* v, const T* x) {
    auto& i = v->_M_impl;
    if (i._M_finish == nullptr) {      // elsewhere there is room for one more
        i._M_start = i._M_finish = static_cast<T*>(::operator new(4 * sizeof(T)));
        i._M_end_of_storage = i._M_start + 4;
    }
    *i._M_finish = *x;
    ++i._M_finish;
}
extern "C" {
void stub_push_block(std::vector<void*>* v, void* const* x) { append(v, x); }
void stub_push_chunk(std::vector<chunk>* v, const chunk* x) { append(v, x); }
void stub_push_oversized(std::vector<oversized>* v, const oversized* x) { append(v, x); }
}

// The lower bound is a position before which everything is smaller, after which nothing is.
static uint64_t csize(uint64_t i) { return vc_fn("cached_size", i, 0); }
static uint64_t calign(uint64_t i) { return vc_fn("cached_align", i, 0); }
static uint64_t cptr(uint64_t i) { return vc_fn("cached_ptr", i, 0); }
static uint64_t osize(uint64_t i) { return vc_fn("over_size", i, 0); }
static uint64_t oalign(uint64_t i) { return vc_fn("over_align", i, 0); }
static uint64_t optr(uint64_t i) { return vc_fn("over_ptr", i, 0); }
static uint64_t hsize(uint64_t i) { return vc_fn("chunk_size", i, 0); }
static uint64_t hptr(uint64_t i) { return vc_fn("chunk_ptr", i, 0); }
static uint64_t block(uint64_t i) { return vc_fn("block", i, 0); }
#ifndef VC_NATIVE
template <typename I, typename V>
I std::vc_lower_bound(I a, I b, const V& v) {
    const uint64_t n = b - a, k = vc_range("lower", 0, BLOCKS), q = vc_qvar();
    vc_assume(k <= n);
    vc_watch(k);
    auto less = [&](uint64_t i) {
        return (csize(i) < v.size) | ((csize(i) == v.size) & (calign(i) < v.alignment));
    };
    vc_forall(q, (q >= k) | less(q));
    vc_forall(q, (q < k) | (q >= n) | !less(q));
    g_lower = k;
    return a + k;
}
#endif

// Any state of the pool.
struct state {
    world g;
    vc::resource up;
    impl* p;
    uint64_t npools, K, other, other_n;
    uint64_t len, cap;                 // of the free list of class K
    std::vector<void*>* list = nullptr;
    impl::pool* pools;
    uint64_t nc = 0, no = 0, nh = 0;   // cached, oversized, chunks
    uint64_t align;

    explicit state(bool powers = true) {
        p = static_cast<impl*>(vc_mem("pool", sizeof(impl), 16, 8));
        auto& o = p->m_options;
        new (&p->m_upstream) std::reference_wrapper<vecmem::memory_resource>(up);
        other = vc_range("other", 16, TOP);
        other_n = vc_range("other_n", 1, TOP);
        vc_assume(other + other_n <= TOP);
        up.live_p = other;
        up.live_n = other_n;
        vc_assume(o.smallest_block_size >= 1 && o.smallest_block_size <= o.largest_block_size);
        vc_assume(o.largest_block_size <= uint64_t(1) << 40);
        vc_assume(o.alignment >= 1 && o.alignment <= o.smallest_block_size);
        if (powers) vc_assume(vc::is_pow2(o.alignment));
        vc_assume(o.max_bytes_per_chunk > 0 && o.max_blocks_per_chunk > 0);
        vc_assume(o.min_blocks_per_chunk <= o.max_blocks_per_chunk);
        vc_assume(o.min_bytes_per_chunk <= o.max_bytes_per_chunk);
        vc_assume(o.max_bytes_per_chunk <= TOP && o.max_blocks_per_chunk <= BLOCKS);
        reinterpret_cast<uint8_t&>(o.cache_oversized) = vc_bool("cache");
    }
    template <typename T>
    static void vec(std::vector<T>& v, T* a, uint64_t n, uint64_t cap) {
        v._M_impl._M_start = a;
        v._M_impl._M_finish = a + n;
        v._M_impl._M_end_of_storage = a + cap;
    }
    // The request falls into class K, whose free list has n blocks.
    void pooled(uint64_t lo, uint64_t hi) {
        auto& o = p->m_options;
        g.b = vc_split(vc_range("log2", lo, hi), lo, hi);
        g.bytes = vc_range("bytes", 0, TOP);
        g.smallest = o.smallest_block_size;
        const uint64_t x = g.bytes < g.smallest ? g.smallest : g.bytes, two = uint64_t(1) << g.b;
        // by definition of the logarithm (see the lemmas below)
        vc_assume(x <= two && (g.b == 0 || x > two / 2));
        const uint64_t s = p->m_smallest_block_log2, l = vc_range("largest_log2", 0, 40);
        vc_assume(s <= g.b && g.b <= l && g.smallest <= two && two <= o.largest_block_size);
        vc_assume(o.min_bytes_per_chunk >> g.b <= o.max_blocks_per_chunk);
        align = vc_range("align", 1, TOP);
        vc_assume(align <= o.alignment);
        npools = l - s + 1;
        K = g.b - s;
        pools = static_cast<impl::pool*>(vc_mem("pools", CLASSES * sizeof(impl::pool), 8, 8));
        vec(p->m_pools, pools, npools, npools);
        w = &g;
    }
    void free_list(bool any) {
        len = any ? vc_range("len", 1, BLOCKS) : 0;
        cap = BLOCKS * 4;
        void** a = static_cast<void**>(::operator new(cap * 8));
        for (uint64_t i = 0;; ++i) {
            vc_head();
            if (i >= len) break;
            a[i] = vc::ptr(block(i));
        }
        list = &pools[K].free_blocks;
        vec(*list, a, len, cap);
        const uint64_t q = vc_qvar(), two = uint64_t(1) << g.b;
        vc_forall(q, (q >= len) | ((block(q) >= 16) & (block(q) <= TOP) &
                                   ((block(q) + two <= other) | (other + other_n <= block(q)))));
    }
    void chunks() {
        nh = vc_range("chunks", 0, BLOCKS);
        chunk* a = static_cast<chunk*>(::operator new((nh + 1) * sizeof(chunk)));
        for (uint64_t i = 0;; ++i) {
            vc_head();
            if (i >= nh) break;
            a[i].size = hsize(i);
            a[i].pointer = vc::ptr(hptr(i));
        }
        vec(p->m_allocated, a, nh, nh + 1);
    }
    template <typename S, typename A, typename P>
    static void descriptors(std::vector<oversized>& v, uint64_t n, S size,
                            A align, P ptr) {
        oversized* a = static_cast<oversized*>(::operator new((n + 1) * sizeof(oversized)));
        for (uint64_t i = 0;; ++i) {
            vc_head();
            if (i >= n) break;
            a[i].size = size(i);
            a[i].alignment = align(i);
            a[i].pointer = vc::ptr(ptr(i));
        }
        vec(v, a, n, n + 1);
    }
    void big() {
        nc = vc_range("cached", 0, BLOCKS);
        no = vc_range("oversized", 0, BLOCKS);
        descriptors(p->m_cached_oversized, nc, csize, calign, cptr);
        descriptors(p->m_oversized, no, osize, oalign, optr);
    }
    uint64_t blk(uint64_t i) const { return addr((*list)[i]); }
};

// ---- a block from the free list ---------------------------------------------------------------
PROOF(take_free_block) {
    NATIVE_TRIALS;
    state e(false);
    const uint64_t j = vc_range("j", 0, BLOCKS), k = vc_range("k", 0, CLASSES - 1);
    e.pooled(0, 40);
    e.free_list(true);
    const uint64_t two = uint64_t(1) << e.g.b, q = vc_qvar();
    vc_assume(j + 1 < e.len);
    vc_watch(j);
    vc_watch(e.len - 1);
    vc_forall(q, (q >= e.len) | (q == j) | (block(q) + two <= block(j)) |
                     (block(j) + two <= block(q)));
    vc_assume(k != e.K);
    void* const first = e.pools[k].free_blocks._M_impl._M_start;
    void* const last = e.pools[k].free_blocks._M_impl._M_finish;
    const uint64_t r = addr(e.p->allocate(e.g.bytes, e.align));
    vc_check(e.up.n == 0, "the upstream is not needed");
    vc_check(e.g.bytes <= two && disjoint(r, two, e.other, e.other_n), "overlaps no other block");
    vc_check(e.list->size() == e.len - 1, "one free block less");
    vc_check(e.blk(j) == block(j) && disjoint(r, two, e.blk(j), two), "the others stay free");
    vc_check(e.pools[k].free_blocks._M_impl._M_start == first &&
             e.pools[k].free_blocks._M_impl._M_finish == last, "other classes are not touched");
    vc_cover("done");
}

PROOF(free_block_alignment) {
    NATIVE_TRIALS;
    state e;
    e.pooled(0, 40);
    vc_assume(vc::is_pow2(e.align));
    e.free_list(true);
    const uint64_t q = vc_qvar();
    vc_watch(e.len - 1);
    // aligned to the alignment of the pool, hence (lemma) to the one requested
    vc_forall(q, (q >= e.len) | ((block(q) & (e.align - 1)) == 0));
    const uint64_t r = addr(e.p->allocate(e.g.bytes, e.align));
    vc_check((r & (e.align - 1)) == 0, "aligned as requested");
    vc_cover("done");
}

// ---- a new chunk ------------------------------------------------------------------------------
template <int LO, int HI>
void take_new_chunk() {
    state e;
    e.pooled(LO, HI);
    e.free_list(false);
    e.chunks();
    const uint64_t j = vc_range("j", 0, BLOCKS), i = vc_range("i", 0, BLOCKS);
    const uint64_t h = vc_range("h", 0, BLOCKS), k = vc_range("k", 0, CLASSES - 1);
    vc_watch(i);
    vc_watch(j);
    vc_watch(h);
    vc_assume(k != e.K);
    e.pools[e.K].previous_allocated_count = vc_range("previous", 0, BLOCKS);
    void* const last = e.pools[k].free_blocks._M_impl._M_finish;
    const uint64_t A = e.p->m_options.alignment, two = uint64_t(1) << e.g.b;
    uint64_t r;
    try {
        r = addr(e.p->allocate(e.g.bytes, e.align));
    } catch (const std::bad_alloc&) {
        vc_check(e.up.n == 1 && e.up.log[0].kind == 2, "only the upstream fails");
        vc_check(e.list->size() == 0 && e.p->m_allocated.size() == e.nh, "nothing has changed");
        return;
    }
    const auto& u = e.up.log[0];
    const auto& m = e.p->m_allocated;
    vc_check(e.up.n == 1 && u.kind == 1 && u.align == A, "one chunk from the upstream");
    vc_check(m.size() == e.nh + 1 && addr(m[e.nh].pointer) == u.p && m[e.nh].size == u.size,
             "which is recorded");
    if (h < e.nh)
        vc_check(addr(m[h].pointer) == hptr(h) && m[h].size == hsize(h), "as are the earlier ones");
    vc_check(r >= u.p && r + two <= u.p + u.size && e.g.bytes <= two, "the block lies in the chunk");
    vc_check(((r - u.p) & (two - 1)) == 0, "at a multiple of its size");
    if (i < e.list->size()) {
        const uint64_t x = e.blk(i);
        vc_check(x >= u.p && x + two <= u.p + u.size, "so do the remaining blocks");
        vc_check(((x - u.p) & (two - 1)) == 0, "at multiples of their size");
        vc_check(disjoint(x, two, r, two), "which do not overlap it");
        if (j < e.list->size() && i != j)
            vc_check(disjoint(x, two, e.blk(j), two), "nor each other");
    }
    vc_check(e.pools[k].free_blocks._M_impl._M_finish == last, "other classes are not touched");
    vc_cover("done");
}

PROOF(take_new_chunk_0_10) { NATIVE_TRIALS; take_new_chunk<0, 10>(); }
PROOF(take_new_chunk_11_20) { NATIVE_TRIALS; take_new_chunk<11, 20>(); }
PROOF(take_new_chunk_21_30) { NATIVE_TRIALS; take_new_chunk<21, 30>(); }
PROOF(take_new_chunk_31_40) { NATIVE_TRIALS; take_new_chunk<31, 40>(); }

// ---- a block comes back -----------------------------------------------------------------------
PROOF(release_block) {
    NATIVE_TRIALS;
    state e;
    e.pooled(0, 40);
    e.free_list(vc_bool("some"));
    const uint64_t j = vc_range("j", 0, BLOCKS), k = vc_range("k", 0, CLASSES - 1);
    vc_watch(j);
    vc_assume(j < e.len && k != e.K);
    void* const last = e.pools[k].free_blocks._M_impl._M_finish;
    const uint64_t p = vc_range("block", 16, TOP);
    e.p->deallocate(vc::ptr(p), e.g.bytes, e.align);
    vc_check(e.up.n == 0, "kept for later");
    vc_check(e.list->size() == e.len + 1 && e.blk(e.len) == p, "free again");
    vc_check(e.blk(j) == block(j), "the others stay free");
    vc_check(e.pools[k].free_blocks._M_impl._M_finish == last, "other classes are not touched");
    vc_cover("done");
}

// ---- oversized and overaligned blocks ---------------------------------------------------------
struct big : state {
    uint64_t bytes = vc_range("bytes", 0, TOP), x;
    uint64_t i = vc_range("i", 0, BLOCKS), j = vc_range("j", 0, BLOCKS);
    big() {
        auto& o = p->m_options;
        x = bytes < o.smallest_block_size ? o.smallest_block_size : bytes;
        align = vc_range("align", 1, TOP);
        vc_assume(vc::is_pow2(align));
        vc_assume(x > o.largest_block_size || align > o.alignment);
        vec(p->m_pools, static_cast<impl::pool*>(nullptr), 0, 0);
        vec(p->m_allocated, static_cast<chunk*>(nullptr), 0, 0);
        vc_watch(i);
        vc_watch(j);
        descriptors_();
        const uint64_t q = vc_qvar();
        // cached blocks are powers-of-two aligned, sorted, and not used by anyone
        vc_forall(q, (q >= nc) | ((calign(q) >= 1) & (calign(q) <= TOP) & (csize(q) <= TOP) &
                                  ((calign(q) & (calign(q) - 1)) == 0) &
                                  ((cptr(q) & (calign(q) - 1)) == 0) & (cptr(q) >= 16) &
                                  ((cptr(q) + csize(q) <= other) | (other + other_n <= cptr(q)))));
        vc_forall(q, (q >= nc) | (q == j) | (cptr(q) != cptr(j)));
        vc_forall(q, (q >= no) | (q == i) | (optr(q) != optr(i)));
        vc_forall(q, (q >= no) | ((oalign(q) >= 1) & (osize(q) <= TOP) & (optr(q) >= 16)));
    }
    void descriptors_() { state::big(); }
    bool over(uint64_t at, uint64_t k) const {
        const auto& d = p->m_oversized[at];
        return d.size == osize(k) && d.alignment == oalign(k) && addr(d.pointer) == optr(k);
    }
    bool cached(uint64_t at, uint64_t k) const {
        const auto& d = p->m_cached_oversized[at];
        return d.size == csize(k) && d.alignment == calign(k) && addr(d.pointer) == cptr(k);
    }
};
PROOF(take_oversized) {
    NATIVE_TRIALS;
    big e;
    vc_assume(e.i < e.no && e.j < e.nc);
    uint64_t r;
    try {
        r = addr(e.p->allocate(e.bytes, e.align));
    } catch (const std::bad_alloc&) {
        vc_check(e.up.n == 1 && e.up.log[0].kind == 2, "only the upstream fails");
        vc_check(e.p->m_oversized.size() == e.no && e.p->m_cached_oversized.size() == e.nc &&
                 e.over(e.i, e.i) && e.cached(e.j, e.j), "nothing has changed");
        vc_cover("refused");
        return;
    }
    vc_check((r & (e.align - 1)) == 0, "aligned as requested");
    vc_check(disjoint(r, e.bytes, e.other, e.other_n), "overlaps no other block");
    vc_check(e.over(e.i, e.i), "earlier records stay");
    if (e.up.n) {
        vc_check(e.up.n == 1 && e.up.ev(0, 1, r, e.x, e.align), "as requested from the upstream");
        const auto& d = e.p->m_oversized[e.no];
        vc_check(e.p->m_oversized.size() == e.no + 1 && d.size == e.x && d.alignment == e.align &&
                 addr(d.pointer) == r, "which is recorded");
        vc_check(e.p->m_cached_oversized.size() == e.nc && e.cached(e.j, e.j),
                 "the cache is not touched");
        vc_cover("new");
    } else {
        vc_check(e.p->m_options.cache_oversized, "only if blocks are cached");
        vc_check(e.p->m_oversized.size() == e.no, "the records stay");
        vc_check(e.p->m_cached_oversized.size() + 1 == e.nc, "one cached block less");
        if (r != cptr(e.j)) {
            vc_check((e.j + 1 < e.nc && e.cached(e.j, e.j)) || (e.j > 0 && e.cached(e.j - 1, e.j)),
                     "the others stay in the cache");
            vc_cover("other");
        } else {
            vc_check(csize(e.j) >= e.bytes, "large enough");
        }
        vc_cover("cached");
    }
    vc_cover("done");
}
// A live oversized block comes back: the one with record i.
struct returned : big {
    uint64_t ptr0;
    returned(bool cache) {
        vc_assume(i < no);
        ptr0 = optr(i);
        if (cache) {
            vc_assume(p->m_options.cache_oversized && j < nc);
            auto less = [](uint64_t a, uint64_t b) {
                return (csize(a) < csize(b)) | ((csize(a) == csize(b)) & (calign(a) < calign(b)));
            };
            if (j) vc_assume(!less(j, j - 1));
            if (j + 1 < nc) vc_assume(!less(j + 1, j));
        } else {
            vc_assume(!p->m_options.cache_oversized && j < no && j != i);
            // no block is reused, so the record is that of this request
            vc_assume(osize(i) == x && oalign(i) == align);
        }
    }
};
PROOF(release_oversized) {
    NATIVE_TRIALS;
    returned e(false);
    e.p->deallocate(vc::ptr(e.ptr0), e.bytes, e.align);
    vc_check(e.up.n == 1 && e.up.ev(0, 3, e.ptr0, osize(e.i), oalign(e.i)),
             "given back with its original size and alignment");
    vc_check(e.p->m_oversized.size() == e.no - 1, "its record is gone");
    vc_check((e.j + 1 < e.no && e.over(e.j, e.j)) || (e.j > 0 && e.over(e.j - 1, e.j)),
             "the other records stay");
    vc_check(e.p->m_cached_oversized.size() == e.nc, "nothing is cached");
    vc_cover("done");
}
PROOF(cache_oversized) {
    NATIVE_TRIALS;
    returned e(true);
    e.p->deallocate(vc::ptr(e.ptr0), e.bytes, e.align);
    const auto& c = e.p->m_cached_oversized;
    vc_check(e.up.n == 0 && e.p->m_oversized.size() == e.no && e.over(e.i, e.i),
             "kept, with its record");
    vc_check(c.size() == e.nc + 1, "one cached block more");
    vc_check(e.cached(e.j, e.j) || e.cached(e.j + 1, e.j), "the others stay in the cache");
    const auto &x = c[e.j], &y = c[e.j + 1];
    vc_check(x.size < y.size || (x.size == y.size && x.alignment <= y.alignment), "in order");
    const auto& n = c[g_lower];
    vc_check(n.size == osize(e.i) && n.alignment == oalign(e.i) && addr(n.pointer) == e.ptr0,
             "with its size and alignment");
    vc_cover("done");
}

// ---- destruction ------------------------------------------------------------------------------
struct returning : vecmem::memory_resource {
    uint64_t p = 0, size = 0, align = 0, count = 0;
    void* do_allocate(std::size_t, std::size_t) override {
        vc_check(false, "nothing is allocated");
        throw std::bad_alloc();
    }
    void do_deallocate(void* q, std::size_t s, std::size_t a) override {
        if (addr(q) != p) return;
        vc_check(s == size && a == align, "with its original size and alignment");
        ++count;
    }
    bool do_is_equal(const std::pmr::memory_resource&) const noexcept override { return false; }
};
template <bool CHUNK>
void destroyed() {
    state e;
    returning up;
    new (&e.p->m_upstream) std::reference_wrapper<vecmem::memory_resource>(up);
    const uint64_t i = vc_range("i", 0, BLOCKS), q = vc_qvar();
    vc_watch(i);
    e.chunks();
    e.big();
    state::vec(e.p->m_pools, static_cast<impl::pool*>(nullptr), 0, 0);
    vc_assume(i < (CHUNK ? e.nh : e.no));
    up.p = CHUNK ? hptr(i) : optr(i);
    up.size = CHUNK ? hsize(i) : osize(i);
    up.align = CHUNK ? e.p->m_options.alignment : oalign(i);
    vc_forall(q, (q >= e.nh) | (CHUNK & (q == i)) | (hptr(q) != up.p));
    vc_forall(q, (q >= e.no) | (!CHUNK & (q == i)) | (optr(q) != up.p));
    e.p->~impl();
    vc_check(up.count == 1, "given back exactly once");
    vc_cover("done");
}
PROOF(chunks_given_back) { NATIVE_TRIALS; destroyed<true>(); }
PROOF(oversized_given_back) { NATIVE_TRIALS; destroyed<false>(); }

// ---- construction -----------------------------------------------------------------------------
PROOF(construction) {
    NATIVE_TRIALS;
    w = nullptr;
    vc::resource up;
    vecmem::pool_memory_resource::options o;
    o.min_blocks_per_chunk = vc_u64("min_blocks");
    o.min_bytes_per_chunk = vc_u64("min_bytes");
    o.max_blocks_per_chunk = vc_u64("max_blocks");
    o.max_bytes_per_chunk = vc_u64("max_bytes");
    o.smallest_block_size = vc_u64("smallest");
    o.largest_block_size = vc_u64("largest");
    o.alignment = vc_u64("alignment");
    const uint64_t s = stub_log2_ri(o.smallest_block_size), l = stub_log2_ri(o.largest_block_size);
    vc_assume(o.smallest_block_size > o.largest_block_size || s <= l);
    void* m = vc_mem("pool", sizeof(impl), 16, 8);
    impl* p;
    try {
        p = new (m) impl(up, o);
    } catch (const std::invalid_argument&) {
        vc_cover("refused");
        return;
    }
    vc_check(vc::is_pow2(o.smallest_block_size) && vc::is_pow2(o.largest_block_size) &&
             vc::is_pow2(o.alignment), "powers of two");
    vc_check(o.smallest_block_size <= o.largest_block_size && o.alignment <= o.smallest_block_size,
             "in order");
    vc_check(o.max_bytes_per_chunk > 0 && o.max_blocks_per_chunk > 0 &&
             o.min_blocks_per_chunk <= o.max_blocks_per_chunk &&
             o.min_bytes_per_chunk <= o.max_bytes_per_chunk, "consistent limits");
    vc_check(!(o.max_blocks_per_chunk * o.smallest_block_size < o.min_bytes_per_chunk),
             "room for the smallest chunk");
    vc_check(p->m_smallest_block_log2 == s && p->m_pools.size() == l - s + 1,
             "one list for every size class");
    vc_check(p->m_options.alignment == o.alignment &&
             p->m_options.smallest_block_size == o.smallest_block_size &&
             p->m_options.largest_block_size == o.largest_block_size &&
             p->m_options.min_blocks_per_chunk == o.min_blocks_per_chunk &&
             p->m_options.max_blocks_per_chunk == o.max_blocks_per_chunk &&
             p->m_options.min_bytes_per_chunk == o.min_bytes_per_chunk &&
             p->m_options.max_bytes_per_chunk == o.max_bytes_per_chunk, "the options are kept");
    const uint64_t k = vc_range("k", 0, CLASSES - 1);
    vc_watch(k);
    if (k < p->m_pools.size())
        vc_check(p->m_pools[k].free_blocks.empty() && p->m_pools[k].previous_allocated_count == 0,
                 "which is empty");
    vc_check(p->m_allocated.empty() && p->m_oversized.empty() && p->m_cached_oversized.empty() &&
             up.n == 0, "nothing is allocated yet");
    vc_cover("done");
}
// ---- the resource itself hands every request on ------------------------------------------------
PROOF(resource) {
    NATIVE_TRIALS;
    w = nullptr;
    vc::resource up;
    vecmem::pool_memory_resource::options o;
    o.min_blocks_per_chunk = 1;
    o.max_blocks_per_chunk = 4;
    o.min_bytes_per_chunk = 16;
    o.max_bytes_per_chunk = 64;
    o.smallest_block_size = o.largest_block_size = o.alignment = 16;
    o.cache_oversized = false;
    const uint64_t n = vc_range("n", 0, TOP), a = uint64_t(1) << vc_range("a", 0, 20);
    void* m = vc_mem("resource", sizeof(vecmem::pool_memory_resource), 16, 8);
    auto* p = new (m) vecmem::pool_memory_resource(up, o);
    vc_assume(n == 0 || n > 16);
    void* b;
    try {
        b = p->allocate(n, a);
    } catch (const std::bad_alloc&) {
        vc_check(n > 0 && up.n == 1 && up.log[0].kind == 2, "only the upstream fails");
        p->~pool_memory_resource();
        vc_check(up.n == 1, "nothing to give back");
        return;
    }
    if (n) vc_check(up.n == 1 && up.ev(0, 1, addr(b), n, a), "as requested from the upstream");
    else vc_check(up.n == 0, "nothing is asked for nothing");
    if (vc_bool("release")) {
        p->deallocate(b, n, a);
        if (n) vc_check(up.n == 2 && up.ev(1, 3, addr(b), n, a), "and given back");
    }
    p->~pool_memory_resource();
    if (n) vc_check(up.n == 2 && up.ev(1, 3, addr(b), n, a), "exactly once");
    else vc_check(up.n == 0, "nothing is given back");
    vc_cover("done");
}

// ---- lemmas -----------------------------------------------------------------------------------
// What the states above assume follows from the options being legal (constructor, below) and from
// the definition of the logarithm.
PROOF(size_classes) {
    const uint64_t b = vc_split(vc_range("b", 0, 40), 0, 40), s = vc_split(vc_range("s", 0, 40), 0, 40);
    if (s > b) return;
    const uint64_t min_bytes = vc_range("min_bytes", 0, TOP), n = vc_range("max_blocks", 1, BLOCKS);
    vc_assume(!(n * (uint64_t(1) << s) < min_bytes));
    vc_check(min_bytes >> b <= n, "a first chunk has no more than the allowed blocks");
    vc_cover("done");
}
PROOF(weaker_alignment) {
    const uint64_t p = vc_range("p", 0, TOP), a = vc_range("a", 1, TOP), A = vc_range("A", 1, TOP);
    vc_assume(vc::is_pow2(a) && vc::is_pow2(A) && a <= A && (p & (A - 1)) == 0);
    vc_check((p & (a - 1)) == 0, "what is aligned is aligned less strictly too");
    vc_cover("done");
}
// A block at a multiple of its size is aligned like the chunk, as the pool promises.
PROOF(chunk_alignment) {
    const uint64_t b = vc_split(vc_range("b", 0, 40), 0, 40), a = vc_split(vc_range("a", 0, 40), 0, 40);
    if (a > b) return;
    const uint64_t A = uint64_t(1) << a, two = uint64_t(1) << b;
    const uint64_t p = vc_range("p", 0, TOP), d = vc_range("d", 0, TOP);
    vc_assume((p & (A - 1)) == 0 && (d & (two - 1)) == 0);
    vc_check(((p + d) & (A - 1)) == 0, "aligned");
    vc_cover("done");
}
