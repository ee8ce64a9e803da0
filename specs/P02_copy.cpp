// set_sizes, and copy_view_impl (what operator() for jagged vectors calls) against the contracts
// of its helpers: is_contiguous, get_sizes, copy_views_impl and copy_views_contiguous_impl, each
// proved in P02.
//@ flags -I$VERIF/specs/models/text
//@ opt trials=1 unroll=3 nopeel
//@ trust the text of error messages (std::stringstream) is not verified
//@ trust the sizes of the rows of a resizable view are adjacent in memory
//@ replace .*4copy13is_contiguousIK?jE.* stub_is_contiguous
//@ replace _ZNK6vecmem4copy9get_sizesI.* stub_get_sizes
//@ replace _ZNK6vecmem4copy15copy_views_implIjE.* stub_copy_views
//@ replace _ZNK6vecmem4copy26copy_views_contiguous_implIjE.* stub_copy_block
#include "P02.inc"

// What the stubs know and record.
struct world {
    uint64_t n, r, k;              // rows; an arbitrary row; another one (for whole-view facts)
    table<const u32> f;
    table<u32> t;
    bool same_caps;
    kind c;
    bool from_adjacent, to_adjacent;
    bool rows_copied, block_copied, failed;
    u32 tc(uint64_t i) const { return same_caps ? fcap(i) : tcap(i); }
};
static world* w;

struct counting : vecmem::copy {
    mutable uint64_t copies = 0;
    void do_copy(std::size_t n, const void* f, void* t, kind c) const override {
        ++copies;
        vecmem::copy::do_copy(n, f, t, c);
    }
};

extern "C" {
bool stub_is_contiguous(const void* rows, std::size_t n) {
    vc_check(n == w->n, "all rows are looked at");
    const bool r = vc_bool("contiguous");
    if (rows == w->f.rows) w->from_adjacent = r;
    else if (rows == w->t.rows) w->to_adjacent = r;
    else vc_check(false, "the rows of the source or of the target");
    return r;
}
std::vector<u32> stub_get_sizes(const vecmem::copy*, const jagged_vector_view<const u32>* v) {
    vc_check(v->size() == w->n && v->host_ptr() == w->f.rows, "the sizes of the source");
    u32* a = static_cast<u32*>(::operator new(w->n * sizeof(u32)));
    for (uint64_t i = 0;; ++i) {
        vc_head();
        if (i >= w->n) break;
        a[i] = size(i);
    }
    std::vector<u32> r;
    r._M_impl._M_start = a;
    r._M_impl._M_finish = r._M_impl._M_end_of_storage = a + w->n;
    return r;
}
void stub_copy_views(const vecmem::copy*, const std::vector<u32>* s,
                     const vector_view<const u32>* f, vector_view<u32>* t, kind c) {
    vc_check(s->size() == w->n && f == w->f.rows && t == w->t.rows && c == w->c,
             "from the rows of the source to those of the target");
    vc_check((*s)[w->r] == size(w->r), "with the sizes of the rows of the source");
    vc_check(size(w->r) <= t[w->r].capacity(), "which fit into the rows of the target");
    w->rows_copied = true;
}
void stub_copy_block(const vecmem::copy*, const std::vector<u32>* s,
                     const vector_view<const u32>* f, vector_view<u32>* t, kind c) {
    vc_check(s->size() == w->n && f == w->f.rows && t == w->t.rows && c == w->c,
             "from the rows of the source to those of the target");
    vc_check(w->from_adjacent && w->to_adjacent, "both in one block");
    vc_check((*s)[w->r] == fcap(w->r) && f[w->r].capacity() == t[w->r].capacity(),
             "of the same layout");
    w->block_copied = true;
}
}

template <bool TR>
struct env {
    world g;
    counting c;
    uint64_t m;
    env(uint64_t from_rows, uint64_t to_rows, bool same, bool fits) {
        g.n = from_rows;
        m = to_rows;
        g.r = vc_range("r", 0, ROWS);
        vc_assume(g.r < g.n && g.r < m);
        vc_watch(g.r);
        g.same_caps = same;
        const uint64_t q = vc_qvar();
        auto all = [&](bool fact) { vc_forall(q, (q >= g.n) | fact); };
        all((size(q) <= fcap(q)) & (foff(q) < HEAP / 2) & (toff(q) < HEAP / 2));
        if (fits) all(size(q) <= g.tc(q));
        g.f.template fill<ANY>("from_rows", "", "from_heap", g.n, false, fcap, fsize, foff);
        g.t.template fill<ANY>("to_rows", "to_sizes", "to_heap", m, TR,
                               [this](uint64_t i) { return g.tc(i); }, old_size, toff);
        g.rows_copied = g.block_copied = g.from_adjacent = g.to_adjacent = g.failed = false;
        g.c = kind(vc_range("kind", 0, 4));
        w = &g;
    }
    void run() {
        try {
            c(jagged_vector_view<const u32>(g.n, g.f.rows, g.f.rows),
              jagged_vector_view<u32>(m, g.t.rows, g.t.rows), g.c)->wait();
        } catch (const std::length_error&) {
            g.failed = true;
        }
    }
    void unchanged() {
        vc_check(g.t.rows[g.r].capacity() == g.tc(g.r) && g.f.rows[g.r].capacity() == fcap(g.r) &&
                 g.t.rows[g.r].ptr() == vc::ptr(g.t.heap + toff(g.r)),
                 "the descriptions are unchanged");
    }
};

template <bool TR, bool SAME>
void accepted() {
    const uint64_t n = vc_range("n", 1, ROWS);
    env<TR> e(n, n, SAME, true);
    e.run();
    vc_check(!e.g.failed, "a copy that fits succeeds");
    vc_check(e.g.rows_copied != e.g.block_copied, "the payload is copied once");
    if (TR) vc_check(e.g.t.sizes[e.g.r] == size(e.g.r), "sizes of a resizable target are set");
    else vc_check(e.c.copies == 0, "a fixed target has no sizes to set");
    e.unchanged();
    if (e.g.rows_copied) vc_cover("rows");
    if (SAME && e.g.block_copied) vc_cover("block");
    vc_cover("done");
}
PROOF(accepted_fixed) { NATIVE_TRIALS; accepted<false, false>(); }
PROOF(accepted_resizable) { NATIVE_TRIALS; accepted<true, false>(); }
PROOF(accepted_fixed_same) { NATIVE_TRIALS; accepted<false, true>(); }
PROOF(accepted_resizable_same) { NATIVE_TRIALS; accepted<true, true>(); }

// Some row does not fit: nothing happens.
template <bool TR>
void refused() {
    const uint64_t n = vc_range("n", 1, ROWS), b = vc_range("b", 0, ROWS);
    vc_assume(b < n);
    vc_watch(b);
    vc_assume(size(b) > tcap(b));
    env<TR> e(n, n, false, false);
    e.run();
    vc_check(e.g.failed, "a copy that does not fit is refused");
    vc_check(!e.g.rows_copied && !e.g.block_copied && e.c.copies == 0, "nothing is copied");
    if (TR) vc_check(e.g.t.sizes[e.g.r] == old_size(e.g.r), "the sizes are unchanged");
    e.unchanged();
    vc_cover("done");
}
PROOF(refused_fixed) { NATIVE_TRIALS; refused<false>(); }
PROOF(refused_resizable) { NATIVE_TRIALS; refused<true>(); }

// A different number of rows: nothing happens.
template <bool TR>
void rows_differ() {
    const uint64_t n = vc_range("n", 1, ROWS), m = vc_range("m", 1, ROWS);
    vc_assume(n != m);
    env<TR> e(n, m, false, false);
    e.run();
    vc_check(e.g.failed, "a different number of rows is refused");
    vc_check(!e.g.rows_copied && !e.g.block_copied && e.c.copies == 0, "nothing is copied");
    if (TR) vc_check(e.g.t.sizes[e.g.r] == old_size(e.g.r), "the sizes are unchanged");
    e.unchanged();
    vc_cover("done");
}
PROOF(rows_differ_fixed) { NATIVE_TRIALS; rows_differ<false>(); }
PROOF(rows_differ_resizable) { NATIVE_TRIALS; rows_differ<true>(); }

// Rows with a size of their own next to rows without one: refused before anything is written.
PROOF(mixed_rows) {
    NATIVE_TRIALS;
    const uint64_t n = vc_range("n", 2, ROWS), b = vc_range("b", 0, ROWS);
    vc_assume(b < n);
    vc_watch(b);
    env<true> e(n, n, false, true);
    e.g.t.rows[b] = vector_view<u32>(e.g.tc(b), e.g.t.rows[b].ptr());
    bool refused = false;
    try {
        e.run();
    } catch (const std::runtime_error&) {
        refused = true;
    }
    vc_check(refused, "an inconsistent target is refused");
    vc_check(!e.g.rows_copied && !e.g.block_copied && e.c.copies == 0, "nothing is copied");
    vc_check(e.g.t.sizes[e.g.r] == old_size(e.g.r), "the sizes are unchanged");
    vc_cover("done");
}

// A source without rows: nothing happens.
PROOF(empty) {
    NATIVE_TRIALS;
    world g;
    g.n = 0;
    g.rows_copied = g.block_copied = g.failed = false;
    w = &g;
    counting c;
    const uint64_t m = vc_range("m", 0, ROWS);
    c(jagged_vector_view<const u32>(0, nullptr, nullptr),
      jagged_vector_view<u32>(m, vc::array<vector_view<u32>>("to_rows", ROWS), nullptr),
      kind(vc_range("kind", 0, 4)))->wait();
    vc_check(!g.rows_copied && !g.block_copied && c.copies == 0, "nothing to do");
    vc_cover("done");
}
