// Copies between jagged vectors of any number of rows with any memory layout, function by function:
// the private helpers of vecmem::copy each against their contract, then copy_view_impl against the
// contracts of its helpers.  The rows' memory is abstract: the transfer primitive (do_copy, proved
// to be a memory copy under P01) records where one arbitrary byte of the target comes from.
//@ flags -I$VERIF/specs/models/text
//@ opt trials=1 unroll=3 nopeel
//@ trust the text of error messages (std::stringstream) is not verified
//@ trust the rows of one jagged view are all resizable, their sizes adjacent in memory, or none is
#include "P02.inc"

#include "rows.inc"

// ---- copy_views_impl: row by row --------------------------------------------------------------
// Pre: no row is longer than the capacities, the rows of the target do not overlap.
struct rows {
    uint64_t n = vc_range("n", 1, ROWS), r = vc_range("r", 0, ROWS);
    tracking<u32> c;
    table<const u32> f;
    table<u32> t;
    u32* sizes;
    rows() {
        vc_assume(r < n);
        vc_watch(r);
        const uint64_t q = vc_qvar();
        vc_forall(q, (q >= n) | ((size(q) <= fcap(q)) & (size(q) <= tcap(q)) &
                                 (foff(q) < HEAP / 2) & (toff(q) < HEAP / 2)));
        vc_forall(q, (q >= n) | (q == r) | (toff(q) + tcap(q) * 4ul <= toff(r)) |
                         (toff(r) + tcap(r) * 4ul <= toff(q)));
        f.fill<ANY>("from_rows", "", "from_heap", n, false, fcap, fsize, foff);
        t.fill<ANY>("to_rows", "", "to_heap", n, false, tcap, fsize, toff);
        sizes = numbers("sizes", n, size);
        c.watch(f.heap, t.heap);
    }
    void run() {
        any_vector<u32> s(sizes, n);
        c.copy_views_impl<u32>(s.v, f.rows, t.rows, c.k);
    }
};
PROOF(rows_copied) {
    NATIVE_TRIALS;
    rows e;
    const uint64_t b = vc_range("b", 0, (vc::MAXN - 1) * 4);
    vc_assume(b < tcap(e.r) * 4ul);
    e.c.byte = addr(e.t.rows[e.r].ptr()) + b;
    const uint64_t src = addr(e.f.rows[e.r].ptr());
    e.run();
    if (b < size(e.r) * 4ul) {
        vc_check(e.c.origin == src + b, "every element comes from its place in the source");
        vc_cover("element");
    } else {
        vc_check(e.c.origin == 0, "the rest of a row is not written");
        vc_cover("rest");
    }
    vc_cover("done");
}
PROOF(rows_only) {
    NATIVE_TRIALS;
    rows e;
    const uint64_t b = vc_range("b", 0, HEAP - 1), q = vc_qvar();
    vc_forall(q, (q >= e.n) | (b < toff(q)) | (b >= toff(q) + tcap(q) * 4ul));
    e.c.byte = e.t.heap + b;
    e.run();
    vc_check(e.c.origin == 0, "nothing outside the rows is written");
    vc_cover("done");
}

// ---- copy_views_contiguous_impl: in one go ----------------------------------------------------
// Pre: in both views every row starts where its predecessor ends, and has the given capacity.
struct block {
    uint64_t n = vc_range("n", 1, ROWS), r = vc_range("r", 0, ROWS);
    tracking<u32> c;
    table<const u32> f;
    table<u32> t;
    u32* caps;
    block() {
        vc_assume(r < n);
        vc_watch(r);
        f.fill<ADJACENT>("from_rows", "", "from_heap", n, false, fcap, fsize, foff);
        t.fill<ADJACENT>("to_rows", "", "to_heap", n, false, fcap, fsize, toff);
        caps = numbers("capacities", n, fcap);
        c.watch(f.heap, t.heap);
    }
    void run() {
        any_vector<u32> s(caps, n);
        c.copy_views_contiguous_impl<u32>(s.v, f.rows, t.rows, c.k);
    }
};
PROOF(block_copied) {
    NATIVE_TRIALS;
    block e;
    const uint64_t b = vc_range("b", 0, (vc::MAXN - 1) * 4);
    vc_assume(b < fcap(e.r) * 4ul);
    e.c.byte = addr(e.t.rows[e.r].ptr()) + b;
    const uint64_t src = addr(e.f.rows[e.r].ptr());
    e.run();
    vc_check(e.c.origin == src + b, "every element comes from its place in the source");
    vc_cover("done");
}
PROOF(block_only) {
    NATIVE_TRIALS;
    block e;
    const uint64_t b = vc_range("b", 0, HEAP - 1), last = e.n - 1;
    vc_assume(b < 8 || b >= addr(e.t.rows[last].ptr()) - e.t.heap + fcap(last) * 4ul);
    e.c.byte = e.t.heap + b;
    e.run();
    vc_check(e.c.origin == 0, "nothing outside the rows is written");
    vc_cover("done");
}
