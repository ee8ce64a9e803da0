// Contracts of is_contiguous and get_sizes, which copies and fillings of jagged vectors rely on.
template <bool RESIZABLE>
void get_sizes_of() {
    const uint64_t n = vc_range("n", 0, ROWS), r = vc_range("r", 0, ROWS);
    vc_watch(r);
    const uint64_t q = vc_qvar();
    vc_forall(q, (q >= n) | ((fsize(q) <= fcap(q)) & (foff(q) < HEAP / 2)));
    table<const u32> f;
    f.fill<ANY>("rows", "sizes", "heap", n, RESIZABLE, fcap, fsize, foff);
    vecmem::copy c;
    const auto s = c.get_sizes(jagged_vector_view<const u32>(n, f.rows, f.rows));
    vc_check(s.size() == n, "one size per row");
    if (r < n) {
        vc_check(s[r] == (RESIZABLE ? fsize(r) : fcap(r)), "the size of the row");
        vc_check(f.rows[r].capacity() == fcap(r), "the descriptions are unchanged");
        if (RESIZABLE) vc_check(f.sizes[r] == fsize(r), "the sizes are unchanged");
    }
    vc_cover("done");
}

// ---- is_contiguous: true only if every row starts where its predecessor ends ------------------
PROOF(contiguous_means_adjacent) {
    NATIVE_TRIALS;
    const uint64_t n = vc_range("n", 1, ROWS), k = vc_range("k", 0, ROWS);
    vc_assume(k + 1 < n);
    vc_watch(k);
    const uint64_t q = vc_qvar();
    vc_forall(q, (q >= n) | (foff(q) < HEAP / 2));
    table<const u32> f;
    f.fill<ANY>("rows", "sizes", "heap", n, false, fcap, fsize, foff);
    if (vecmem::copy::is_contiguous(f.rows, n)) {
        vc_check(f.rows[k + 1].ptr() == f.rows[k].ptr() + f.rows[k].capacity(), "adjacent rows");
        vc_cover("contiguous");
    } else {
        vc_cover("not contiguous");
    }
    vc_cover("done");
}

// ---- get_sizes: the size of every row
PROOF(sizes_of_resizable_rows) { NATIVE_TRIALS; get_sizes_of<true>(); }
PROOF(sizes_of_fixed_rows) { NATIVE_TRIALS; get_sizes_of<false>(); }

