// setup, memset and get_size(s) of vectors and jagged vectors.
//@ opt trials=1 unroll=3 nopeel
//@ flags -I$VERIF/specs/models/text
//@ replace .*4copy13is_contiguousIjE.* stub_is_contiguous
//@ trust the rows of one jagged view are all resizable, their sizes adjacent in memory, or none is
#define NATIVE_FILE "P03_native.inc"
#include "P02.inc"
#include "rows.inc"

// ---- one vector -------------------------------------------------------------------------------
// One allocation: [0, at) and [at + cap * sizeof(T), total) do not belong to the view.
struct bytes3 { unsigned char b[3]; };
template <typename T>
struct one {
    u32 cap = vc_range("cap", 0, vc::MAXN - 1), at = vc_range("at", 0, 1 << 20) * 8, size = cap;
    bool resizable = vc_bool("resizable");
    u32* sz = nullptr;
    uint64_t total = at + uint64_t(cap) * sizeof(T) + 64;
    unsigned char* mem = vc::array<unsigned char>("mem", total);
    uint64_t b = vc_range("b", 0, vc::MAXN * 16);
    unsigned char old;
    one() {
        vc_assume(b < total);
        vc_watch(b);
        old = mem[b];
        if (resizable) {
            sz = vc::array<u32>("size", 1);
            vc_assume(*sz <= cap);
            size = *sz;
        }
    }
    vector_view<T> view() {
        T* p = reinterpret_cast<T*>(mem + at);
        return resizable ? vector_view<T>(cap, sz, p) : vector_view<T>(cap, p);
    }
    bool inside() const { return b >= at && b < at + uint64_t(cap) * sizeof(T); }
};

template <typename T>
void setup_one() {
    one<T> e;
    vecmem::copy c;
    c.setup(e.view())->wait();
    if (e.resizable && e.cap) vc_check(*e.sz == 0, "a resizable vector is empty");
    vc_check(e.mem[e.b] == e.old, "nothing else is modified");
    vc_cover("done");
}
template <typename T>
void memset_one() {
    one<T> e;
    vecmem::copy c;
    const int v = int(vc_range("value", 0, 0xffffffff));
    c.memset(e.view(), v)->wait();
    if (e.inside()) vc_check(e.mem[e.b] == (unsigned char)(v), "every byte has the value");
    else vc_check(e.mem[e.b] == e.old, "nothing else is modified");
    if (e.resizable) vc_check(*e.sz == e.size, "the size is unchanged");
    vc_cover("done");
}
template <typename T>
void size_one() {
    one<T> e;
    vecmem::copy c;
    vc_check(c.get_size(e.view()) == e.size, "the size stored");
    vc_check(e.mem[e.b] == e.old, "nothing is modified");
    if (e.resizable) vc_check(*e.sz == e.size, "the size is unchanged");
    vc_cover("done");
}
PROOF(vector_setup_4) { NATIVE_TRIALS; setup_one<u32>(); }
PROOF(vector_setup_3) { NATIVE_TRIALS; setup_one<bytes3>(); }
PROOF(vector_memset_4) { NATIVE_TRIALS; memset_one<u32>(); }
PROOF(vector_memset_3) { NATIVE_TRIALS; memset_one<bytes3>(); }
PROOF(vector_size_4) { NATIVE_TRIALS; size_one<u32>(); }
PROOF(vector_size_3) { NATIVE_TRIALS; size_one<bytes3>(); }

// ---- jagged: setup ----------------------------------------------------------------------------
// Only a view with a description in separate (device) memory has to be copied there.
template <bool RESIZABLE, bool SEPARATE>
void setup_rows() {
    const uint64_t n = vc_range("n", 0, ROWS), r = vc_range("r", 0, ROWS);
    vc_assume(r < ROWS);
    vc_watch(r);
    const uint64_t q = vc_qvar();
    vc_forall(q, (q >= n) | ((fsize(q) <= fcap(q)) & (foff(q) < HEAP / 2)));
    table<u32> f;
    f.fill<ANY>("rows", "sizes", "heap", n, RESIZABLE, fcap, fsize, foff);
    auto* rows = f.rows;
    if (SEPARATE) rows = vc::array<vector_view<u32>>("device_rows", ROWS, 8);
    const u32 next = RESIZABLE ? f.sizes[r] : 0, capacity = rows[r].m_capacity;
    vecmem::copy c;
    c.setup(jagged_vector_view<u32>(n, rows, f.rows))->wait();
    if (r < n) {
        vc_check(rows[r].capacity() == fcap(r) && addr(rows[r].ptr()) == f.heap + foff(r),
                 "the description is usable");
        vc_check(rows[r].size_ptr() == (RESIZABLE ? f.sizes + r : nullptr), "so are the sizes");
        vc_check(f.rows[r].capacity() == fcap(r) && addr(f.rows[r].ptr()) == f.heap + foff(r) &&
                 f.rows[r].size_ptr() == (RESIZABLE ? f.sizes + r : nullptr),
                 "the description on the host is unchanged");
        if (RESIZABLE) vc_check(f.sizes[r] == 0, "every row is empty");
    } else {
        if (RESIZABLE) vc_check(f.sizes[r] == next, "no other sizes are set");
        if (SEPARATE) vc_check(rows[r].m_capacity == capacity, "nothing else is described");
    }
    vc_cover("done");
}
PROOF(setup_resizable_host) { NATIVE_TRIALS; setup_rows<true, false>(); }
PROOF(setup_resizable_device) { NATIVE_TRIALS; setup_rows<true, true>(); }
PROOF(setup_fixed_host) { NATIVE_TRIALS; setup_rows<false, false>(); }
PROOF(setup_fixed_device) { NATIVE_TRIALS; setup_rows<false, true>(); }

// ---- jagged: memset ---------------------------------------------------------------------------
static uint64_t g_n;
static const void* g_rows;
static bool g_adjacent;
extern "C" bool stub_is_contiguous(const void* rows, std::size_t n) {
    vc_check(n == g_n && rows == g_rows && n > 0, "all rows are looked at");
    return g_adjacent;
}
struct filling : vecmem::copy {
    uint64_t heap = 0, byte = 0;
    int value = 0;
    mutable bool hit = false;
    void do_memset(std::size_t n, void* p, int v) const override {
        vc_check(vc_object(p) == heap, "the memory of the rows");
        vc_check((v & 255) == (value & 255), "the given value");
        if (byte - addr(p) < n) hit = true;
    }
    void do_copy(std::size_t, const void*, void*, kind) const override {
        vc_check(false, "nothing is copied");
    }
};
template <layout L>
struct fill_rows {
    uint64_t n = vc_range("n", 0, ROWS), r = vc_range("r", 0, ROWS);
    filling c;
    table<u32> t;
    fill_rows() {
        vc_watch(r);
        const uint64_t q = vc_qvar();
        vc_forall(q, (q >= n) | (toff(q) < HEAP / 2));
        t.fill<L>("rows", "", "heap", n, false, tcap, old_size, toff);
        g_n = n;
        g_rows = t.rows;
        g_adjacent = L == ADJACENT;
        c.heap = t.heap;
        c.value = int(vc_range("value", 0, 0xffffffff));
    }
    void run() { c.memset(jagged_vector_view<u32>(n, t.rows, t.rows), c.value)->wait(); }
};
template <layout L>
void filled() {
    fill_rows<L> e;
    const uint64_t b = vc_range("b", 0, (vc::MAXN - 1) * 4);
    vc_assume(e.r < e.n && b < tcap(e.r) * 4ul);
    const uint64_t q = vc_qvar();
    if (L == ANY) vc_forall(q, (q >= e.n) | (q == e.r) | (toff(q) + tcap(q) * 4ul <= toff(e.r)) |
                                   (toff(e.r) + tcap(e.r) * 4ul <= toff(q)));
    e.c.byte = addr(e.t.rows[e.r].ptr()) + b;
    e.run();
    vc_check(e.c.hit, "every byte of every row is set");
    vc_check(e.t.rows[e.r].capacity() == tcap(e.r), "the description is unchanged");
    vc_cover("done");
}
PROOF(filled_adjacent) { NATIVE_TRIALS; filled<ADJACENT>(); }
PROOF(filled_any) { NATIVE_TRIALS; filled<ANY>(); }
PROOF(nothing_else_any) {
    NATIVE_TRIALS;
    fill_rows<ANY> e;
    const uint64_t b = vc_range("b", 0, HEAP - 1), q = vc_qvar();
    vc_forall(q, (q >= e.n) | (b < toff(q)) | (b >= toff(q) + tcap(q) * 4ul));
    e.c.byte = e.t.heap + b;
    e.run();
    vc_check(!e.c.hit, "nothing outside the rows is written");
    vc_cover("done");
}
PROOF(nothing_else_adjacent) {
    NATIVE_TRIALS;
    fill_rows<ADJACENT> e;
    const uint64_t b = vc_range("b", 0, HEAP - 1), last = e.n - 1;
    if (e.n) vc_assume(b < 8 || b >= addr(e.t.rows[last].ptr()) - e.t.heap + tcap(last) * 4ul);
    e.c.byte = e.t.heap + b;
    e.run();
    vc_check(!e.c.hit, "nothing outside the rows is written");
    vc_cover("done");
}
