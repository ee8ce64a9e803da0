// Structure-of-arrays containers with jagged columns, against the contracts of what works on one
// jagged column (copy_view_impl, memset: proved in P02 and P03; get_sizes and set_sizes in P02).
//@ flags -I$VERIF/specs/models/text
//@ opt trials=1 nopeel
//@ trust the text of error messages (std::stringstream) is not verified
//@ trust the columns of two buffers of the same kind and row capacities are at the same places (E02)
//@ replace _ZNK6vecmem4copy14copy_view_implIjEEbRKNS_4data18jagged_vector_view.* stub_copy
//@ replace _ZNK6vecmem4copy9get_sizesI.* stub_get_sizes
//@ replace _ZNK6vecmem4copy9set_sizesI.* stub_set_sizes
//@ replace _ZNK6vecmem4copy6memsetIjEE.*18jagged_vector_view.* stub_memset
#define NATIVE_FILE "E03_native.inc"
#include "P02.inc"
#include "vecmem/edm/host.hpp"
namespace edm = vecmem::edm;
using schema = edm::schema<edm::type::scalar<float>, edm::type::jagged_vector<u32>,
                           edm::type::vector<double>, edm::type::jagged_vector<u32>>;
using view = edm::view<schema>;
using const_view = edm::view<edm::details::add_const_t<schema>>;

// Row capacities and sizes of the two jagged columns of source and target.
static u32 cap(int side, int column, uint64_t i) { return u32(vc_fn(side ? "to_cap" : "from_cap", i, column)); }
static u32 rows_size(int column, uint64_t i) { return u32(vc_fn("size", i, column)); }

struct container {
    uint64_t n;                       // rows
    vector_view<u32>* rows[2];
    float* a;
    double* v;
    char *payload = nullptr, *sizes = nullptr;
    u32 payload_bytes = 0, sizes_bytes = 0;
    view w;
    container(int side, uint64_t count, bool buffer, bool resizable) : n(count), w(u32(count)) {
        a = vc::array<float>("scalar", 1);
        v = vc::array<double>("vector", n);
        for (int c = 0; c < 2; ++c) {
            vector_view<u32>* r = rows[c] = vc::array<vector_view<u32>>("rows", ROWS, 8);
            for (uint64_t i = 0;; ++i) {
                vc_head();
                if (i >= n) break;
                new (r + i) vector_view<u32>(cap(side, c, i), static_cast<u32*>(nullptr));
            }
        }
        if (buffer) {
            payload_bytes = vc_u32("payload_bytes");
            payload = static_cast<char*>(vc_mem("payload", payload_bytes, 8, 1));
            w.m_payload = {payload_bytes, payload};
        }
        if (resizable) {
            sizes_bytes = u32(n * 8);
            sizes = static_cast<char*>(vc_mem("sizes", sizes_bytes, 8, 1));
            w.m_size = {sizes_bytes, sizes};
        }
        w.template get<0>() = a;
        w.template get<1>() = {n, rows[0], rows[0]};
        w.template get<2>() = {u32(n), v};
        w.template get<3>() = {n, rows[1], rows[1]};
    }
    int which(const void* r) const { return r == rows[0] ? 0 : r == rows[1] ? 1 : 2; }
};
struct world {
    container *f, *t;
    uint64_t r;                       // an arbitrary row
    kind k;
    int copied[3] = {}, resized[3] = {}, filled[3] = {};
    int value = 0;
};
static world* w;

extern "C" {
bool stub_copy(const vecmem::copy*, const jagged_vector_view<const u32>* f, jagged_vector_view<u32> t, kind k) {
    const int c = w->f->which(f->host_ptr());
    vc_check(c < 2 && c == w->t->which(t.host_ptr()) && f->size() == w->f->n && t.size() == w->t->n && k == w->k,
             "from a column to the same column");
    if (f->size() != t.size() && f->size() != 0) throw std::length_error("rows");
    ++w->copied[c];
    return vc_bool("did_copy");
}
std::vector<u32> stub_get_sizes(const vecmem::copy*, const jagged_vector_view<const u32>* v) {
    const int c = w->f->which(v->host_ptr());
    const uint64_t n = w->f->n;
    vc_check(c < 2 && v->size() == n, "the sizes of a column of the source");
    u32* a = static_cast<u32*>(::operator new(n * sizeof(u32)));
    for (uint64_t i = 0;; ++i) {
        vc_head();
        if (i >= n) break;
        a[i] = rows_size(c, i);
    }
    std::vector<u32> r;
    r._M_impl._M_start = a;
    r._M_impl._M_finish = r._M_impl._M_end_of_storage = a + n;
    return r;
}
vecmem::copy::event_type stub_set_sizes(const vecmem::copy* self, const std::vector<u32>* s, jagged_vector_view<u32> t) {
    const int c = w->t->which(t.host_ptr());
    vc_check(c < 2 && t.size() == w->t->n && s->size() == w->t->n, "the sizes of a column of the target");
    if (w->t->n) vc_check((*s)[w->r] == rows_size(c, w->r), "from the same column of the source");
    ++w->resized[c];
    return self->create_event();
}
vecmem::copy::event_type stub_memset(const vecmem::copy* self, jagged_vector_view<u32> t, int value) {
    const int c = w->t->which(t.host_ptr());
    vc_check(c < 2 && t.size() == w->t->n, "a column");
    w->value = value;
    ++w->filled[c];
    return self->create_event();
}
}

// The remaining accesses.
struct logged : vecmem::copy {
    static constexpr int N = 6;
    struct entry { uint64_t n; const void* f; const void* t; int k; };
    mutable entry log[N];
    mutable int n = 0;
    void do_copy(std::size_t bytes, const void* f, void* t, kind k) const override {
        if (bytes == 0) return;
        vc_check(n < N, "few copies");
        log[n++] = {bytes, f, t, int(k)};
    }
    void do_memset(std::size_t bytes, void* t, int v) const override {
        if (bytes == 0) return;
        vc_check(n < N, "few accesses");
        log[n++] = {bytes, nullptr, t, v};
    }
    int times(uint64_t bytes, const void* f, const void* t, int k) const {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += log[i].t == t && log[i].f == f && log[i].n == bytes && log[i].k == k;
        return r;
    }
};

template <bool FR, bool TR>
static void copying() {
    const uint64_t n = vc_range("n", 0, ROWS), m = vc_range("m", 0, ROWS), r = vc_range("r", 0, ROWS);
    vc_watch(r);
    const bool fb = vc_bool("from_buffer"), tb = vc_bool("to_buffer");
    container f(0, n, fb, FR), t(1, m, tb, TR);
    world g;
    g.f = &f;
    g.t = &t;
    g.r = r;
    g.k = kind(vc_range("kind", 0, 4));
    vc_assume(n == 0 || m == 0 || (r < n && r < m));
    w = &g;
    logged c;
    bool refused = false;
    try {
        c(const_view(f.w), t.w, g.k)->wait();
    } catch (const std::length_error&) {
        refused = true;
    }
    const bool blob = g.copied[0] == 0 && g.copied[1] == 0 && !refused;
    vc_check(blob || refused == (n != m && n != 0), "refused exactly if the number of rows differs");
    if (refused) {
        vc_cover("refused");
        return;
    }
    if (blob) {
        vc_check(fb && tb, "both are buffers");
        vc_check(n == m && f.payload_bytes == t.payload_bytes, "of the same size");
        if (n)
            for (int k = 0; k < 2; ++k)
                vc_check(cap(0, k, r) == cap(1, k, r), "and the same shape");
        vc_check(f.payload_bytes == 0 || c.times(f.payload_bytes, f.payload, t.payload, int(g.k)) == 1, "copied once");
        int copies = f.payload_bytes != 0;
        if (TR && f.payload_bytes) {
            if (FR) {
                vc_check(n == 0 || c.times(8 * n, f.sizes, t.sizes, int(g.k)) == 1, "with all sizes");
                copies += n != 0;
            } else {
                vc_check(g.resized[0] == 1 && g.resized[1] == 1, "with all sizes");
            }
        }
        if (f.payload_bytes)
            vc_check(c.n == copies && (TR && !FR || g.resized[0] + g.resized[1] == 0), "and nothing else");
        else
            vc_check(c.n == (FR && TR ? c.times(8 * n, f.sizes, t.sizes, int(g.k)) : 0), "and nothing else");
        vc_cover("at once");
    } else {
        vc_check(g.copied[0] == 1 && g.copied[1] == 1, "every jagged column is copied");
        vc_check(c.times(4, f.a, t.a, int(g.k)) == 1, "so is the scalar");
        vc_check(n == 0 || c.times(8 * n, f.v, t.v, int(g.k)) == 1, "and the vector");
        vc_check(c.n == 1 + (n != 0) && g.resized[0] + g.resized[1] == 0, "and nothing else");
        vc_cover("by column");
    }
    vc_cover("done");
}
PROOF(jagged_fixed_fixed) { NATIVE_TRIALS; copying<false, false>(); }
PROOF(jagged_fixed_resizable) { NATIVE_TRIALS; copying<false, true>(); }
PROOF(jagged_resizable_fixed) { NATIVE_TRIALS; copying<true, false>(); }
PROOF(jagged_resizable_resizable) { NATIVE_TRIALS; copying<true, true>(); }

PROOF(jagged_preparation) {
    NATIVE_TRIALS;
    const uint64_t n = vc_range("n", 0, ROWS), r = vc_range("r", 0, ROWS);
    vc_watch(r);
    const bool buffer = vc_bool("buffer"), rs = vc_bool("resizable"), two = vc_bool("two_layouts");
    container t(1, n, buffer, rs);
    world g;
    g.f = g.t = &t;
    w = &g;
    u32 bytes = 0;
    char *l = nullptr, *h = nullptr;
    if (n) {
        bytes = u32(n * 32);
        l = static_cast<char*>(vc_mem("layout", bytes, 8, 1));
        h = two ? static_cast<char*>(vc_mem("host_layout", bytes, 8, 1)) : l;
        t.w.m_layout = {bytes, l};
        t.w.m_host_layout = {bytes, h};
    }
    logged c;
    c.setup(t.w)->wait();
    const bool copied = n && two, sized = n && rs;
    vc_check(!copied || c.times(bytes, h, l, vecmem::copy::type::unknown) == 1, "the description is transferred");
    vc_check(!sized || c.times(8 * n, nullptr, t.sizes, 0) == 1, "all sizes are zero");
    vc_check(c.n == copied + sized, "nothing else is touched");
    c.n = 0;
    const int value = int(vc_u32("value"));
    c.memset(t.w, value)->wait();
    if (buffer) {
        vc_check(t.payload_bytes == 0 || c.times(t.payload_bytes, nullptr, t.payload, value) == 1, "the payload is filled");
        vc_check(c.n == (t.payload_bytes != 0) && g.filled[0] + g.filled[1] == 0, "nothing else is touched");
    } else {
        vc_check(g.filled[0] == 1 && g.filled[1] == 1 && g.value == value, "every jagged column is filled");
        vc_check(c.times(4, nullptr, t.a, value) == 1 && (n == 0 || c.times(8 * n, nullptr, t.v, value) == 1),
                 "so are the others");
        vc_check(c.n == 1 + (n != 0), "nothing else is touched");
    }
    vc_check(c.get_size(t.w) == n, "the number of rows");
    vc_cover("done");
}
