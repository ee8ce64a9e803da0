// Jagged device vectors and their iterators: any number of rows, any rows.
#include "vc.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
using vc::addr;
using u32 = uint32_t;
using vecmem::device_vector;
using vecmem::data::jagged_vector_view;
using vecmem::data::vector_view;
using J = vecmem::jagged_device_vector<u32>;
constexpr uint64_t ROWS = uint64_t(1) << 40;

// n rows; row i, arbitrary, has capacity cap, the size variable s and its elements at p
struct env {
    uint64_t n, i;
    vector_view<u32>* rows;
    u32 cap, *s, *p;
    J v;
    explicit env(uint64_t min = 1)
        : n(vc_range("rows", min, ROWS)),
          i(vc_range("row", 0, ROWS)),
          rows(static_cast<vector_view<u32>*>(vc_mem("views", n * sizeof(vector_view<u32>), 8, 4))),
          cap(vc_range("capacity", 0, vc::MAXN - 1)),
          s(vc_bool("resizable") ? vc::array<u32>("sizevar", 1) : nullptr),
          p(vc::array<u32>("mem", cap)),
          v(jagged_vector_view<u32>(n, rows)) {
        vc_assume(i < n);
        rows[i] = vector_view<u32>(cap, s, p);
        if (s) vc_assume(*s <= cap);
    }
    template <typename D>
    void is_row(const D& d, const char* what = "row i is the i-th described vector") {
        vc_check(d.data() == p && d.capacity() == cap && d.size() == (s ? *s : cap), what);
    }
};
PROOF(rows) {
    env e;
    const J& c = e.v;
    J w(e.v), x(jagged_vector_view<u32>(0, nullptr));
    vc_check(x.size() == 0 && x.empty() && x.begin() == x.end(), "no rows");
    x = e.v;
    x = x;
    vc_check(c.size() == e.n && c.max_size() == e.n && c.capacity() == e.n && c.empty() == (e.n == 0) &&
                 w.size() == e.n && x.size() == e.n, "number of rows");
    e.is_row(e.v[e.i]);
    e.is_row(c[e.i]);
    e.is_row(e.v.at(e.i));
    e.is_row(c.at(e.i));
    e.is_row(w[e.i]);
    e.is_row(x[e.i]);
    e.is_row(*(e.v.begin() + e.i));
    e.is_row(*(c.begin() + e.i));
    e.is_row(*(c.cbegin() + e.i));
    e.is_row(e.v.begin()[e.i]);
    e.is_row(c.begin()[e.i]);
    if (e.i == 0) {
        e.is_row(e.v.front());
        e.is_row(c.front());
        vc_cover("first");
    }
    if (e.i == e.n - 1) {
        e.is_row(e.v.back());
        e.is_row(c.back());
        vc_cover("last");
    }
    vc_cover("done");
}
PROOF(ends) {
    env e;
    const J& c = e.v;
    vc_check(e.v.end() == e.v.begin() + e.n && c.end() == c.begin() + e.n && c.cend() == c.cbegin() + e.n &&
                 c.cbegin() == c.begin(), "iteration covers exactly the rows");
    vc_check(e.v.rbegin().base() == e.v.end() && e.v.rend().base() == e.v.begin() &&
                 c.rbegin().base() == c.end() && c.rend().base() == c.begin() &&
                 c.crbegin().base() == c.cend() && c.crend().base() == c.cbegin(),
             "reverse iteration covers exactly the rows");
    vc_check(e.v.begin() != e.v.end() && !(e.v.begin() == e.v.end()), "rows are visited");
    J::const_iterator f = e.v.begin() + e.i;
    vc_check(f == c.begin() + e.i, "conversion to constant rows");
    e.is_row(*f);
    J::const_iterator g(e.rows + e.i);
    vc_check(g == f, "conversion to constant rows");
    J::const_reverse_iterator r = e.v.rbegin();
    vc_check(r == c.rbegin(), "conversion to constant rows");
    vc_cover("done");
}
PROOF(iterator) {
    env e;
    uint64_t a = vc_range("a", 0, ROWS), b = vc_range("b", 0, ROWS);
    vc_assume(a <= e.n && b <= e.n);
    using I = J::iterator;
    I x(e.rows + a), y(e.rows + b), z;
    int64_t d = int64_t(b - a);
    vc_check((x == y) == (a == b) && (x != y) == (a != b), "equal exactly at the same row");
    z = x;
    z = z;
    I q(x);
    vc_check(z == x && q == x, "copies are equal");
    vc_check(x + d == y && y - d == x && (q += d) == y && q == y && (q -= d) == x && q == x, "position arithmetic");
    if (a < e.n) {
        vc_check(z++ == x && z == x + 1 && &++q == &q && q == z, "++");
        vc_check(z-- == x + 1 && z == x && &--q == &q && q == x, "--");
        vc_cover("step");
    }
    I r(e.rows + e.i);
    e.is_row(*r);
    vc_check(r->data() == e.p && r->capacity() == e.cap, "member access");
    e.is_row(x[int64_t(e.i - a)], "offset access");
    const auto pr = r.operator->();
    auto pq = r.operator->();
    e.is_row(*pr.operator->());
    e.is_row(*pq.operator->());
    vc_cover("done");
}
PROOF(reverse) {
    env e;
    using R = J::reverse_iterator;
    uint64_t a = vc_range("a", 0, ROWS), b = vc_range("b", 0, ROWS);
    vc_assume(a <= e.n && b <= e.n);
    R x = e.v.rbegin() + a, y = e.v.rbegin() + b, z, q(x);
    int64_t d = int64_t(b - a);
    vc_check(x.base() == e.v.end() - a && (x == y) == (a == b) && (x != y) == (a != b),
             "equal exactly at the same row");
    z = x;
    vc_check(x + d == y && y - d == x && (q += d) == y && q == y && (q -= d) == x && q == x && z == x,
             "position arithmetic");
    if (a < e.n) {
        vc_check(z++ == x && z == x + 1 && &++q == &q && q == z, "++");
        vc_check(z-- == x + 1 && z == x && &--q == &q && q == x, "--");
        vc_cover("step");
    }
    uint64_t k = e.n - 1 - e.i;
    R r = e.v.rbegin() + k;
    e.is_row(*r, "reverse order");
    e.is_row(e.v.rbegin()[k], "reverse order");
    e.is_row(x[int64_t(k - a)], "reverse order");
    e.is_row(*(e.v.crbegin() + k), "reverse order");
    vc_check(r->data() == e.p && r->capacity() == e.cap, "reverse order");
    vc_cover("done");
}
PROOF(write) {
    env e;
    u32 n = e.s ? *e.s : e.cap, j = vc_range("j", 0, vc::MAXN - 1), x = vc_u32("x");
    vc_assume(j < n);
    auto row = e.v[e.i];
    row[j] = x;
    vc_check(e.p[j] == x && e.v[e.i][j] == x && e.v.begin()[e.i].at(j) == x, "writes reach the row");
    if (e.s && n < e.cap) {
        row.push_back(x);
        vc_check(*e.s == n + 1 && e.v[e.i].size() == n + 1 && e.v[e.i].back() == x, "rows grow in place");
        vc_cover("grow");
    }
    vc_cover("done");
}
