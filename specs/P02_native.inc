// Real jagged copies over deterministic random layouts: what a refutation is replayed with.
#include <cstring>
#include <random>
#include "vecmem/containers/jagged_vector.hpp"
template <typename T>
struct sample {
    std::vector<unsigned char> heap;
    std::vector<u32> sizes, caps, offs;
    std::vector<vector_view<T>> rows;
    sample(std::mt19937& g, const std::vector<u32>& c, const std::vector<u32>& s, int kind,
           unsigned sized, int lay) {
        // kind 0: fixed, 1: resizable; lay 0: adjacent, 1: gaps, 2: reverse order
        const std::size_t n = c.size();
        caps = c;
        sizes = s;
        offs.resize(n);
        uint64_t total = 64;
        for (std::size_t k = 0; k < n; ++k) {
            std::size_t i = lay == 2 ? n - 1 - k : k;
            if (lay == 1) total += sizeof(T) * (g() % 3);
            offs[i] = u32(total);
            total += uint64_t(c[i]) * sizeof(T);
        }
        heap.resize(total + 64);
        for (auto& b : heap) b = (unsigned char)(g());
        for (std::size_t i = 0; i < n; ++i) {
            T* p = reinterpret_cast<T*>(heap.data() + offs[i]);
            if (kind && sized) rows.push_back(vector_view<T>(c[i], sizes.data() + i, p));
            else rows.push_back(vector_view<T>(c[i], p));
        }
    }
};
inline void native_trials() {
    using F = const u32;
    std::mt19937 g(12345);
    vecmem::copy c;
    for (int t = 0; t < 20000; ++t) {
        const std::size_t n = g() % 6;
        const std::size_t m = g() % 12 ? n : g() % 6;
        const int fk = g() % 2, tk = g() % 2;
        std::vector<u32> fc(n), fs(n), tc(m), ts(m);
        const bool same = g() % 2, full = g() % 2;
        for (std::size_t i = 0; i < n; ++i) {
            fc[i] = g() % 5;
            fs[i] = fk && !full ? g() % (fc[i] + 1) : fc[i];
        }
        for (std::size_t i = 0; i < m; ++i) {
            tc[i] = i < n ? (same ? fc[i] : fs[i] + g() % 3 - (g() % 20 == 0)) : g() % 5;
            if (int(tc[i]) < 0) tc[i] = 0;
            ts[i] = tk ? g() % (tc[i] + 1) : tc[i];
        }
        sample<F> f(g, fc, fs, fk, 1, g() % 3);
        sample<u32> to(g, tc, ts, tk, 1, g() % 3);
        bool mixed = false;
        if (tk && m > 1 && g() % 8 == 0) {
            const std::size_t r = g() % m;
            to.rows[r] = vector_view<u32>(tc[r], to.rows[r].ptr());
            mixed = true;
        }
        auto heap = to.heap;
        auto source = f.heap;
        bool fits = n == 0 || (n == m && !mixed);
        for (std::size_t i = 0; fits && i < n; ++i) fits = fs[i] <= tc[i];
        bool failed = false;
        try {
            c(jagged_vector_view<F>(n, f.rows.data(), f.rows.data()),
              jagged_vector_view<u32>(m, to.rows.data(), to.rows.data()), kind(g() % 5))->wait();
        } catch (const std::exception&) {
            failed = true;
        }
        vc_check(failed == !fits, "a copy is refused exactly if it does not fit");
        vc_check(f.heap == source, "the source is unchanged");
        if (!fits) {
            vc_check(to.heap == heap && to.sizes == ts, "a refused copy changes nothing");
            continue;
        }
        if (!n) vc_check(to.sizes == ts, "nothing to copy");
        for (std::size_t i = 0; i < n; ++i) {
            if (tk) vc_check(to.sizes[i] == fs[i], "sizes of a resizable target are set");
            vc_check(std::memcmp(to.heap.data() + to.offs[i], f.heap.data() + f.offs[i],
                                 4 * fs[i]) == 0, "the rows are copied");
            std::memcpy(heap.data() + to.offs[i], to.heap.data() + to.offs[i], 4 * tc[i]);
        }
        vc_check(heap == to.heap, "nothing but the rows is written");
        if (n != m) continue;
        // The same to host vectors and to a new buffer.
        jagged_vector_view<F> v(n, f.rows.data(), f.rows.data());
        vecmem::jagged_vector<u32> h;
        c(v, h)->wait();
        vc_check(h.size() == n, "as many rows");
        for (std::size_t i = 0; i < n; ++i)
            vc_check(h[i].size() == fs[i] && (!fs[i] ||
                     std::memcmp(h[i].data(), f.heap.data() + f.offs[i], 4 * fs[i]) == 0),
                     "host rows equal the source");
    }
    vc_cover("done");
}
