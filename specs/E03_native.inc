// Real copies between random structure-of-arrays containers: what a refutation is replayed with.
#include <cstring>
#include <map>
#include <random>
#include "vecmem/edm/host.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/edm/buffer.hpp"
namespace trials {
namespace edm = vecmem::edm;
using edm::type::scalar;
using edm::type::vector;
using vecmem::data::buffer_type;
using vecmem::data::vector_view;
using u32 = uint32_t;
using edm::type::jagged_vector;
template <typename B> struct plain : B { using B::B; };
// Blocks with guards, filled with garbage.
struct guarded : vecmem::memory_resource {
    std::map<void*, std::size_t> live;
    void* do_allocate(std::size_t n, std::size_t) override {
        char* p = static_cast<char*>(::operator new(n + 256, std::align_val_t(128)));
        std::memset(p, 0xA5, n + 256);
        live[p + 128] = n;
        return p + 128;
    }
    void check() const {
        for (const auto& [p, n] : live)
            for (int i = 0; i < 128; ++i)
                vc_check(static_cast<unsigned char*>(p)[-1 - i] == 0xA5 &&
                         static_cast<unsigned char*>(p)[n + i] == 0xA5, "nothing else is written");
    }
    void do_deallocate(void* p, std::size_t n, std::size_t) override {
        check();
        vc_check(live.count(p) && live[p] == n, "released as allocated");
        live.erase(p);
        ::operator delete(static_cast<char*>(p) - 128, std::align_val_t(128));
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
using random = std::mt19937;
template <typename T> T value(random& g) { return T(g() % 100 + 1); }
template <typename V> struct col;
template <typename T> struct col<scalar<T>> {
    static constexpr bool jagged = false;
    static void fill(random& g, T& a, std::size_t, std::vector<u32>&) { a = value<T>(g); }
    static void equal(const T& a, const T& b, std::size_t) { vc_check(a == b, "scalars are copied"); }
    static bool all(T* v, u32, const std::vector<u32>&, unsigned char c) { return bytes(v, sizeof(T), c); }
    static bool bytes(const void* p, std::size_t n, unsigned char c) {
        for (std::size_t i = 0; i < n; ++i) if (static_cast<const unsigned char*>(p)[i] != c) return false;
        return true;
    }
    static void sizes(const T&, std::vector<u32>&) {}
};
template <typename T> struct col<vector<T>> {
    static constexpr bool jagged = false;
    static void fill(random& g, vecmem::vector<T>& a, std::size_t n, std::vector<u32>&) {
        vc_check(a.size() == n, "columns are resized");
        for (auto& x : a) x = value<T>(g);
    }
    static void equal(const vecmem::vector<T>& a, const vecmem::vector<T>& b, std::size_t n) {
        vc_check(b.size() >= n && a.size() >= n, "sizes");
        for (std::size_t i = 0; i < n; ++i) vc_check(a[i] == b[i], "elements are copied");
    }
    static bool all(const vector_view<T>& v, u32 n, const std::vector<u32>&, unsigned char c) {
        return col<scalar<T>>::bytes(v.ptr(), n * sizeof(T), c);
    }
    static void sizes(const vecmem::vector<T>&, std::vector<u32>&) {}
};
template <typename T> struct col<jagged_vector<T>> {
    static constexpr bool jagged = true;
    static void fill(random& g, vecmem::jagged_vector<T>& a, std::size_t n, std::vector<u32>& rows) {
        vc_check(a.size() == n, "columns are resized");
        for (std::size_t i = 0; i < n; ++i) {
            a[i].resize(rows[i]);
            for (auto& x : a[i]) x = value<T>(g);
        }
    }
    static void equal(const vecmem::jagged_vector<T>& a, const vecmem::jagged_vector<T>& b, std::size_t n) {
        vc_check(b.size() == n && a.size() == n, "rows");
        for (std::size_t i = 0; i < n; ++i) {
            vc_check(b[i].size() >= a[i].size(), "row sizes");
            for (std::size_t j = 0; j < a[i].size(); ++j) vc_check(a[i][j] == b[i][j], "elements are copied");
        }
    }
    static bool all(const vecmem::data::jagged_vector_view<T>& v, u32 n, const std::vector<u32>& rows, unsigned char c) {
        for (u32 i = 0; i < n; ++i)
            if (!col<scalar<T>>::bytes(v.host_ptr()[i].ptr(), rows[i] * sizeof(T), c)) return false;
        return true;
    }
    static void sizes(const vecmem::jagged_vector<T>& a, std::vector<u32>& s) {
        s.clear();
        for (const auto& r : a) s.push_back(u32(r.size()));
    }
};
template <typename... V> struct schema_trials {
    using schema = edm::schema<V...>;
    using view = edm::view<schema>;
    using const_view = edm::view<edm::details::add_const_t<schema>>;
    using host = edm::host<schema, plain>;
    static constexpr int J = (int(col<V>::jagged) + ...);
    template <std::size_t... I>
    static void fill(random& g, host& h, std::size_t n, std::vector<u32>& rows, std::index_sequence<I...>) {
        (col<V>::fill(g, h.template get<I>(), n, rows), ...);
    }
    template <std::size_t... I>
    static void equal(const host& a, const host& b, std::size_t n, std::index_sequence<I...>) {
        (col<V>::equal(a.template get<I>(), b.template get<I>(), n), ...);
    }
    template <std::size_t... I>
    static bool all(const view& v, u32 n, const std::vector<u32>& rows, unsigned char c, std::index_sequence<I...>) {
        return (col<V>::all(v.template get<I>(), n, rows, c) && ...);
    }
    template <std::size_t... I>
    static void rows_equal(const host& h, const std::vector<u32>& expected, std::index_sequence<I...>) {
        std::vector<u32> s;
        ((col<V>::sizes(h.template get<I>(), s),
          vc_check(!col<V>::jagged || s == expected, "row sizes arrive")), ...);
    }
    static edm::buffer<schema> make(const std::vector<u32>& caps, guarded& m, bool rs) {
        const auto type = rs ? buffer_type::resizable : buffer_type::fixed_size;
        if constexpr (J) return edm::buffer<schema>(caps, m, nullptr, type);
        else return edm::buffer<schema>(u32(caps.size()), m, type);
    }
    static void run(random& g, int steps) {
        constexpr auto all_ = std::index_sequence_for<V...>{};
        vecmem::copy c;
        for (int t = 0; t < steps; ++t) {
            guarded m;
            const std::size_t n = g() % 6;
            host h(m), back(m);
            h.resize(n);
            vc_check(h.size() == n, "resized");
            back.resize(g() % 4);
            std::vector<u32> rows(n), ca, cb;
            for (auto& r : rows) r = g() % 5;
            fill(g, h, n, rows, all_);
            const bool ra = g() % 2, rb = g() % 2;
            bool fits = true;
            ca = rows;
            for (auto& r : ca) r += g() % 3;
            if (!J) ca.resize(n + g() % 3);
            std::vector<u32> used = J ? (ra ? rows : ca) : std::vector<u32>(ra ? n : ca.size());
            cb = g() % 2 ? ca : used;
            if (!(g() % 4)) for (auto& r : cb) { r += g() % 3; if (g() % 8 == 0 && r) --r; }
            if (J && g() % 4 == 0) std::shuffle(cb.begin(), cb.end(), g);
            if (!J && g() % 2) cb.resize(used.size() + g() % 3 - (used.size() && g() % 8 == 0));
            if (J) for (std::size_t i = 0; i < n; ++i) fits = fits && used[i] <= cb[i];
            else fits = used.size() <= cb.size();
            auto a = make(ca, m, ra), b = make(cb, m, rb);
            c.setup(a)->wait();
            c.setup(b)->wait();
            if (ra && (!J || n)) {
                const auto d = view(a).size();
                vc_check(d.size() == (J ? 4 * n * J : 4) && col<scalar<int>>::bytes(d.ptr(), d.size(), 0),
                         "setup empties the container");
            }
            const unsigned char z = (unsigned char)(g());
            c.memset(view(a), z)->wait();
            vc_check(all(a, u32(ca.size()), ca, z, all_), "memset fills every column");
            host other(m);
            other.resize(n);
            fill(g, other, n, rows, all_);
            auto od = vecmem::get_data(other);
            c.memset(view(od), z)->wait();
            vc_check(all(view(od), u32(n), rows, z, all_), "memset fills every column");
            c(vecmem::get_data(h), view(a))->wait();
            bool refused = false;
            try {
                c(const_view(view(a)), view(b))->wait();
            } catch (const std::length_error&) {
                refused = true;
            }
            vc_check(refused == !fits, "refused exactly if it does not fit");
            if (fits) {
                c(const_view(view(b)), back)->wait();
                const std::size_t size = J ? n : rb ? used.size() : cb.size();
                vc_check(back.size() == size, "the size arrives");
                if (!J) vc_check(c.get_size(view(b)) == size, "the size is read");
                equal(h, back, n, all_);
                rows_equal(back, rb ? used : cb, all_);
            }
            m.check();
        }
    }
};
inline void all() {
    random g(4711);
    schema_trials<scalar<int>, vector<int>, vector<float>>::run(g, 2000);
    schema_trials<vector<char>, scalar<double>, vector<short>, vector<double>>::run(g, 2000);
    schema_trials<vector<char>, vector<char>, scalar<double>>::run(g, 2000);
    schema_trials<scalar<float>, jagged_vector<double>, vector<char>, jagged_vector<int>>::run(g, 4000);
    schema_trials<jagged_vector<char>, vector<double>, jagged_vector<short>>::run(g, 4000);
    vc_cover("done");
}
}  // namespace trials
inline void native_trials() { trials::all(); }
