// Deterministic histories of requests and releases on a real resource above a checked upstream:
// what a refutation is replayed with.
#include <map>
#include <memory>
#include <random>
#include <utility>
#include <vector>
namespace trials {
struct checked : vecmem::memory_resource {
    std::mt19937& g;
    std::vector<unsigned char> dummy;
    uint64_t heap, top, bottom;        // blocks grow up from top or down from bottom
    int spread;                        // 0: adjacent, 1: gaps
    unsigned fail = 0;                 // one in so many requests is refused
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> live;
    uint64_t calls = 0;
    explicit checked(std::mt19937& r) : g(r) {
        heap = uint64_t(1) << 40;      // never accessed
        top = bottom = heap + (uint64_t(1) << 41);
        spread = g() % 2;
    }
    void* do_allocate(std::size_t n, std::size_t a) override {
        ++calls;
        vc_check(a && !(a & (a - 1)), "upstream is asked for a power-of-two alignment");
        if (n > (uint64_t(1) << 36)) throw std::bad_alloc();
        if (fail && g() % fail == 0) throw std::bad_alloc();
        uint64_t p;
        if (g() % 2) {
            p = top + (spread ? g() % 3 * 4096 : 0);
            p = (p + a - 1) & ~(a - 1);
            top = p + n;
        } else {
            p = bottom - n - (spread ? g() % 3 * 4096 : 0);
            p &= ~(a - 1);
            bottom = p;
        }
        live[p] = {n, a};
        return reinterpret_cast<void*>(p);
    }
    void do_deallocate(void* q, std::size_t n, std::size_t a) override {
        auto it = live.find(uint64_t(q));
        vc_check(it != live.end(), "only live upstream blocks are given back, once");
        vc_check(it->second == std::make_pair(uint64_t(n), uint64_t(a)),
                 "with their original size and alignment");
        live.erase(it);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override {
        return this == &o;
    }
    bool holds(uint64_t p, uint64_t n) const {
        auto it = live.upper_bound(p);
        if (it == live.begin()) return false;
        --it;
        return p >= it->first && p + n <= it->first + it->second.first;
    }
};
struct block { uint64_t p, n, a; };

// make(upstream, g) -> unique_ptr to a resource; size(g), alignment(g) -> requests.
template <typename M, typename S, typename A>
void run(unsigned seed, int histories, int steps, bool failing, M make, S size, A alignment) {
    std::mt19937 g(seed);
    for (int h = 0; h < histories; ++h) {
        checked up(g);
        {
            auto r = make(up, g);
            if (!r) continue;
            if (failing && h % 3 == 2) up.fail = 4;
            std::vector<block> blocks;
            const unsigned bias = 2 + g() % 4;
            for (int s = 0; s < steps; ++s) {
                if (blocks.empty() || g() % bias) {
                    block b{0, size(g), alignment(g)};
                    try {
                        b.p = uint64_t(r->allocate(b.n, b.a));
                    } catch (const std::bad_alloc&) {
                        continue;
                    }
                    if (!b.n && g() % 2) {
                        r->deallocate(reinterpret_cast<void*>(b.p), b.n, b.a);
                        continue;
                    }
                    if (!b.n) continue;
                    vc_check((b.p & (b.a - 1)) == 0, "aligned as requested");
                    vc_check(up.holds(b.p, b.n), "inside live upstream memory");
                    for (const block& o : blocks)
                        vc_check(b.p + b.n <= o.p || o.p + o.n <= b.p, "live blocks do not overlap");
                    blocks.push_back(b);
                } else {
                    const std::size_t i = g() % blocks.size();
                    const block b = blocks[i];
                    blocks[i] = blocks.back();
                    blocks.pop_back();
                    r->deallocate(reinterpret_cast<void*>(b.p), b.n, b.a);
                }
                for (const block& o : blocks)
                    vc_check(up.holds(o.p, o.n), "live blocks stay inside live upstream memory");
            }
            if (g() % 2)
                for (const block& b : blocks)
                    r->deallocate(reinterpret_cast<void*>(b.p), b.n, b.a);
        }
        vc_check(up.live.empty(), "everything is given back upon destruction");
    }
}
}  // namespace trials
