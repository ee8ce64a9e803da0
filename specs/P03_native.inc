// Deterministic trials of the real setup, memset and size queries: what a refutation is replayed with.
#include <cstring>
#include <random>
template <typename T>
inline void native_one(std::mt19937& g) {
    const u32 cap = g() % 9, at = g() % 5 * sizeof(T);
    const int value = int(g());
    const bool sized = g() % 2;
    std::vector<unsigned char> mem(at + cap * sizeof(T) + 32);
    for (auto& b : mem) b = (unsigned char)(g());
    const auto old = mem;
    u32 size[2] = {cap ? u32(g() % (cap + 1)) : 0, 77};
    const u32 was = size[0];
    T* p = reinterpret_cast<T*>(mem.data() + at);
    vector_view<T> v = sized ? vector_view<T>(cap, size, p) : vector_view<T>(cap, p);
    vecmem::copy c;
    vc_check(c.get_size(v) == (sized ? was : cap), "the size stored");
    vc_check(mem == old && size[0] == was, "size queries modify nothing");
    c.memset(v, value)->wait();
    for (std::size_t b = 0; b < mem.size(); ++b) {
        const bool in = b >= at && b < at + cap * sizeof(T);
        vc_check(mem[b] == (in ? (unsigned char)(value) : old[b]), "exactly the elements are set");
    }
    vc_check(size[0] == was, "the size is unchanged");
    const auto now = mem;
    c.setup(v)->wait();
    vc_check(mem == now && size[1] == 77, "setup modifies nothing else");
    vc_check(size[0] == (sized && cap ? 0 : was), "a resizable vector is empty");
}
inline void native_trials() {
    std::mt19937 g(4711);
    vecmem::copy c;
    struct b3 { unsigned char b[3]; };
    for (int t = 0; t < 4000; ++t) {
        native_one<u32>(g);
        native_one<b3>(g);
        native_one<unsigned char>(g);
        const std::size_t n = g() % 6;
        const bool sized = g() % 2, separate = g() % 2;
        const int lay = g() % 3, value = int(g());
        std::vector<u32> caps(n), sizes(n + 1, 99), offs(n);
        u32 total = 8;
        for (std::size_t k = 0; k < n; ++k) {
            const std::size_t i = lay == 2 ? n - 1 - k : k;
            caps[i] = g() % 4;
            sizes[i] = g() % (caps[i] + 1);
            if (lay) total += g() % 3;
            offs[i] = total;
            total += caps[i];
        }
        std::vector<u32> heap(total + 8);
        for (auto& x : heap) x = u32(g());
        const auto old = heap;
        const auto was = sizes;
        std::vector<vector_view<u32>> rows, device(n + 1, vector_view<u32>(0, nullptr));
        for (std::size_t i = 0; i < n; ++i) {
            if (sized) rows.push_back(vector_view<u32>(caps[i], &sizes[i], &heap[offs[i]]));
            else rows.push_back(vector_view<u32>(caps[i], &heap[offs[i]]));
        }
        jagged_vector_view<u32> v(n, separate ? device.data() : rows.data(), rows.data());
        const auto s = c.get_sizes(v);
        vc_check(s.size() == n && sizes == was && heap == old, "size queries modify nothing");
        for (std::size_t i = 0; i < n; ++i)
            vc_check(s[i] == (sized ? was[i] : caps[i]), "the size of the row");
        c.memset(v, value)->wait();
        std::vector<bool> in(heap.size());
        for (std::size_t i = 0; i < n; ++i)
            for (u32 k = 0; k < caps[i]; ++k) in[offs[i] + k] = true;
        for (std::size_t i = 0; i < heap.size(); ++i) {
            u32 x;
            std::memset(&x, value, 4);
            vc_check(heap[i] == (in[i] ? x : old[i]), "exactly the rows are set");
        }
        vc_check(sizes == was, "the sizes are unchanged");
        const auto now = heap;
        c.setup(v)->wait();
        vc_check(heap == now && sizes[n] == 99, "setup modifies nothing else");
        for (std::size_t i = 0; i < n; ++i) {
            vc_check(sizes[i] == (sized ? 0 : was[i]), "every row is empty");
            const auto& w = v.ptr()[i];
            vc_check(w.capacity() == caps[i] && w.ptr() == &heap[offs[i]] &&
                     w.size_ptr() == (sized ? &sizes[i] : nullptr), "the description is usable");
        }
        vc_check(device[n].ptr() == nullptr, "nothing else is described");
    }
    // Nothing at all.
    c.memset(jagged_vector_view<u32>(0, nullptr, nullptr), 1)->wait();
    c.setup(jagged_vector_view<u32>(0, nullptr, nullptr))->wait();
    vc_cover("done");
}
