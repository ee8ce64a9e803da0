#include "resource_trials.inc"
inline void native_trials() {
    using res = vecmem::pool_memory_resource;
    auto make = [](trials::checked& up, std::mt19937& g) {
        res::options o;
        if (g() % 3) {
            const unsigned s = g() % 6, l = s + g() % 6;
            o.smallest_block_size = uint64_t(1) << s;
            o.largest_block_size = uint64_t(1) << l;
            o.alignment = uint64_t(1) << (g() % (s + 1));
            o.min_blocks_per_chunk = g() % 5;
            o.max_blocks_per_chunk = o.min_blocks_per_chunk + g() % 40;
            o.min_bytes_per_chunk = g() % 3 ? g() % 300 : 0;
            o.max_bytes_per_chunk = o.min_bytes_per_chunk + g() % 2000;
            o.cache_oversized = g() % 2;
            o.cached_size_cutoff_factor = 1 + g() % 8;
            o.cached_alignment_cutoff_factor = 1 + g() % 8;
        }
        try {
            return std::make_unique<res>(up, o);
        } catch (const std::invalid_argument&) {
            return std::unique_ptr<res>();
        }
    };
    trials::run(1, 4000, 60, true, make,
                [](std::mt19937& g) -> uint64_t {
                    const unsigned k = g() % 24;
                    return k < 12 ? g() % 100 : k < 20 ? g() % 3000 : (uint64_t(1) << k % 13) + g() % 3 - 1;
                },
                [](std::mt19937& g) { return uint64_t(1) << (g() % 8); });
    vc_cover("done");
}
