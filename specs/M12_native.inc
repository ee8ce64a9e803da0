#include "resource_trials.inc"
inline void native_trials() {
    using res = vecmem::arena_memory_resource;
    auto make = [](trials::checked& up, std::mt19937& g) {
        const uint64_t first = g() % 3 ? 256 * (1 + g() % 4096) : 1 + g() % 100000;
        try {
            return std::make_unique<res>(up, first, uint64_t(1) << 40);
        } catch (const std::bad_alloc&) {
            return std::unique_ptr<res>();
        }
    };
    trials::run(1, 3000, 60, true, make,
                [](std::mt19937& g) -> uint64_t {
                    const unsigned k = g() % 24;
                    return k == 0 ? ~uint64_t(0) - g() % 600 : k < 12 ? g() % 1000
                           : k < 20 ? g() % 100000 : (uint64_t(1) << (k - 4 + g() % 3)) + g() % 3 - 1;
                },
                [](std::mt19937&) { return uint64_t(1); });
    // space that was released is used again
    std::mt19937 g(2);
    for (uint64_t n : {1ul, 256ul, 5000ul, 262143ul, 262144ul, 3000000ul}) {
        trials::checked up(g);
        res r(up, 20000, uint64_t(1) << 40);
        for (int k = 0; k < 50; ++k) r.deallocate(r.allocate(n, 1), n, 1);
        vc_check(up.calls <= 2, "released space becomes available again");
    }
    vc_cover("done");
}
