#include "resource_trials.inc"
inline void native_trials() {
    using res = vecmem::binary_page_memory_resource;
    trials::run(1, 3000, 60, true,
                [](trials::checked& up, std::mt19937&) { return std::make_unique<res>(up); },
                [](std::mt19937& g) -> uint64_t {
                    const unsigned k = g() % 24;
                    return k == 0 ? ~uint64_t(0) >> (g() % 2) : k < 12 ? g() % 1000
                           : k < 20 ? g() % 100000 : (uint64_t(1) << (k - 4 + g() % 3)) + g() % 3 - 1;
                },
                [](std::mt19937&) { return uint64_t(1); });
    // space that was released is used again
    std::mt19937 g(2);
    for (uint64_t n : {0ul, 1ul, 256ul, 257ul, 5000ul, 262143ul, 262144ul, 3000000ul}) {
        trials::checked up(g);
        res r(up);
        for (int k = 0; k < 50; ++k) r.deallocate(r.allocate(n, 1), n, 1);
        vc_check(up.calls <= 1, "released space becomes available again");
        // pages are joined again
        std::vector<void*> all;
        for (int k = 0; k < 64; ++k) all.push_back(r.allocate(n, 1));
        for (void* p : all) r.deallocate(p, n, 1);
        const uint64_t calls = up.calls;
        r.deallocate(r.allocate(n * 64, 1), n * 64, 1);
        vc_check(n * 64 > uint64_t(1) << 20 || up.calls == calls || n < 256, "released pages are joined");
    }
    vc_cover("done");
}
