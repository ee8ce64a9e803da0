// Several arrays in one allocation: alignment, room, disjointness, for all counts and addresses.
#include "vc.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "vecmem/containers/details/aligned_multiple_placement.hpp"
using vc::addr;
using u32 = uint32_t;
struct alignas(64) line { uint64_t x[8]; };
struct odd { uint8_t b[3]; };

struct region {
    uint64_t p, n, size, align;
};
// a, b, c hold the described arrays inside the only block of up
template <int K>
static void placed(vc::resource& up, const region (&r)[K]) {
    vc_check(up.n == 1 && up.log[0].kind == 1, "one allocation");
    uint64_t lo = up.log[0].p, hi = lo + up.log[0].size;
    for (int i = 0; i < K; ++i) {
        if (r[i].n == 0) continue;
        vc_check(r[i].p % r[i].align == 0, "aligned for its type");
        vc_check(r[i].p >= lo && r[i].p + r[i].n * r[i].size <= hi, "inside the allocation");
        for (int j = 0; j < i; ++j) {
            if (r[j].n) vc_check(vc::disjoint(r[i].p, r[i].n * r[i].size, r[j].p, r[j].n * r[j].size), "disjoint");
        }
    }
}
// the exact number of bytes of one array may not be representable
static bool too_many(uint64_t n, uint64_t size) { return n > SIZE_MAX / size; }
#define R(T, p, n) region{addr(p), n, sizeof(T), alignof(T)}

template <typename T, typename U>
static void two() {
    vc::resource up;
    uint64_t n = vc_u64("n"), m = vc_u64("m");
    try {
        {
            T* p = nullptr;
            U* q = nullptr;
            vecmem::unique_alloc_ptr<char[]> h;
            std::tie(h, p, q) = vecmem::details::aligned_multiple_placement<T, U>(up, n, m);
            vc_check(!too_many(n, sizeof(T)) && !too_many(m, sizeof(U)), "impossible requests are refused");
            vc_check(addr(h.get()) == up.log[0].p, "owns the allocation");
            const region r[] = {R(T, p, n), R(U, q, m)};
            placed(up, r);
            if (n && m) vc_cover("both");
        }
        vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, up.log[0].size, up.log[0].align), "released exactly once");
    } catch (const std::bad_array_new_length&) {
        vc_check(up.n == 0, "refused before requesting memory");
        vc_check(too_many(n, sizeof(T)) || too_many(m, sizeof(U)) ||
                     n * sizeof(T) > SIZE_MAX - 4096 - m * sizeof(U) || m * sizeof(U) > SIZE_MAX - 4096,
                 "only impossible requests are refused");
        vc_cover("refused");
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
    }
}
PROOF(one) {
    vc::resource up;
    uint64_t n = vc_range("n", 0, vc::MAXB / 64);
    try {
        {
            auto t = vecmem::details::aligned_multiple_placement<line>(up, n);
            const region r[] = {R(line, std::get<1>(t), n)};
            placed(up, r);
            vc_cover("done");
        }
        vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, up.log[0].size, up.log[0].align), "released exactly once");
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
    }
}
PROOF(int_double) { two<u32, double>(); vc_cover("done"); }
PROOF(double_int) { two<double, u32>(); vc_cover("done"); }
PROOF(odd_line) { two<odd, line>(); vc_cover("done"); }
PROOF(line_odd) { two<line, odd>(); vc_cover("done"); }
PROOF(char_int) { two<char, u32>(); vc_cover("done"); }
PROOF(four) {
    vc::resource up;
    up.may_fail = false;
    uint64_t a = vc_range("a", 0, 1 << 30), b = vc_range("b", 0, 1 << 30), c = vc_range("c", 0, 1 << 30),
             d = vc_range("d", 0, 1 << 30);
    {
        auto t = vecmem::details::aligned_multiple_placement<u32, odd, uint64_t, uint16_t>(up, a, b, c, d);
        const region r[] = {R(u32, std::get<1>(t), a), R(odd, std::get<2>(t), b), R(uint64_t, std::get<3>(t), c),
                            R(uint16_t, std::get<4>(t), d)};
        placed(up, r);
        vc_cover("done");
    }
    vc_check(up.n == 2 && up.ev(1, 3, up.log[0].p, up.log[0].size, up.log[0].align), "released exactly once");
}
// counts of other integer types
PROOF(count_types) {
    vc::resource up;
    up.may_fail = false;
    u32 a = vc_range("a", 0, vc::MAXN - 1);
    unsigned short b = vc_range("b", 0, 65535);
    auto t = vecmem::details::aligned_multiple_placement<line, u32>(up, a, b);
    const region r[] = {R(line, std::get<1>(t), a), R(u32, std::get<2>(t), b)};
    placed(up, r);
    vc_cover("done");
}
