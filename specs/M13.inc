using namespace vecmem;
static uint64_t p2(uint64_t k) { return uint64_t(1) << k; }

PROOF(power_of_2) {
    uint64_t x = vc_u64("x");
    bool p = false;
    for (int i = 0; i < 64; ++i) p |= x == p2(i);
    vc_check(details::is_power_of_2(x) == p, "exactly the powers of two");
    vc_cover("done");
}
PROOF(clzl) {
    uint64_t x = vc_u64("x");
    vc_assume(x != 0);
    uint64_t k = details::clzl(x);
    vc_check(k < 64, "a bit number");
    vc_assume(k < 64);
    vc_check((x << k) >> 63 == 1, "the bit after the leading zeroes is set");
    vc_check(k == 0 || x >> ((64 - k) & 63) == 0, "all leading bits are zero");
    vc_cover("done");
}
PROOF(log2) {
    uint64_t x = vc_u64("x");
    vc_assume(x != 0);
    uint64_t k = details::log2(x);
    vc_check(k < 64, "a bit number");
    vc_assume(k < 64);
    vc_check(x >> k == 1, "2^k <= x < 2^(k + 1)");
    vc_cover("done");
}
PROOF(log2_ri) {
    uint64_t x = vc_u64("x");
    vc_assume(x != 0);
    uint64_t k = details::log2_ri(x);
    vc_check(k <= 64, "a bit number");
    vc_assume(k <= 64);
    vc_check(k == 64 || x <= p2(k), "x <= 2^k");
    vc_check(k == 0 || x > p2(k - 1), "no smaller power will do");
    vc_cover("done");
}
PROOF(round_up) {
    uint64_t x = vc_u64("x");
    vc_assume(x <= p2(63));   // the result is representable
    uint64_t k = details::round_up(x);
    vc_check(k < 64, "a bit number");
    vc_assume(k < 64);
    vc_check(x <= p2(k), "x <= 2^k");
    vc_check(k == 0 || x > p2(k - 1), "no smaller power will do");
    vc_cover("done");
}
