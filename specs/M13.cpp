// Size and alignment arithmetic, over the whole range of 64-bit arguments.
//@ flags -I$REPO/core/src/memory
//@ opt unroll=70
#include "vc.hpp"
#include "core/src/memory/details/arena_memory_resource_impl.cpp"
#include "core/src/memory/details/is_aligned.cpp"
#include "core/src/utils/integer_math.hpp"
#include "M13.inc"

PROOF(align_up) {
    uint64_t v = vc_u64("v");
    uint64_t a = uint64_t(1) << vc_split(vc_range("log_align", 0, 63), 0, 63);
    vc_assume(v <= ~uint64_t(0) - (a - 1));   // the result is representable
    uint64_t r = align_up(v, a);
    vc_check((r & (a - 1)) == 0, "a multiple");
    vc_check(r >= v && r - v < a, "the next one");
    vc_cover("done");
}
PROOF(align_up_default) {
    uint64_t v = vc_u64("v");
    vc_assume(v <= ~uint64_t(0) - 255);
    uint64_t r = align_up(v);
    vc_check(r % 256 == 0 && r >= v && r - v < 256, "the next multiple of 256");
    vc_cover("done");
}
PROOF(supported_alignment) {
    uint64_t x = vc_u64("x");
    bool p = false;
    for (int i = 0; i < 64; ++i) p |= x == uint64_t(1) << i;
    vc_assume(x != 0);
    vc_check(is_supported_alignment(x) == p, "exactly the powers of two");
    vc_cover("done");
}
PROOF(is_aligned) {
    uint64_t p = vc_range("p", 0, uint64_t(1) << 57);   // any address
    uint64_t a = uint64_t(1) << vc_split(vc_range("log_align", 0, 63), 0, 63);
    vc_check(vecmem::details::is_aligned(vc::ptr(p), a) == ((p & (a - 1)) == 0),
             "exactly the aligned addresses");
    vc_cover("done");
}
