// The same without the compiler's bit-counting built-in.
//@ flags -UVECMEM_HAVE_BUILTIN_CLZL
//@ opt nosum unroll=70
#include "vc.hpp"
#include "core/src/utils/integer_math.hpp"
#include "M13.inc"
