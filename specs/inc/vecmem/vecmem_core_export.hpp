// Stand-in for the header that CMake generates (export macros only).
#pragma once
#define VECMEM_CORE_EXPORT
#define VECMEM_CORE_NO_EXPORT
