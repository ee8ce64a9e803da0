#include "vc.hpp"
#include "core/src/memory/host_memory_resource.cpp"
#include "core/src/memory/terminal_memory_resource.cpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "M02.inc"
