// Inductive step: any number of earlier events.
//@ inductive
#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/instrumenting_memory_resource.cpp"
#include "core/src/memory/details/instrumenting_memory_resource_impl.cpp"
using vc::addr;
using vecmem::instrumenting_memory_resource;
using event = instrumenting_memory_resource::memory_event;

PROOF(step) {
    vc::resource up;
    instrumenting_memory_resource r(up);
    auto& v = r.m_impl->m_events;
    uint64_t k = vc_range("events", 0, 1 << 20), cap = vc_range("capacity", 0, 1 << 20);
    vc_assume(k < cap);
    event* d = vc::array<event>("log", cap, 8);
    v._M_impl._M_start = d;
    v._M_impl._M_finish = d + k;
    v._M_impl._M_end_of_storage = d + cap;
    uint64_t i = vc_range("i", 0, 1 << 20);
    vc_assume(i < k);
    vc_watch(i);
    auto key = [&](const event& e) {
        return event(e.m_type, e.m_size, e.m_align, e.m_ptr, e.m_time);
    };
    event before = key(v[i]);
    uint64_t n = vc_range("n", 1, vc::MAXB), a = 8, p = vc_range("p", 1, vc::MAXB);
    bool alloc = vc_bool("allocate"), ok = true;
    if (alloc) {
        p = 0;
        try {
            p = addr(vc::alloc(r, n, a));
        } catch (const std::bad_alloc&) {
            ok = false;
        }
    } else {
        r.do_deallocate(vc::ptr(p), n, a);
    }
    vc_check(v.size() == k + 1, "exactly one event added");
    const event& e = v[k];
    vc_check((e.m_type == event::type::ALLOCATION) == alloc && e.m_size == n && e.m_align == a &&
                 addr(e.m_ptr) == p, "the new event is the last one");
    const event& o = v[i];
    vc_check(o.m_type == before.m_type && o.m_size == before.m_size && o.m_align == before.m_align &&
                 o.m_ptr == before.m_ptr, "earlier events are kept");
    vc_check(up.n == 1, "one upstream call");
    v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr;
    vc_cover("done");
}
