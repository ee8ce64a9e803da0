#include "vc.hpp"
#include "core/src/memory/details/memory_resource_base.cpp"
#include "core/src/memory/instrumenting_memory_resource.cpp"
#include "core/src/memory/details/instrumenting_memory_resource_impl.cpp"
#include "core/src/utils/memory_monitor.cpp"
//@ trust the clock returns arbitrary times
//@ opt nosum unroll=8
//@ proof history bounded="three calls"
//@ proof average bounded="sample totals and counts (floating point is evaluated, not reasoned about)"
using vc::addr;

// Inductive step over the connected resource: any totals so far.
PROOF(step) {
    vc::resource up;
    vecmem::instrumenting_memory_resource r(up);
    vecmem::memory_monitor m(r);
    vc_check(m.total_allocation() == 0 && m.outstanding_allocation() == 0 &&
                 m.maximal_allocation() == 0, "starts at zero");
    uint64_t total = vc_range("total", 0, vc::MAXB), out = vc_range("outstanding", 0, vc::MAXB),
             peak = vc_range("peak", 0, vc::MAXB), cnt = vc_range("count", 0, vc::MAXB);
    vc_assume(out <= peak && peak <= total);
#ifndef VC_NATIVE
    m.m_total_alloc = total;
    m.m_outstanding_alloc = out;
    m.m_maximum_alloc = peak;
    m.m_n_alloc = cnt;
#else
    // the same state through the public interface, as far as that is possible
    r.m_impl->m_post_allocate_hooks[0](peak, 1, &r);
    r.m_impl->m_pre_deallocate_hooks[0](&r, peak, 1);
    if (total > peak) {
        r.m_impl->m_post_allocate_hooks[0](total - peak < peak ? total - peak : peak, 1, &r);
        r.m_impl->m_pre_deallocate_hooks[0](&r, total - peak < peak ? total - peak : peak, 1);
    }
    m.m_total_alloc = total;
    m.m_outstanding_alloc = out;
    m.m_n_alloc = cnt;
#endif
    uint64_t n = vc_range("n", 0, vc::MAXB);
    if (vc_bool("allocate")) {
        bool ok = true;
        try {
            vc::alloc(r, n, 8);
        } catch (const std::bad_alloc&) {
            ok = false;
        }
        uint64_t g = ok ? n : 0;
        vc_check(m.total_allocation() == total + g, "total counts exactly the successful requests");
        vc_check(m.outstanding_allocation() == out + g, "outstanding counts exactly the successful requests");
        vc_check(m.maximal_allocation() == (out + g > peak ? out + g : peak), "peak of the outstanding amount");
        vc_check(m.m_n_alloc == cnt + (ok && n > 0), "successful requests are counted");
        if (!ok) vc_cover("failed");
        if (ok) vc_cover("allocated");
    } else {
        vc_assume(n <= out);
        r.do_deallocate(vc::ptr(vc_range("p", 1, vc::MAXB)), n, 8);
        vc_check(m.total_allocation() == total, "total unchanged by a release");
        vc_check(m.outstanding_allocation() == out - n, "released amount no longer outstanding");
        vc_check(m.maximal_allocation() == peak, "peak unchanged by a release");
        vc_check(m.m_n_alloc == cnt, "successful requests are counted");
        vc_cover("released");
    }
}
PROOF(history) {
    vc::resource up;
    vecmem::instrumenting_memory_resource r(up);
    vecmem::memory_monitor m(r);
    uint64_t n[3], tot = 0, out = 0, peak = 0;
    bool live[3] = {};
    for (int i = 0; i < 3; ++i) {
        n[i] = vc_range("n", 0, 1 << 30);
        void* p = nullptr;
        try {
            p = vc::alloc(r, n[i], 8);
            live[i] = true;
            tot += n[i];
            out += n[i];
            if (out > peak) peak = out;
        } catch (const std::bad_alloc&) {
        }
        if (live[i] && vc_bool("release")) {
            r.do_deallocate(p, n[i], 8);
            out -= n[i];
        }
        vc_check(m.total_allocation() == tot, "total counts exactly the successful requests");
        vc_check(m.outstanding_allocation() == out, "outstanding follows requests and releases");
        vc_check(m.maximal_allocation() == peak, "peak of the outstanding amount");
    }
    vc_cover("done");
}
// The average is the total divided by the number of successful requests, to the nearest integer.
PROOF(average) {
    uint64_t total[] = {1, 2, 3, 5, 7, 10, 1000, 4097, 12345677, 999999999, (1ull << 40) + 1, (1ull << 50) - 3};
    uint64_t count[] = {1, 2, 3, 4, 7, 10, 1000, 65537};
    vc::resource up;
    vecmem::instrumenting_memory_resource r(up);
    vecmem::memory_monitor m(r);
    vc_check(m.average_allocation() == 0, "no requests, no average");
    for (uint64_t t : total) {
        for (uint64_t c : count) {
            m.m_total_alloc = t;
            m.m_n_alloc = c;
            uint64_t g = m.average_allocation();
            vc_check(g * c <= t + c / 2 && t <= g * c + c / 2, "average of the request sizes");
        }
    }
    vc_cover("done");
}
