PROOF(host) {
    vecmem::host_memory_resource r;
    uint64_t n = vc_u64("n"), a = vc::alignment("a", 30);
    char* p = nullptr;
    try {
        p = static_cast<char*>(vc::alloc(r, n, a));
    } catch (const std::bad_alloc&) {
        vc_cover("failure");
        vc_check(n != 0, "an empty request does not fail");
        vc_end();
    }
    if (n == 0) {
        vc_check(p == nullptr, "an empty request gives a null pointer");
        r.do_deallocate(p, n, a);
    } else {
        vc_check(p != nullptr && (vc::addr(p) & (a - 1)) == 0, "non-null and aligned as requested");
        uint64_t k = vc_u64("k");
        vc_assume(k < n);
        // memory-safety obligation: every requested byte belongs to the block
        p[k] = 'x';
        p[0] = 'y';
        p[n - 1] = 'z';
        vc_check(k == 0 || k == n - 1 || p[k] == 'x', "bytes are usable memory");
        vc_cover("success");
        r.do_deallocate(p, n, a);    // obligation: released through the matching call
        vc_check(vc_live() == 0, "released");
    }
}
PROOF(terminal) {
    vc::resource up;
    vecmem::terminal_memory_resource t, u(up);
    vecmem::terminal_memory_resource& r = vc_bool("which") ? t : u;
    uint64_t n = vc_u64("n"), a = vc::alignment("a");
    bool threw = false;
    try {
        vc::alloc(r, n, a);
    } catch (const std::bad_alloc&) {
        threw = true;
    }
    vc_check(threw, "always fails with bad_alloc");
    r.do_deallocate(vc::ptr(vc_u64("p")), n, a);
    vc_check(up.n == 0, "nobody is asked for memory");
}
PROOF(equality) {
    vc::resource up;
    vecmem::terminal_memory_resource t, u(up);
    vecmem::host_memory_resource h, g;
    using R = std::pmr::memory_resource;
    R *T = &t, *U = &u, *H = &h, *G = &g, *P = &up;
    vc_check(T->is_equal(*U) && U->is_equal(*T) && T->is_equal(*T), "terminal resources are equal");
    vc_check(H->is_equal(*G) && G->is_equal(*H) && H->is_equal(*H), "host resources are equal");
    vc_check(!T->is_equal(*H) && !H->is_equal(*T) && !H->is_equal(*P) && !T->is_equal(*P),
             "different kinds differ");
}
