// Typed allocation helpers: sizes, alignments, construction, destruction and release.
#include "vc.hpp"
#include <memory>
#include <utility>
#include "vecmem/memory/allocator.hpp"
#include "vecmem/memory/unique_ptr.hpp"
#include "core/src/memory/allocator.cpp"
using vc::addr;
using u32 = uint32_t;
struct alignas(64) line { uint64_t x[8]; };
struct odd { uint8_t b[3]; };
constexpr uint64_t A = alignof(std::max_align_t);

struct up_t : vc::resource {
    up_t() { may_fail = true; }
    // the only block was requested with exactly s bytes, aligned to a (or stricter)
    void made(const void* p, uint64_t s, uint64_t a) {
        vc_check(n == 1 && log[0].kind == 1 && log[0].size == s && log[0].p == addr(p), "exactly the needed bytes");
        vc_check(log[0].align >= a && addr(p) % a == 0, "aligned for the type");
    }
    void released(int k) {
        vc_check(n == 2 * k, "released exactly once");
        for (int i = 0; i < k; ++i) {
            vc_check(ev(k + i, 3, log[i].p, log[i].size, log[i].align) || k > 1, "released as it was requested");
        }
    }
};

template <typename T>
static void allocs() {
    up_t up;
    uint64_t n = vc_u64("n");
    bool thrown = false, many = n > SIZE_MAX / sizeof(T);
    try {
        if (vc_bool("array")) {
            {
                auto p = vecmem::make_unique_alloc<T[]>(up, n);
                vc_check(!many, "too many elements are refused");
                up.made(p.get(), n * sizeof(T), alignof(T));
                vc_check(p.get() != nullptr, "owns the block");
            }
            vc_cover("array");
        } else {
            auto p = vecmem::make_unique_alloc<T>(up);
            up.made(p.get(), sizeof(T), alignof(T));
            p.reset();
            vc_check(!p && up.n == 2, "released on reset");
            many = false;
            vc_cover("single");
        }
        up.released(1);
    } catch (const std::bad_array_new_length&) {
        vc_check(many && up.n == 0, "refused only if too many");
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
    }
}
PROOF(alloc_int) { allocs<u32>(); vc_cover("done"); }
PROOF(alloc_odd) { allocs<odd>(); vc_cover("done"); }
PROOF(alloc_aligned) { allocs<line>(); vc_cover("done"); }
PROOF(alloc_copy) {
    up_t up;
    up.may_fail = false;
    u32 src[5] = {};
    const void *to = nullptr, *from = nullptr;
    uint64_t bytes = 0, n = vc_range("n", 0, 5);
    int calls = 0;
    auto c = [&](auto* d, const auto* s, std::size_t b) { to = d; from = s; bytes = b; ++calls; };
    if (vc_bool("array")) {
        {
            auto p = vecmem::make_unique_alloc<u32[]>(up, n, src, c);
            up.made(p.get(), 4 * n, 4);
            vc_check(calls == 1 && to == p.get() && from == src && bytes == 4 * n, "copies exactly the elements");
        }
        up.released(1);
        vc_cover("array");
    } else {
        {
            auto p = vecmem::make_unique_alloc<u32>(up, src, c);
            up.made(p.get(), 4, 4);
            vc_check(calls == 1 && to == p.get() && from == src && bytes == 4, "copies exactly the object");
        }
        up.released(1);
        vc_cover("single");
    }
}
// Two handles of blocks of (possibly) different resources, through every ownership operation.
PROOF(handles) {
    up_t a, b;
    a.may_fail = b.may_fail = false;
    uint64_t n = vc_range("n", 1, 1 << 20), m = vc_range("m", 1, 1 << 20);
    using P = vecmem::unique_alloc_ptr<u32[]>;
    {
        P p = vecmem::make_unique_alloc<u32[]>(a, n), q = vecmem::make_unique_alloc<u32[]>(b, m), e;
        vc_check(!e, "an empty handle owns nothing");
        u32 *x = p.get(), *y = q.get();
        switch (vc_split(vc_range("op", 0, 5), 0, 5)) {
            case 0: {
                P r(std::move(p));
                vc_check(!p && r.get() == x && a.n == 1, "moved");
                break;
            }
            case 1:
                q = std::move(p);
                vc_check(!p && q.get() == x && a.n == 1, "moved");
                vc_check(b.n == 2, "the old block is released");
                break;
            case 2:
                swap(p, q);
                vc_check(p.get() == y && q.get() == x && a.n == 1 && b.n == 1, "swapped");
                break;
            case 3:
                p.reset();
                vc_check(!p && a.n == 2, "released on reset");
                break;
            case 4:
                e = std::move(p);
                vc_check(e.get() == x && a.n == 1, "moved");
                p = std::move(q);
                vc_check(p.get() == y && b.n == 1, "moved");
                break;
            default: {
                auto d = p.get_deleter();
                vc_check(p.release() == x && a.n == 1, "released to the caller");
                d(x);
                break;
            }
        }
    }
    a.released(1);
    b.released(1);
    vc_cover("done");
}

// objects: each counts how often it was made and destroyed
struct item {
    u32 v, made, gone;
    item() : v(5) { made = made + 1; }
    explicit item(u32 x) : v(x) { made = made + 1; }
    ~item() { gone = gone + 1; }
};
PROOF(objects) {
    up_t up;
    up.real = true;
    uint64_t n = vc_u64("n"), i = vc_range("i", 0, 1 << 28);
    item* p = nullptr;
    u32 made = 0, gone = 0;
    try {
        {
            auto h = vecmem::make_unique_obj<item[]>(up, n);
            vc_assume(n <= (1 << 28));
            vc_watch(i);
            p = h.get();
            up.made(p, n * sizeof(item), alignof(item));
            auto g = std::move(h);
            vc_check(!h && g.get() == p && up.n == 1, "moved");
            if (i < n) {
                vc_check(p[i].v == 5, "every object is constructed");
                made = p[i].made;
                gone = p[i].gone;
            }
        }
        if (i < n) {
            vc_check(p[i].made == made && p[i].gone == gone + 1, "every object is destroyed once");
            vc_cover("element");
        }
        up.released(1);
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 0 || (up.n == 1 && up.log[0].kind == 2), "failures of the resource are passed on");
        vc_cover("failed");
    }
}
PROOF(one_object) {
    up_t up;
    up.real = true;
    u32 x = vc_u32("x");
    item* p = nullptr;
    u32 made = 0, gone = 0;
    try {
        if (vc_bool("allocator")) {
            vecmem::allocator al(up);
            p = al.new_object<item>(x);
            up.made(p, sizeof(item), alignof(item));
            made = p->made;
            gone = p->gone;
            vc_check(p->v == x, "constructed from the arguments");
            al.delete_object(p);
            vc_cover("allocator");
        } else {
            auto h = vecmem::make_unique_obj<item>(up, x);
            p = h.get();
            up.made(p, sizeof(item), alignof(item));
            made = p->made;
            gone = p->gone;
            vc_check(p->v == x, "constructed from the arguments");
            h.reset();
            vc_cover("handle");
        }
        vc_check(p->made == made && p->gone == gone + 1, "every object is destroyed once");
        up.released(1);
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
    }
}
PROOF(aligned_object) {
    up_t up;
    up.may_fail = false;
    struct alignas(128) big { u32 v; big() {} ~big() {} };
    if (vc_bool("array")) {
        { auto h = vecmem::make_unique_obj<big[]>(up, 0); up.made(h.get(), 0, 128); }
    } else {
        vecmem::allocator al(up);
        uint64_t n = vc_range("n", 0, 1 << 28);
        big* p = al.allocate_object<big>(n);
        up.made(p, n * sizeof(big), 128);
        al.deallocate_object<big>(p, n);
    }
    up.released(1);
    vc_cover("done");
}
PROOF(bytes) {
    up_t up;
    vecmem::allocator al(up);
    uint64_t n = vc_u64("n"), a = vc::alignment("align");
    try {
        void* p = al.allocate_bytes(n, a);
        if (n == 0) {
            vc_check(p == nullptr && up.n == 0, "nothing is requested for nothing");
            al.deallocate_bytes(p, n, a);
            vc_check(up.n == 0, "nothing is released for nothing");
        } else {
            up.made(p, n, a);
            al.deallocate_bytes(p, n, a);
            up.released(1);
            vc_cover("released");
        }
    } catch (const std::bad_alloc&) {
        vc_check(up.n == 1 && up.log[0].kind == 2, "failures of the resource are passed on");
        vc_cover("failed");
    }
}
PROOF(too_many) {
    up_t up;
    vecmem::allocator al(up);
    uint64_t n = vc_u64("n");
    try {
        line* p = al.allocate_object<line>(n);
        vc_check(n <= SIZE_MAX / sizeof(line), "too many elements are refused");
        up.made(p, n * sizeof(line), 64);
        vc_cover("made");
    } catch (const std::bad_array_new_length&) {
        vc_check(up.n == 0 && n > SIZE_MAX / sizeof(line), "refused only if too many");
        vc_cover("refused");
    } catch (const std::bad_alloc&) {
    }
}
// Constructors that throw: nothing is leaked, and what was constructed is destroyed.
static u32 g_made, g_gone, g_fail;
struct bomb {
    u32 v;
    bomb() {
        if (g_made == g_fail) throw std::runtime_error("");
        ++g_made;
    }
    ~bomb() { ++g_gone; }
};
PROOF(throwing) {
    up_t up;
    up.real = true;
    up.may_fail = false;
    g_made = g_gone = 0;
    g_fail = vc_split(vc_range("fail", 0, 4), 0, 4);
    bool thrown = false;
    uint64_t n = vc_split(vc_range("n", 0, 4), 0, 4), k = vc_split(vc_range("kind", 0, 2), 0, 2);
    if (k) n = 1;
    try {
        if (k == 0) {
            auto h = vecmem::make_unique_obj<bomb[]>(up, n);
            vc_check(g_made == n && g_gone == 0 && up.n == 1, "all objects live");
        } else if (k == 1) {
            auto h = vecmem::make_unique_obj<bomb>(up);
            vc_check(g_made == 1 && g_gone == 0 && up.n == 1, "the object lives");
        } else {
            vecmem::allocator al(up);
            bomb* b = al.new_object<bomb>();
            al.delete_object(b);
        }
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    vc_check(thrown == (g_fail < n), "the exception is passed on");
    vc_check(g_made == g_gone && g_made == (thrown ? g_fail : n), "what was constructed is destroyed");
    up.released(1);
    vc_cover("done");
}
