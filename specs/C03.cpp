// Concurrent use of one resizable device vector.  Every call is proved thread-modularly: other
// threads may change the size arbitrarily (rely) before each atomic access of this call; the call
// must change the size by exactly one indivisible step r -> r + n and own slots r .. r + n - 1
// (guarantee).  Steps of different threads on one variable are totally ordered, so the obtained
// slots are distinct and consecutive and the final size is the initial one plus all appends.
//@ opt shared time=60
//@ trust atomic operations on one object are totally ordered (modification order)
#include "vc.hpp"
#include "vecmem/containers/device_vector.hpp"
#ifdef VC_NATIVE
#include <atomic>
#include <thread>
#include <vector>
#endif
using vc::addr;
using vecmem::device_vector;
using vecmem::data::vector_view;
using u32 = uint32_t;

#ifdef VC_NATIVE
// replay: four threads hammer one vector
template <typename F>
static void stress(u32 per_call, F op) {
    constexpr u32 T = 4, N = 20000;
    std::vector<u32> mem(size_t(T) * N * per_call, ~0u), got[T];
    u32 size = 0;
    std::vector<std::thread> ts;
    std::atomic<u32> ready{0};
    for (u32 t = 0; t < T; ++t) {
        ts.emplace_back([&, t] {
            device_vector<u32> v(vector_view<u32>((u32)mem.size(), &size, mem.data()));
            ++ready;
            while (ready != T) std::this_thread::yield();      // all at once
            for (u32 k = 0; k < N; ++k) got[t].push_back(op(v, t * N + k));
        });
    }
    for (auto& t : ts) t.join();
    vc_check(size == mem.size(), "final size counts every append");
    std::vector<char> seen(mem.size());
    for (auto& g : got) {
        for (u32 r : g) {
            vc_check(r % per_call == 0 && r < mem.size() && !seen[r], "slots are distinct");
            seen[r] = 1;
        }
    }
    for (u32 t = 0; t < T; ++t)
        for (u32 k = 0; k < N; ++k)
            for (u32 j = 0; j < per_call; ++j)
                vc_check(mem[got[t][k] + j] == t * N + k, "every slot holds its own value");
}
#endif

struct env {
    u32 cap, i;
    u32* sz;
    u32* mem;
    u32 old;
    device_vector<u32> v;
    explicit env(u32 n)
        : cap(vc_range("capacity", 0, vc::MAXN - 1)),
          i(vc_range("i", 0, vc::MAXN - 1)),
          sz(vc::array<u32>("sizevar", 1)),
          mem(vc::array<u32>("mem", cap)),
          old(0),
          v(vector_view<u32>(cap, sz, mem)) {
        vc_assume(i < cap && n <= cap);
        vc_watch(i);
        old = mem[i];
        vc_shared(sz, 4, 0);
        vc_shared_range(sz, 0, cap - n);   // all appends together stay within the capacity
    }
    // the size was changed in exactly one step, from r to r + n
    void one_step(u32 r, u32 n) {
        uint64_t steps = 0;
        for (uint64_t k = 0; k < vc_atom_count(); ++k) {
            if (vc_atom_addr(k) != addr(sz)) {
                vc_check(false, "no other atomic access");
            } else if (vc_atom_kind(k) != 1) {
                if (vc_atom_old(k) != vc_atom_new(k)) {
                    vc_check(vc_atom_old(k) == r && vc_atom_new(k) == uint64_t(r) + n,
                             "the slot comes from the step that counts it");
                    ++steps;
                }
            }
        }
        vc_check(steps == (n ? 1 : 0), "the size changes in exactly one step");
    }
};

PROOF(push_back) {
#ifdef VC_NATIVE
    return stress(1, [](auto& v, u32 x) { return v.push_back(x); });
#else
    env e(1);
    u32 x = vc_u32("x");
    vc_atom_clear();
    u32 r = e.v.push_back(x);
    e.one_step(r, 1);
    vc_check(e.mem[r] == x && (e.i == r || e.mem[e.i] == e.old), "writes only its own slot");
    vc_cover("done");
#endif
}
PROOF(emplace_back) {
#ifdef VC_NATIVE
    return stress(1, [](auto& v, u32 x) { return u32(&v.emplace_back(x) - v.data()); });
#else
    env e(1);
    u32 x = vc_u32("x");
    vc_atom_clear();
    u32& q = e.v.emplace_back(x);
    u32 r = u32(&q - e.mem);
    e.one_step(r, 1);
    vc_check(&q == e.mem + r && q == x && (e.i == r || e.mem[e.i] == e.old), "writes only its own slot");
    vc_cover("done");
#endif
}
PROOF(bulk_append) {
#ifdef VC_NATIVE
    stress(3, [](auto& v, u32 x) { return v.bulk_append(3, x); });
    stress(3, [](auto& v, u32 x) {
        u32 r = v.bulk_append(3);
        for (u32 k = 0; k < 3; ++k) v[r + k] = x;
        return r;
    });
#else
    u32 n = vc_u32("n"), x = 0, r = 0;
    env e(n);
    vc_atom_clear();
    if (vc_bool("value")) {
        x = vc_u32("x");
        r = e.v.bulk_append(n, x);
    } else {
        r = e.v.bulk_append(n);
    }
    e.one_step(r, n);
    vc_check(e.mem[e.i] == (e.i >= r && e.i - r < n ? x : e.old), "writes exactly its own slots");
    vc_cover("done");
#endif
}
PROOF(bulk_append_implicit) {
#ifdef VC_NATIVE
    stress(3, [](auto& v, u32 x) {
        u32 r = v.bulk_append_implicit(3);
        for (u32 k = 0; k < 3; ++k) v[r + k] = x;
        return r;
    });
    stress(3, [](auto& v, u32 x) {
        u32 r = v.bulk_append_implicit_unsafe(3);
        for (u32 k = 0; k < 3; ++k) v[r + k] = x;
        return r;
    });
#else
    u32 n = vc_u32("n"), r = 0;
    env e(n);
    vc_atom_clear();
    if (vc_bool("unsafe")) r = e.v.bulk_append_implicit_unsafe(n);
    else r = e.v.bulk_append_implicit(n);
    e.one_step(r, n);
    vc_check(e.mem[e.i] == e.old, "nothing is written");
    vc_cover("done");
#endif
}
// Concurrent removals claim distinct last elements: one step r + 1 -> r, element r is destroyed.
struct cell {
    u32 v;
    ~cell() { v = 77; }
};
PROOF(pop_back) {
#ifdef VC_NATIVE
    constexpr u32 T = 4, N = 20000;
    std::vector<u32> mem(T * N), got[T];
    u32 size = T * N;
    std::vector<std::thread> ts;
    std::atomic<u32> ready{0};
    for (u32 t = 0; t < T; ++t)
        ts.emplace_back([&, t] {
            device_vector<u32> v(vector_view<u32>(T * N, &size, mem.data()));
            ++ready;
            while (ready != T) std::this_thread::yield();      // all at once
            for (u32 k = 0; k < N; ++k) got[t].push_back(v.pop_back());
        });
    for (auto& t : ts) t.join();
    vc_check(size == 0, "final size counts every removal");
    std::vector<char> seen(T * N);
    for (auto& g : got)
        for (u32 r : g) {
            vc_check(r < T * N && !seen[r], "removed elements are distinct");
            seen[r] = 1;
        }
#else
    u32 cap = vc_range("capacity", 1, 1 << 28), i = vc_range("i", 0, 1 << 28);
    u32* sz = vc::array<u32>("sizevar", 1);
    cell* mem = static_cast<cell*>(vc_mem("mem", cap * sizeof(cell), 4, 4));
    device_vector<cell> v(vector_view<cell>(cap, sz, mem));
    vc_assume(i < cap);
    u32 old = mem[i].v;
    vc_shared(sz, 4, 0);
    vc_shared_range(sz, 1, cap);
    vc_atom_clear();
    u32 r = v.pop_back();
    uint64_t steps = 0;
    for (uint64_t k = 0; k < vc_atom_count(); ++k) {
        if (vc_atom_kind(k) != 1 && vc_atom_old(k) != vc_atom_new(k)) {
            vc_check(vc_atom_new(k) == r && vc_atom_old(k) == uint64_t(r) + 1 && vc_atom_addr(k) == addr(sz),
                     "the removed element comes from the step that counts it");
            ++steps;
        }
    }
    vc_check(steps == 1, "the size changes in exactly one step");
    vc_check(mem[r].v == 77 && (i == r || mem[i].v == old), "destroys exactly the claimed element");
    vc_cover("done");
#endif
}
// Reading the size concurrently is one atomic load.
PROOF(size) {
#ifdef VC_NATIVE
    return stress(1, [](auto& v, u32 x) {
        u32 r = v.push_back(x);
        vc_check(v.size() > r, "size seen by an appender");
        return r;
    });
#else
    env e(0);
    vc_atom_clear();
    u32 n = e.v.size();
    vc_check(n <= e.cap, "a size that was stored");
    vc_check(vc_atom_count() == 1 && vc_atom_kind(0) == 1 && vc_atom_addr(0) == addr(e.sz), "one atomic load");
    vc_cover("done");
#endif
}
