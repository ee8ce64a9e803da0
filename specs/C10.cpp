// Atomic references: every operation is one indivisible access of the referenced object.  Other
// threads may change the object arbitrarily before each access (rely).
//@ opt shared unroll=8
//@ trust atomic operations on one object are totally ordered (modification order)
#include "vc.hpp"
#include <type_traits>
#include "vecmem/memory/atomic.hpp"
#include "vecmem/memory/details/dummy_device_atomic_ref.hpp"
#include "vecmem/memory/details/posix_device_atomic_ref.hpp"
#include "vecmem/memory/device_atomic_ref.hpp"
using vc::addr;
using vecmem::memory_order;

#ifdef VC_NATIVE
#include <atomic>
#include <thread>
#include <vector>
// replay: the operations of four threads on one object must add up
template <typename R, typename T>
static void hammer() {
    constexpr unsigned N = 200000, K = 4;
    T x = 0;
    T l = 0;
    std::vector<std::thread> ts;
    std::atomic<unsigned> ready{0};
    for (unsigned t = 0; t < K; ++t)
        ts.emplace_back([&] {
            R r(x);
            R lock(l);
            ++ready;
            while (ready != K) std::this_thread::yield();     // all at once
            for (unsigned i = 0; i < N; ++i) {
                r.fetch_add(T(3));
                r.fetch_sub(T(1));
            }
        });
    for (auto& t : ts) t.join();
    vc_check(x == T(T(N) * T(2 * K)), "concurrent additions add up");
}
#endif

enum op { LOAD, STORE, ASSIGN, XCHG, CAS1, CAS2, ADD, SUB, AND, OR, XOR };

template <typename T>
static T apply(op o, T old, T d) {
    switch (o) {
        case ADD: return T(old + d);
        case SUB: return T(old - d);
        case AND: return T(old & d);
        case OR: return T(old | d);
        case XOR: return T(old ^ d);
        default: return d;
    }
}
// is ordering have (as executed) at least want?  Orders: 0 relaxed, 1 consume, 2 acquire,
// 3 release, 4 acq_rel, 5 seq_cst
static bool at_least(uint64_t have, uint64_t want) {
    switch (want) {
        case 0: return have <= 5;
        case 1:
        case 2: return have == 2 || have == 4 || have == 5;
        case 3: return have == 3 || have == 4 || have == 5;
        case 4: return have == 4 || have == 5;
        default: return have == 5;
    }
}
template <typename T>
static uint64_t bits(T v) {
    return uint64_t(typename std::make_unsigned<T>::type(v));
}

template <typename R, typename T, op O>
static void posix() {
    T* x = static_cast<T*>(vc_mem("object", sizeof(T), alignof(T), sizeof(T)));
    T data = T(vc_u64("operand")), expected = T(vc_u64("expected"));
    const T want_e = expected;
    const R r0(*x);
    const R r(r0);
    // the orderings the standard permits for the operation
    uint64_t ord = O == LOAD ? vc::pick("order", 0, 1, 2, 5)
                             : O == STORE ? vc::pick("order", 0, 3, 5)
                                          : vc::pick("order", 0, 1, 2, 3, 4, 5);
    uint64_t ford = O == CAS2 ? vc::pick("failure_order", 0, 1, 2, 5)
                              : ord == 4 ? 2 : ord == 3 ? 0 : ord;
    const bool deflt = O != CAS2 && vc_bool("default_order");
    if (O == ASSIGN || deflt) {
        ord = ford = 5;
    }
    const memory_order mo = memory_order(ord);
    vc_shared(x, sizeof(T), 0);
    T ret = T();
    bool ok = false;
    vc_atom_clear();
    switch (O) {
        case LOAD: ret = deflt ? r.load() : r.load(mo); break;
        case STORE: deflt ? r.store(data) : r.store(data, mo); break;
        case ASSIGN: ret = (r = data); break;
        case XCHG: ret = deflt ? r.exchange(data) : r.exchange(data, mo); break;
        case CAS1:
            ok = deflt ? r.compare_exchange_strong(expected, data)
                       : r.compare_exchange_strong(expected, data, mo);
            break;
        case CAS2: ok = r.compare_exchange_strong(expected, data, mo, memory_order(ford)); break;
        case ADD: ret = deflt ? r.fetch_add(data) : r.fetch_add(data, mo); break;
        case SUB: ret = deflt ? r.fetch_sub(data) : r.fetch_sub(data, mo); break;
        case AND: ret = deflt ? r.fetch_and(data) : r.fetch_and(data, mo); break;
        case OR: ret = deflt ? r.fetch_or(data) : r.fetch_or(data, mo); break;
        case XOR: ret = deflt ? r.fetch_xor(data) : r.fetch_xor(data, mo); break;
    }
#ifdef VC_NATIVE
    // (the values one thread sees are replayed by the plain_* proofs)
    return hammer<R, T>();
#else
    vc_check(vc_atom_count() == 1, "one indivisible access");
    vc_check(vc_atom_addr(0) == addr(x), "of the referenced object");
    const uint64_t kind = vc_atom_kind(0), o = vc_atom_order(0);
    if (O == LOAD) {
        vc_check(kind == 1 ? bits(ret) == vc_atom_value(0)
                           : vc_atom_old(0) == vc_atom_new(0) && bits(ret) == vc_atom_old(0),
                 "load returns the value and leaves it");
        vc_check(at_least(o & 15, ord), "load has the requested ordering");
    } else if (O == STORE || O == ASSIGN) {
        vc_check(kind != 1 && vc_atom_new(0) == bits(data), "store writes the value");
        vc_check(O != ASSIGN || ret == data, "assignment returns the value");
        vc_check(at_least(o & 15, ord), "store has the requested ordering");
    } else if (O == CAS1 || O == CAS2) {
        vc_check(kind == 9, "compare and exchange in one access");
        const uint64_t old = vc_atom_old(0);
        vc_check(ok == (old == bits(want_e)), "reports whether it matched");
        vc_check(vc_atom_new(0) == (ok ? bits(data) : old), "exchanges only on a match");
        vc_check(bits(expected) == (ok ? bits(want_e) : old),
                 "expected is updated only on a mismatch");
        vc_check(at_least(o & 15, ord), "success ordering");
        vc_check(at_least(o >> 4, ford), "failure ordering");
    } else {
        vc_check(kind != 1 && kind != 2, "read and write in one access");
        const uint64_t old = vc_atom_old(0);
        vc_check(bits(ret) == old, "returns the previous value");
        vc_check(vc_atom_new(0) == bits(apply<T>(O, T(old), data)), "stores the new value");
        vc_check(at_least(o & 15, ord), "operation has the requested ordering");
    }
#endif
}

// Fallbacks without atomics: the same operations for one thread at a time (all they promise).
template <typename T, op O, typename F>
static void sequential(F f) {
    T* x = static_cast<T*>(vc_mem("object", sizeof(T), alignof(T), sizeof(T)));
    T data = T(vc_u64("operand")), expected = T(vc_u64("expected"));
    const T want_e = expected, old = *x;
    T ret = T();
    bool ok = false;
    f(*x, data, expected, ret, ok);
    if (O == LOAD) {
        vc_check(ret == old && *x == old, "load returns the value and leaves it");
    } else if (O == STORE || O == ASSIGN) {
        vc_check(*x == data, "store writes the value");
        vc_check(O != ASSIGN || ret == data, "assignment returns the value");
    } else if (O == CAS1 || O == CAS2) {
        vc_check(ok == (old == want_e), "reports whether it matched");
        vc_check(*x == (ok ? data : old), "exchanges only on a match");
        vc_check(expected == (ok ? want_e : old), "expected is updated only on a mismatch");
    } else {
        vc_check(ret == old, "returns the previous value");
        vc_check(*x == apply<T>(O, old, data), "stores the new value");
    }
}
template <typename R, typename T, op O>
static void one_thread() {
    // orderings permitted for every operation
    const memory_order mo = memory_order(vc::pick("order", 0, 5));
    const memory_order fo = mo;
    sequential<T, O>([&](T& x, T data, T& expected, T& ret, bool& ok) {
        const R r0(x);
        const R r(r0);
        switch (O) {
            case LOAD: ret = r.load(mo); break;
            case STORE: r.store(data, mo); break;
            case ASSIGN: ret = (r = data); break;
            case XCHG: ret = r.exchange(data, mo); break;
            case CAS1: ok = r.compare_exchange_strong(expected, data, mo); break;
            case CAS2: ok = r.compare_exchange_strong(expected, data, mo, fo); break;
            case ADD: ret = r.fetch_add(data, mo); break;
            case SUB: ret = r.fetch_sub(data, mo); break;
            case AND: ret = r.fetch_and(data, mo); break;
            case OR: ret = r.fetch_or(data, mo); break;
            case XOR: ret = r.fetch_xor(data, mo); break;
        }
    });
}
template <typename T, op O>
static void dummy() {
    one_thread<vecmem::dummy_device_atomic_ref<T>, T, O>();
    one_thread<vecmem::device_atomic_ref<T>, T, O>();
}
template <typename T, op O>
static void host() {
    sequential<T, O>([&](T& x, T data, T& expected, T& ret, bool& ok) {
        vecmem::atomic<T> r(&x);
        switch (O) {
            case LOAD: ret = r.load(); break;
            case STORE: r.store(data); break;
            case ASSIGN: r.store(data); ret = r.load(); break;
            case CAS2:
            case CAS1: ok = r.compare_exchange_strong(expected, data); break;
            case ADD: ret = r.fetch_add(data); break;
            case SUB: ret = r.fetch_sub(data); break;
            case AND: ret = r.fetch_and(data); break;
            case OR: ret = r.fetch_or(data); break;
            case XOR: ret = r.fetch_xor(data); break;
            default: ret = r.exchange(data); break;
        }
    });
}
// the type user code gets from <vecmem/memory/device_atomic_ref.hpp>, in both address spaces
using vecmem::device_address_space;
template <op O>
static void refs() {
    switch (vc::pick("type", 0, 1, 2, 3, 4, 5, 6)) {
        case 0: posix<vecmem::device_atomic_ref<uint32_t>, uint32_t, O>(); break;
        case 1: posix<vecmem::device_atomic_ref<uint64_t>, uint64_t, O>(); break;
        case 2: posix<vecmem::device_atomic_ref<int>, int, O>(); break;
        case 3: posix<vecmem::device_atomic_ref<long>, long, O>(); break;
        case 4: posix<vecmem::device_atomic_ref<unsigned short>, unsigned short, O>(); break;
        case 5: posix<vecmem::device_atomic_ref<signed char>, signed char, O>(); break;
        default:
            posix<vecmem::posix_device_atomic_ref<unsigned, device_address_space::local>,
                  unsigned, O>();
    }
}
template <op O>
static void plain() {
    switch (vc::pick("type", 0, 1, 2, 3)) {
        case 0: dummy<uint32_t, O>(); host<uint32_t, O>(); break;
        case 1: dummy<uint64_t, O>(); host<uint64_t, O>(); break;
        case 2: dummy<short, O>(); host<short, O>(); break;
        default: dummy<int, O>(); host<int, O>();
    }
}

PROOF(load) { refs<LOAD>(); vc_cover("done"); }
PROOF(store) { refs<STORE>(); vc_cover("done"); }
PROOF(assign) { refs<ASSIGN>(); vc_cover("done"); }
PROOF(exchange) { refs<XCHG>(); vc_cover("done"); }
PROOF(compare_exchange) { refs<CAS1>(); vc_cover("done"); }
PROOF(compare_exchange_two_orders) { refs<CAS2>(); vc_cover("done"); }
PROOF(fetch_add) { refs<ADD>(); vc_cover("done"); }
PROOF(fetch_sub) { refs<SUB>(); vc_cover("done"); }
PROOF(fetch_and) { refs<AND>(); vc_cover("done"); }
PROOF(fetch_or) { refs<OR>(); vc_cover("done"); }
PROOF(fetch_xor) { refs<XOR>(); vc_cover("done"); }
PROOF(plain_load) { plain<LOAD>(); vc_cover("done"); }
PROOF(plain_store) { plain<STORE>(); vc_cover("done"); }
PROOF(plain_exchange) { plain<XCHG>(); vc_cover("done"); }
PROOF(plain_compare_exchange) { plain<CAS1>(); vc_cover("done"); }
PROOF(plain_fetch_add) { plain<ADD>(); vc_cover("done"); }
PROOF(plain_fetch_sub) { plain<SUB>(); vc_cover("done"); }
PROOF(plain_fetch_and) { plain<AND>(); vc_cover("done"); }
PROOF(plain_fetch_or) { plain<OR>(); vc_cover("done"); }
PROOF(plain_fetch_xor) { plain<XOR>(); vc_cover("done"); }
PROOF(plain_assign) { plain<ASSIGN>(); vc_cover("done"); }
PROOF(plain_compare_exchange_two_orders) { plain<CAS2>(); vc_cover("done"); }
