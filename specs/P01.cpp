// Copies between vectors: every combination of fixed-size and resizable source and target.
//@ flags -I$VERIF/specs/models/text
//@ trust the text of error messages (std::stringstream) is not verified
#include "vc.hpp"
#include "core/src/utils/copy.cpp"
using vc::addr;
using vecmem::data::vector_view;
using u32 = uint32_t;
using kind = vecmem::copy::type::copy_type;

struct three { unsigned char b[3]; };
static bool same(const three& a, const three& b) {
    return a.b[0] == b.b[0] && a.b[1] == b.b[1] && a.b[2] == b.b[2];
}
template <typename T>
static bool same(const T& a, const T& b) { return a == b; }

// The default copy, observing that the requested kind of copy is passed on: what is read from
// (written to) the source (target) is described as the caller asked; the size of the target comes
// from a host variable.
struct observed : vecmem::copy {
    const void *dst = nullptr, *to_size = nullptr;
    uint64_t to_n = 0;
    kind k = type::unknown;
    void do_copy(std::size_t n, const void* f, void* t, kind c) const override {
        if (n && addr(t) - addr(dst) < to_n) {
            vc_check(c == k, "the payload is copied in the requested direction");
        }
        if (to_size && t == to_size) {
            vc_check(c == type::unknown ||
                         (c == ((k == type::host_to_device || k == type::device_to_device)
                                    ? type::host_to_device : type::host_to_host)),
                     "the size is copied from the host to the target");
        }
        vecmem::copy::do_copy(n, f, t, c);
    }
};
static kind any_kind() {
    return kind(vc_split(vc_range("kind", 0, 4), 0, 4));
}

template <typename T>
struct side {
    u32 cap, size, i;
    bool resizable;
    u32* sz;
    T* mem;
    T old;
    side(const char* nc, const char* ns, const char* nr, const char* nm, u32 i_)
        : cap(vc_range(nc, 0, vc::MAXN - 1)), size(cap), i(i_), resizable(vc_bool(nr)),
          sz(nullptr), mem(vc::array<T>(nm, cap)), old() {
        if (resizable) {
            sz = vc::array<u32>(ns, 1);
            vc_assume(*sz <= cap);
            size = *sz;
        }
        if (i < cap) old = mem[i];
    }
    template <typename V>
    V view() const { return resizable ? V(cap, sz, mem) : V(cap, mem); }
    bool kept() const { return (i >= cap || same(mem[i], old)) && (!resizable || *sz == size); }
};

template <typename T>
static void transfer() {
    const u32 i = vc_range("i", 0, vc::MAXN - 1);
    vc_watch(i);
    side<T> f("from_cap", "from_size", "from_resizable", "from", i);
    side<T> t("to_cap", "to_size", "to_resizable", "to", i);
    observed c;
    c.dst = t.mem; c.to_n = uint64_t(t.cap) * sizeof(T);
    c.to_size = t.sz;
    c.k = any_kind();
    bool refused = false;
    try {
        c(f.template view<vector_view<const T>>(), t.template view<vector_view<T>>(), c.k)->wait();
    } catch (const std::length_error&) {
        refused = true;
    }
    vc_check(refused == (f.size > t.cap), "refused exactly if it does not fit");
    vc_check(f.kept(), "the source is unchanged");
    if (refused) {
        vc_check(t.kept(), "a refused copy changes nothing");
        vc_cover("refused");
        return;
    }
    if (i < t.cap) {
        vc_check(same(t.mem[i], i < f.size ? f.old : t.old),
                 "elements copied, others unchanged");
        if (f.size < t.cap) vc_cover("partial");
    }
    vc_check(!t.resizable || *t.sz == f.size, "the size of a resizable target is set");
    vc_cover("copied");
}
PROOF(view_u8) { transfer<unsigned char>(); vc_cover("done"); }
PROOF(view_u32) { transfer<u32>(); vc_cover("done"); }
PROOF(view_u64) { transfer<uint64_t>(); vc_cover("done"); }
PROOF(view_three) { transfer<three>(); vc_cover("done"); }

// into a host vector
template <typename T>
static void to_vector() {
    const u32 i = vc_range("i", 0, vc::MAXN - 1);
    vc_watch(i);
    side<T> f("from_cap", "from_size", "from_resizable", "from", i);
    observed c;
    c.k = any_kind();
    std::vector<T> v(vc::pick("old_size", 0, 2));
    c(f.template view<vector_view<const T>>(), v, c.k)->wait();
    vc_check(v.size() == f.size, "the vector takes the size of the source");
    if (i < f.size) vc_check(same(v[i], f.old), "elements copied");
    vc_check(f.kept(), "the source is unchanged");
    vc_cover("done");
}
PROOF(vector_u32) { to_vector<u32>(); vc_cover("done"); }
PROOF(vector_u64) { to_vector<uint64_t>(); vc_cover("done"); }

// into a new buffer
template <typename T>
static void to_buffer() {
    const u32 i = vc_range("i", 0, vc::MAXN - 1);
    vc_watch(i);
    side<T> f("from_cap", "from_size", "from_resizable", "from", i);
    vc::resource up;
    up.real = true;
    up.may_fail = false;
    observed c;
    c.k = any_kind();
    {
        vecmem::data::vector_buffer<T> b = c.to(f.template view<vector_view<T>>(), up, c.k);
        vc_check(b.capacity() == f.size && b.size() == f.size, "the buffer has the size of the source");
        if (i < f.size) vc_check(same(b.ptr()[i], f.old), "elements copied");
        vc_check(f.kept(), "the source is unchanged");
        vc_check(up.count(1) <= 1, "one allocation");
    }
    vc_cover("done");
}
PROOF(buffer_u32) { to_buffer<u32>(); vc_cover("done"); }
PROOF(buffer_u64) { to_buffer<uint64_t>(); vc_cover("done"); }
