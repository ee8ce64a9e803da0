// The contract of std::set, for a set of any size.  Elements 0 .. n-1 are those it held at first,
// in ascending order (make(i) builds the i-th); a few later insertions follow them.  Iteration
// over a set that was changed visits every element, but in no particular order.
#include <algorithm>
#include <cstdint>
#include <functional>
#include <iterator>
#include <utility>
extern "C" uint64_t vc_unsupported();      // leaves a proof undecided
namespace std {
template <typename T, typename L = std::less<T>>
class vc_set {
public:
    static constexpr int D = 4;
    static constexpr uint64_t END = ~uint64_t(0);
    const char* name = nullptr;
    T (*make)(uint64_t) = nullptr;
    void (*chosen)(uint64_t) = nullptr;        // told about elements that are looked at
    uint64_t n = 0;
    uint64_t erased[D];
    int erasures = 0;
    T added[D];
    bool gone[D] = {};
    int additions = 0;

    struct iterator {
        using iterator_category = std::bidirectional_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = const T*;
        using reference = const T&;
        const vc_set* s = nullptr;
        uint64_t i = 0;
        mutable T v{};
        iterator() = default;
        iterator(const vc_set* a, uint64_t b) : s(a), i(b) {}
        const T& operator*() const {
            vc_check(i < s->n + s->additions, "an element of the set");
            if (i < s->n) v = s->make(i);
            else
                for (int k = 0; k < s->additions; ++k)
                    if (i == s->n + k) v = s->added[k];
            return v;
        }
        const T* operator->() const { return &**this; }
        bool operator==(const iterator& o) const { return i == o.i; }
        bool operator!=(const iterator& o) const { return i != o.i; }
        iterator& operator++() {
            *this = {s, s->skip(i + 1)};
            return *this;
        }
        iterator& operator--() {
            if (s->changed()) vc_unsupported();
            *this = {s, i - 1};
            return *this;
        }
        iterator operator++(int) { iterator r = *this; ++*this; return r; }
        iterator operator--(int) { iterator r = *this; --*this; return r; }
    };
    using const_iterator = iterator;
    using value_type = T;
    using key_type = T;
    using size_type = std::size_t;

    bool changed() const { return erasures || additions; }
    bool is_erased(uint64_t i) const {
        bool r = false;
        for (int k = 0; k < erasures; ++k) r = r | (erased[k] == i);
        return r;
    }
    uint64_t skip(uint64_t i) const {
        for (int k = 0; k < erasures; ++k)
            for (int l = 0; l < erasures; ++l)
                if (erased[l] == i) ++i;
        for (int k = 0; k < additions; ++k)
            if (i == n + k && gone[k]) ++i;
        return i;
    }
    iterator begin() const { return {this, skip(0)}; }
    iterator end() const { return {this, n + additions}; }
    iterator cbegin() const { return begin(); }
    iterator cend() const { return end(); }
    bool empty() const { return begin() == end(); }
    size_type size() const {
        size_type r = n - erasures + additions;
        for (int k = 0; k < additions; ++k) r -= gone[k];
        return r;
    }
    static bool less(const T& a, const T& b) { return L()(a, b); }

    static inline const uint64_t* place = nullptr;   // what the next lower bound is called
    static inline int force_end = 0;           // so many searches are known to fail
    // Some element that satisfies p, or the end if none does.
    template <typename P>
    iterator some(P p) const {
        const bool forced = force_end > 0;
        if (forced) --force_end;
        if (!forced && vc_bool("found")) {
            const uint64_t i = vc_range("which", 0, uint64_t(1) << 40);
            vc_watch(i);
            if (i < n) {
                vc_assume(!is_erased(i));
                if (chosen) chosen(i);
                iterator r{this, i};
                vc_assume(p(*r));
                return r;
            }
            vc_assume(i < n + additions);
            for (int k = 0; k < additions; ++k)
                if (i == n + k) {
                    vc_assume(!gone[k] && p(added[k]));
                    return {this, i};
                }
            vc_assume(false);
        }
        for (int k = 0; k < additions; ++k) vc_assume(gone[k] || !p(added[k]));
        if (make) {
            const uint64_t q = vc_qvar();
            vc_forall(q, (q >= n) | is_erased(q) | !p(make(q)));
        }
        return end();
    }
    iterator find(const T& x) const {
        return some([&](const T& y) { return !less(x, y) & !less(y, x); });
    }
    size_type count(const T& x) const { return find(x) != end(); }
    bool contains(const T& x) const { return find(x) != end(); }
    template <typename P>
    iterator bound(P before) const {
        if (changed()) vc_unsupported();
        if (!make) return end();
        const uint64_t k = place ? *place : vc_range("bound", 0, uint64_t(1) << 40), q = vc_qvar();
        place = nullptr;
        vc_assume(k <= n);
        vc_watch(k);
        vc_forall(q, (q >= k) | before(make(q)));
        vc_forall(q, (q < k) | (q >= n) | !before(make(q)));
        if (chosen && k < n) chosen(k);
        if (chosen && k > 0) chosen(k - 1);
        return {this, k};
    }
    iterator lower_bound(const T& x) const {
        return bound([&](const T& y) { return less(y, x); });
    }
    iterator upper_bound(const T& x) const {
        return bound([&](const T& y) { return !less(x, y); });
    }
    std::pair<iterator, bool> insert(const T& x) {
        for (int k = 0; k < additions; ++k)
            if (!gone[k] && !less(x, added[k]) && !less(added[k], x)) return {{this, n + k}, false};
        if (make) {
            const uint64_t i = vc_range("equal", 0, uint64_t(1) << 40);
            vc_assume(i < n && !is_erased(i));
            const T y = make(i);
            vc_check(less(x, y) | less(y, x), "what is inserted is not there already");
        }
        if (additions == D) vc_unsupported();
        added[additions++] = x;
        return {{this, n + additions - 1}, true};
    }
    iterator insert(const iterator&, const T& x) { return insert(x).first; }
    template <typename... A>
    std::pair<iterator, bool> emplace(A&&... a) { return insert(T(std::forward<A>(a)...)); }
    template <typename... A>
    iterator emplace_hint(const iterator&, A&&... a) { return insert(T(std::forward<A>(a)...)).first; }
    iterator erase(const iterator& it) {
        vc_check(it.i < n + additions, "the end of a set is not erased");
        if (it.i < n) {
            if (erasures == D) vc_unsupported();
            vc_check(!is_erased(it.i), "an element is erased once");
            erased[erasures++] = it.i;
        } else
            for (int k = 0; k < additions; ++k)
                if (it.i == n + k) gone[k] = true;
        return {this, skip(it.i + 1)};
    }
    size_type erase(const T& x) {
        const iterator it = find(x);
        if (it == end()) return 0;
        erase(it);
        return 1;
    }
    void clear() { vc_unsupported(); }
};
template <typename I, typename P>
I vc_find_if(I a, I b, P p) {
    if (a != a.s->begin() || b != a.s->end()) vc_unsupported();
    return a.s->some(p);
}
}  // namespace std
#define set vc_set
#define find_if vc_find_if
