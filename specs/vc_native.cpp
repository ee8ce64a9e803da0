// Native side of the specification interface: replays a counterexample against the real code.
#include "vc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <utility>
#include <unistd.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <pthread.h>

namespace {
struct MemSpec {
    uint64_t size = 0, gran = 1;
    std::map<uint64_t, uint64_t> vals;
    uint64_t dflt = 0;
};
std::map<std::pair<std::string, uint64_t>, uint64_t> g_vals;
std::map<std::pair<std::string, uint64_t>, MemSpec> g_mem;
std::map<std::string, uint64_t> g_cnt;
std::map<void*, uint64_t> g_size;
bool g_random = false;
std::mt19937_64 g_rng;
bool g_verbose = false;

void load(const char* path) {
    std::ifstream in(path);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string k, name;
        uint64_t idx;
        is >> k;
        if (k == "val") {
            uint64_t v;
            is >> name >> idx >> v;
            g_vals[{name, idx}] = v;
        } else if (k == "mem" || k == "havoc") {
            is >> name >> idx;
            MemSpec m;
            is >> m.size >> m.gran >> m.dflt;
            uint64_t o, v;
            while (is >> o >> v) m.vals[o] = v;
            g_mem[{k + ":" + name, idx}] = m;
        }
    }
}
uint64_t rnd(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo;
    uint64_t c = g_rng() % 10;
    if (c < 6 && span >= 8) return lo + g_rng() % 9;
    if (c == 6) return hi - (g_rng() % 3 <= span ? g_rng() % 3 : 0);
    if (c == 7 && span > 70) return lo + g_rng() % 70;
    if (c == 8) return lo + ((uint64_t(1) << (g_rng() % 63)) & (span ? span : 1)) % (span + 1 ? span + 1 : ~0ull);
    return span + 1 ? lo + g_rng() % (span + 1) : g_rng();
}
uint64_t get(const char* name, uint64_t lo, uint64_t hi) {
    uint64_t i = g_cnt[name]++;
    if (g_random) {
        uint64_t v = rnd(lo, hi);
        if (v < lo) v = lo;
        if (v > hi) v = hi;
        if (g_verbose) std::fprintf(stderr, "val %s %lu %lu\n", name, i, v);
        return v;
    }
    auto it = g_vals.find({name, i});
    if (it == g_vals.end()) return lo;
    return it->second;
}
void fill(char* p, uint64_t n, const MemSpec& m) {
    for (uint64_t o = 0; o + m.gran <= n; o += m.gran) {
        std::memcpy(p + o, &m.dflt, m.gran > 8 ? 8 : m.gran);
        if (o > (1u << 22)) break;
    }
    for (auto& [o, v] : m.vals) {
        if (o < n) std::memcpy(p + o, &v, m.gran < n - o ? m.gran : n - o);
    }
}
}  // namespace

extern "C" {
uint64_t vc_u64(const char* n) { return get(n, 0, ~0ull); }
uint32_t vc_u32(const char* n) { return (uint32_t)get(n, 0, 0xffffffffu); }
uint8_t vc_u8(const char* n) { return (uint8_t)get(n, 0, 255); }
bool vc_bool(const char* n) { return get(n, 0, 1) != 0; }
uint64_t vc_range(const char* n, uint64_t lo, uint64_t hi) {
    if (lo > hi) _exit(77);
    uint64_t v = get(n, lo, hi);
    if (v < lo || v > hi) _exit(77);
    return v;
}
void vc_assume(bool c) {
    if (!c) {
        std::fflush(nullptr);
        _exit(77);
    }
}
void vc_check(bool c, const char* l) {
    if (!c) {
        std::printf("REPLAY: violated obligation: %s\n", l);
        std::fflush(nullptr);
        _exit(78);
    }
}
void vc_unreached(const char* l) { vc_check(false, l); }
void vc_cover(const char*) {}
void vc_end() {
    std::fflush(nullptr);
    _exit(0);
}
void vc_watch(uint64_t) {}
void vc_head() {}
uint64_t vc_object(const void* p) { return reinterpret_cast<uint64_t>(p); }
void* vc_mem(const char* name, uint64_t bytes, uint64_t align, uint64_t gran) {
    std::string key = std::string("mem:") + name;
    uint64_t i = g_cnt[key]++;
    if (bytes > (1ull << 30)) {
        std::printf("REPLAY: object of %lu bytes is too large to replay\n", bytes);
        std::fflush(nullptr);
        _exit(79);
    }
    if (align < 16) align = 16;
    void* p = nullptr;
    if (align == 16) p = std::malloc(bytes);
    else if (posix_memalign(&p, align, bytes ? bytes : 1)) p = nullptr;
    if (!p && bytes) _exit(79);
    MemSpec m;
    auto it = g_mem.find({key, i});
    if (it != g_mem.end()) m = it->second;
    m.gran = gran;
    if (g_random) {
        for (uint64_t o = 0; o < bytes && o < 4096; o += gran) m.vals[o] = rnd(0, ~0ull);
        if (g_verbose) {
            std::fprintf(stderr, "mem %s %lu %lu %lu 0", name, i, bytes, gran);
            for (auto& [o, v] : m.vals) std::fprintf(stderr, " %lu %lu", o, v);
            std::fprintf(stderr, "\n");
        }
    }
    fill((char*)p, bytes, m);
    g_size[p] = bytes;
    return p;
}
void* vc_snapshot(const void* p) {
    // the object containing p
    auto it = g_size.upper_bound(const_cast<void*>(p));
    if (it == g_size.begin()) _exit(79);
    --it;
    char* b = (char*)it->first;
    char* q = (char*)std::malloc(it->second ? it->second : 1);
    std::memcpy(q, b, it->second);
    return q + ((const char*)p - b);
}
void vc_havoc(void* p, uint64_t bytes, uint64_t gran) {
    uint64_t i = g_cnt["hv"]++;
    MemSpec m;
    auto it = g_mem.find({"havoc:hv", i});
    if (it != g_mem.end()) m = it->second;
    m.gran = gran;
    if (g_random) {
        for (uint64_t o = 0; o < bytes && o < 4096; o += gran) m.vals[o] = rnd(0, ~0ull);
        if (g_verbose) {
            std::fprintf(stderr, "havoc hv %lu %lu %lu 0", i, bytes, gran);
            for (auto& [o, v] : m.vals) std::fprintf(stderr, " %lu %lu", o, v);
            std::fprintf(stderr, "\n");
        }
    }
    fill((char*)p, bytes, m);
}
void vc_shared(void*, uint64_t, uint64_t) {}
void vc_quiet(void*, bool) {}
uint64_t vc_atom_count() { std::printf("REPLAY: atomics are not observable natively\n"); std::fflush(nullptr); _exit(79); }
uint64_t vc_atom_kind(uint64_t) { _exit(79); }
uint64_t vc_atom_order(uint64_t) { _exit(79); }
uint64_t vc_atom_addr(uint64_t) { _exit(79); }
uint64_t vc_atom_value(uint64_t) { _exit(79); }
uint64_t vc_atom_old(uint64_t) { _exit(79); }
uint64_t vc_atom_new(uint64_t) { _exit(79); }
void vc_shared_range(void*, uint64_t, uint64_t) {}
void vc_atom_clear() {}
uint64_t vc_split(uint64_t v, uint64_t, uint64_t) { return v; }
static std::vector<void*> g_locks;
static bool g_main = false;
uint64_t vc_locks() { return g_locks.size(); }
uint64_t vc_lock_addr() { return g_locks.empty() ? 0 : (uint64_t)g_locks.back(); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (g_main) {
        for (void* x : g_locks) {
            if (x == m) vc_check(false, "lock taken twice (deadlock)");
        }
        g_locks.push_back(m);
    }
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (g_main) {
        bool ok = false;
        for (size_t i = 0; i < g_locks.size(); ++i) {
            if (g_locks[i] == m) {
                g_locks.erase(g_locks.begin() + i);
                ok = true;
                break;
            }
        }
        if (!ok) vc_check(false, "unlock of a lock that is not held");
    }
    return f(m);
}
uint64_t vc_live() { _exit(79); }
uint64_t vc_qvar() { return 0; }
void vc_forall(uint64_t, bool) {}
uint64_t vc_fn(const char*, uint64_t x, uint64_t y) { return x * 31 + y; }

#define X(n) void proof_##n();
#include "proofs.inc"
#undef X
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::string which = argv[1], how = argv[2];
    std::map<std::string, void (*)()> tab;
#define X(n) tab[#n] = proof_##n;
#include "proofs.inc"
#undef X
    if (!tab.count(which)) return 2;
    if (how == "random") {
        g_random = true;
        uint64_t seed = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 1;
        int n = argc > 4 ? std::atoi(argv[4]) : 200;
        if (argc > 5) {          // single trial, verbose
            g_verbose = true;
            g_rng.seed(seed);
            tab[which]();
            return 0;
        }
        int done = 0;
        for (int i = 0; i < n; ++i) {
            pid_t c = fork();
            if (c == 0) {
                if (!std::freopen("/dev/null", "w", stderr)) _exit(79);
                alarm(10);
                g_rng.seed(seed + i);
                tab[which]();
                std::fflush(nullptr);
                _exit(0);
            }
            int st = 0;
            waitpid(c, &st, 0);
            int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000;
            if (rc == 0) ++done;
            if (rc != 0 && rc != 77 && rc != 79) {
                std::printf("RANDOM: trial with seed %lu fails (%d)\n", seed + i, rc);
                return 78;
            }
        }
        std::printf("RANDOM: %d trials, %d within the preconditions\n", n, done);
        return 0;
    }
    load(how.c_str());
    g_main = true;
    tab[which]();
    std::printf("REPLAY: no obligation violated\n");
    return 0;
}
