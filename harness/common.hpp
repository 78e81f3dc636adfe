// Worker runtime shared by all harnesses: PRNG, case loop, verdicts, evidence
// counters, allocation hooks.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "model.hpp"

struct Rng {
    u64 s[4];
    explicit Rng(u64 seed = 1) { reseed(seed); }
    static u64 sm(u64 &x) {
        u64 z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(u64 seed) { for (auto &x : s) x = sm(seed); }
    u64 next() {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    u64 below(u64 n) { return n ? (u64)(((u128)next() * n) >> 64) : 0; }
    u64 in(u64 lo, u64 hi) { return hi - lo == UINT64_MAX ? next() : lo + below(hi - lo + 1); }  // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() >> 63; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <class T> T &of(std::vector<T> &l) { return l[below(l.size())]; }
};
inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull); return Rng::sm(x); }
inline u64 hstr(const char *s) { u64 h = 14695981039346656037ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }

// ---- verdicts -------------------------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void internal_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Checks that judge one aspect only (memory, agreement of builds) set g_only:
// a failed comparison whose message does not start with it abandons the case.
struct Abandon {};
extern const char *g_only;
// a failure at a call site that may be listed in known_findings.txt: counted if
// it is, otherwise as fail()
void finding(const char *name, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool known(const char *name);
extern bool g_trace;
void log_line(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define LOG(...) do { if (__builtin_expect(g_trace, 0)) log_line(__VA_ARGS__); } while (0)
#define CHECK(c, ...) do { count_check(); if (__builtin_expect(!(c), 0)) fail(__VA_ARGS__); } while (0)

// ---- evidence -------------------------------------------------------------
extern __thread u64 g_checks, g_ops;          // per thread; merged by thread_flush()
void thread_flush();                           // a harness thread merges its counters before it ends
inline void count_check() { g_checks++; }
void cov(const char *key, u64 n = 1);          // named coverage counter
void cov2(const char *a, const char *b, u64 n = 1);  // "a/b"
void eval_sig(u64 sig, bool nontrivial);       // one judged evaluation
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void digest(u64 x);                            // C17: running per-case digest of everything observable
void digest_bytes(const void *p, size_t n);
extern bool g_digest_on;
extern u64 g_case, g_seed;
extern int g_tier;                             // 0 quick 1 thorough
extern unsigned g_cpu_budget;                  // seconds of CPU per case

// ---- hooks ----------------------------------------------------------------
enum { HK_MALLOC = 1, HK_ALIGNED = 2 };
struct HookStats { u64 live_blocks, live_bytes, total, fails, peak; };
extern "C" {
void hooks_install(void);                      // installs tracking hooks in the library
HookStats hooks_stats(void);
void hooks_reset_peak(void);
void hooks_strict(bool on);                    // report kind mismatch / foreign pointers as violations
void hooks_fail_at(u64 n);                     // fail the n-th allocation from now (1 = next); 0 = never
void hooks_fail_from(bool all);                // if set, every allocation from fail_at on fails
int hooks_request_kind(u64 i);                  // kind of the i-th request since then: 1 malloc 2 calloc 3 realloc 4 aligned
u64 hooks_alloc_count(void);                   // allocations since last hooks_fail_at()
void hooks_fill(int byte);                     // fill pattern of fresh memory (-1 none)
bool hooks_installed(void);
void hooks_unaccounted(bool on);  // this thread makes no statements about the process-wide counts
void hooks_dump_live(void);
u64 hooks_usable(const void *);
bool hooks_live(const void *);                  // a block handed out by the hooks and not yet released
bool hooks_failed(void);                       // a failure was injected since last hooks_fail_at
void hooks_limit(u64 bytes);                   // single-block limit; larger requests return NULL
}

// ---- provided by each harness ------------------------------------------------
extern const char *PROP;
extern const char *RULE;
void harness_init();
void run_case(Rng &r, u64 caseno);

// exact-size heap buffer (ASan redzones on both sides), freed on scope exit
struct Buf {
    char *p; size_t n; void *base;
    explicit Buf(size_t n_, size_t align = 0, size_t misalign = 0);
    ~Buf();
    Buf(const Buf &) = delete;
};
// read-only mapping whose end touches an inaccessible page
struct RoMap {
    char *p; size_t n; void *base; size_t total;
    RoMap(const char *src, size_t n, size_t align);  // data end placed as close to the guard page as align permits
    ~RoMap();
    RoMap(const RoMap &) = delete;
};
