// Tracking allocation hooks.  Compiled without sanitizer instrumentation so it
// may look at its own (poisoned) block headers.
#include "common.hpp"
#include <atomic>
#include <roaring/memory.h>
#include <stdlib.h>
#include <string.h>

extern "C" {
__attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *, size_t);
#ifdef HK_WRAP
void *__real_malloc(size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
#define RAW_FREE __real_free
#define RAW_MEMALIGN __real_posix_memalign
#else
#define RAW_FREE free
#define RAW_MEMALIGN posix_memalign
#endif
}
namespace {
const u64 LIVE = 0x5AFE11FEB10CC0DEull, DEAD = 0xDEADB10CDEADB10Cull;
struct Hdr { u64 magic; u64 kind; u64 size; void *base; Hdr *prev, *next; u64 seq; u64 align; };
static_assert(sizeof(Hdr) == 64, "");
Hdr head;
std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~Lock() { lk.clear(std::memory_order_release); } };
u64 live_blocks, live_bytes, total, fails, peak, since, fail_at, limit_bytes = 6ull << 30;
bool fail_all, strict, installed, failed_flag;
int fillb = 0xA5;

unsigned char kinds_log[1 << 17];  // what each request since hooks_fail_at() was: 1 malloc, 2 calloc, 3 realloc, 4 aligned_malloc
bool should_fail(int what) {
    Lock l;
    total++; since++;
    if (since < sizeof kinds_log) kinds_log[since] = (unsigned char)what;
    static const char *trap = getenv("HOOKS_TRAP");  // debugging aid: stop at the n-th allocation
    if (trap && total == strtoull(trap, 0, 0)) __builtin_trap();
    if (fail_at && (since == fail_at || (fail_all && since >= fail_at))) { fails++; failed_flag = true; return true; }
    return false;
}
void *raw_alloc(size_t size, size_t align, u64 kind) {
    if (size > limit_bytes) return nullptr;
    size_t off = align > sizeof(Hdr) ? align : sizeof(Hdr);
    void *base = nullptr;
    if (RAW_MEMALIGN(&base, align < 16 ? 16 : align, off + size)) return nullptr;
    char *p = (char *)base + off;
    Hdr *h = (Hdr *)(p - sizeof(Hdr));
    h->magic = LIVE; h->kind = kind; h->size = size; h->base = base; h->align = align;
    if (fillb >= 0) memset(p, fillb, size);
    {
        Lock l;
        h->seq = total;
        h->prev = &head; h->next = head.next; if (head.next) head.next->prev = h; head.next = h;
        live_blocks++; live_bytes += size; if (live_bytes > peak) peak = live_bytes;
    }
    if (__asan_poison_memory_region) __asan_poison_memory_region(base, off);
    return p;
}
void raw_free(void *p, u64 kind, const char *who) {
    if (!p) return;
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    if (h->magic != LIVE) {
        if (h->magic == DEAD) fail("memory: block %p released twice (through %s)", p, who);
        fail("memory: %s called on a pointer that no hook allocated (%p)", who, p);
    }
    if (strict && h->kind != kind) fail("memory: block of kind %s released through %s", h->kind == HK_MALLOC ? "malloc" : "aligned_malloc", who);
    {
        Lock l;
        h->prev->next = h->next; if (h->next) h->next->prev = h->prev;
        live_blocks--; live_bytes -= h->size;
    }
    h->magic = DEAD;
    void *base = h->base;
    size_t off = (char *)p - (char *)base;
    memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(base, off);
    h->magic = DEAD;
    RAW_FREE(base);
}
void *h_malloc(size_t n) { if (should_fail(1)) return nullptr; return raw_alloc(n, 16, HK_MALLOC); }
void *h_calloc(size_t a, size_t b) {
    if (should_fail(2)) return nullptr;
    size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void *p = raw_alloc(n, 16, HK_MALLOC);
    if (p) memset(p, 0, n);
    return p;
}
void h_free(void *p) { raw_free(p, HK_MALLOC, "free"); }
void *h_realloc(void *p, size_t n) {
    if (!p) { if (should_fail(3)) return nullptr; return raw_alloc(n, 16, HK_MALLOC); }
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    if (h->magic != LIVE) {
        if (h->magic == DEAD) fail("memory: realloc of a released block %p", p);
        fail("memory: realloc called on a pointer that no hook allocated (%p)", p);
    }
    if (strict && h->kind != HK_MALLOC) fail("memory: realloc of an aligned block");
    if (n == 0) { h_free(p); return nullptr; }  // glibc behaviour
    if (should_fail(3)) return nullptr;
    void *q = raw_alloc(n, 16, HK_MALLOC);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    h_free(p);
    return q;
}
void *h_aligned(size_t al, size_t n) { if (should_fail(4)) return nullptr; return raw_alloc(n, al, HK_ALIGNED); }
void h_aligned_free(void *p) { raw_free(p, HK_ALIGNED, "aligned_free"); }
}  // namespace
extern "C" {
void hooks_install(void) {
    installed = true;
    roaring_memory_t m;
    m.malloc = h_malloc; m.realloc = h_realloc; m.calloc = h_calloc; m.free = h_free;
    m.aligned_malloc = h_aligned; m.aligned_free = h_aligned_free;
    roaring_init_memory_hook(m);
}
static thread_local bool unaccounted;
bool hooks_installed(void) { return installed && !unaccounted; }
void hooks_unaccounted(bool on) { unaccounted = on; }
HookStats hooks_stats(void) { Lock l; HookStats s = {live_blocks, live_bytes, total, fails, peak}; return s; }
void hooks_reset_peak(void) { Lock l; peak = live_bytes; }
void hooks_strict(bool on) { strict = on; }
void hooks_fail_at(u64 n) { Lock l; fail_at = n; since = 0; failed_flag = false; }
void hooks_fail_from(bool a) { fail_all = a; }
int hooks_request_kind(u64 i) { return i < sizeof kinds_log ? kinds_log[i] : 0; }
u64 hooks_alloc_count(void) { return since; }
bool hooks_failed(void) { return failed_flag; }
void hooks_fill(int b) { fillb = b; }
void hooks_limit(u64 b) { limit_bytes = b; }
u64 hooks_usable(const void *p) { return ((Hdr *)((char *)p - sizeof(Hdr)))->size; }
bool hooks_live(const void *p) { return p && ((Hdr *)((char *)p - sizeof(Hdr)))->magic == LIVE; }
void hooks_dump_live(void) {
    int n = 0;
    for (Hdr *h = head.next; h && n < 10; h = h->next, n++)
        fprintf(stderr, "  live block %p kind=%s size=%llu allocation#%llu\n", (void *)(h + 1), h->kind == HK_MALLOC ? "malloc" : "aligned", (unsigned long long)h->size, (unsigned long long)h->seq);
}
}
