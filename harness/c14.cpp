// All memory goes through the hooks and is released exactly once.  Besides
// histories of its own this check replays the workloads of the other checks and
// judges only what the allocation ledger and the sanitizers see.
#include "q32.hpp"
#include "it32.hpp"
#include "q64.hpp"
#include "it64.hpp"
#include <roaring/containers/containers.h>
#include <errno.h>
typedef unsigned long long ull;
using namespace roaring::internal;
const char *PROP = "C14";
const char *RULE = "a case is a random history (32-bit with and without copy-on-write, 64-bit, bitset_t, iterators, views, images whole, truncated and corrupted, C++ classes) run under strict allocation hooks with the library's own references to malloc, calloc, realloc, free and the aligned forms redirected to an alarm; after each operation every block the 32-bit bitmaps refer to must be live and as large as their capacities say, queries and rejected reads must leave the ledger as it was, and at the end no block may remain; an evaluation is one operation or query under the ledger, distinct by operation, operands and container kinds";
// ---- the library must not call the C allocator itself -------------------------
static bool g_armed = false;
#define DIRECT(name) do { if (g_armed) fail("memory: the library calls %s itself instead of the hook", name); } while (0)
extern "C" {
void *libdirect_malloc(size_t n) { DIRECT("malloc"); return malloc(n); }
void *libdirect_calloc(size_t a, size_t b) { DIRECT("calloc"); return calloc(a, b); }
void *libdirect_realloc(void *p, size_t n) { DIRECT("realloc"); return realloc(p, n); }
void libdirect_free(void *p) { DIRECT("free"); free(p); }
int libdirect_posix_memalign(void **p, size_t a, size_t n) { DIRECT("posix_memalign"); return posix_memalign(p, a, n); }
void *libdirect_aligned_alloc(size_t a, size_t n) { DIRECT("aligned_alloc"); return aligned_alloc(a, n); }
void *libdirect_memalign(size_t a, size_t n) { DIRECT("memalign"); void *p; return posix_memalign(&p, a < 8 ? 8 : a, n) ? nullptr : p; }
void *libdirect_reallocarray(void *p, size_t a, size_t b) { DIRECT("reallocarray"); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return realloc(p, n); }
char *libdirect_strdup(const char *s) { DIRECT("strdup"); return strdup(s); }
}
void harness_init() { hooks_strict(true); g_only = "memory:"; g_armed = hooks_installed(); }
#define OTHERS X(c01) X(c02) X(c03) X(c04) X(c05) X(c06) X(c07) X(c08) X(c09) X(c10) X(c11) X(c12) X(c16) X(c18) X(c19) X(c20)
#define X(n) void run_case_##n(Rng &, u64);
OTHERS
#undef X
struct Other { const char *name; void (*fn)(Rng &, u64); };
static const Other others[] = {
#define X(n) {#n, run_case_##n},
OTHERS
#undef X
};
// ---- what a 32-bit bitmap refers to ---------------------------------------------
static void block(const void *p, u64 need, const char *what) {
    if (!hooks_live(p)) fail("memory: %s at %p is not a live block of the hooks", what, p);
    u64 u = hooks_usable(p);
    if (u < need) fail("memory: %s is announced as %llu bytes, its block has %llu", what, (ull)need, (ull)u);
    count_check();
}
static void walk32(const roaring_bitmap_t *b) {
    if (!hooks_installed()) return;
    block(b, sizeof *b, "a bitmap");
    const roaring_array_t &ra = b->high_low_container;
    if (ra.size > ra.allocation_size) fail("memory: %d chunks in room for %d", ra.size, ra.allocation_size);
    if (ra.allocation_size) block(ra.containers, (u64)ra.allocation_size * (sizeof(void *) + 2 + 1), "the chunk table");
    for (int i = 0; i < ra.size; i++) {
        uint8_t t = ra.typecodes[i]; const container_t *c = ra.containers[i];
        if (t == SHARED_CONTAINER_TYPE) { const shared_container_t *s = (const shared_container_t *)c; block(s, sizeof *s, "a shared container"); t = s->typecode; c = s->container; cov("block/shared"); }
        if (t == BITSET_CONTAINER_TYPE) { const bitset_container_t *q = (const bitset_container_t *)c; block(q, sizeof *q, "a bitset container"); block(q->words, 8192, "bitset words"); cov("block/bitset"); }
        else if (t == ARRAY_CONTAINER_TYPE) { const array_container_t *q = (const array_container_t *)c; block(q, sizeof *q, "an array container"); if (q->cardinality > q->capacity) fail("memory: %d array values in room for %d", q->cardinality, q->capacity); if (q->capacity) block(q->array, 2 * (u64)q->capacity, "array values"); cov("block/array"); }
        else if (t == RUN_CONTAINER_TYPE) { const run_container_t *q = (const run_container_t *)c; block(q, sizeof *q, "a run container"); if (q->n_runs > q->capacity) fail("memory: %d runs in room for %d", q->n_runs, q->capacity); if (q->capacity) block(q->runs, 4 * (u64)q->capacity, "runs"); cov("block/run"); }
    }
}
struct Quiet {  // the ledger is as before
    HookStats h = hooks_stats();
    void check(const char *what) { if (!hooks_installed()) return; HookStats n = hooks_stats(); count_check(); if (n.live_blocks != h.live_blocks || n.live_bytes != h.live_bytes) { hooks_dump_live(); fail("memory: %s changed the ledger from %llu blocks, %llu bytes to %llu blocks, %llu bytes", what, (ull)h.live_blocks, (ull)h.live_bytes, (ull)n.live_blocks, (ull)n.live_bytes); } cov2("quiet", what); }
};
// bytes that must be refused (or read) without a trace
static void offers32(Rng &r, const roaring_bitmap_t *b) {
    Bytes im; int fmt = (int)r.below(3);
    if (fmt == 0) { im.resize(roaring_bitmap_portable_size_in_bytes(b)); roaring_bitmap_portable_serialize(b, (char *)im.data()); }
    else if (fmt == 1) { im.resize(roaring_bitmap_size_in_bytes(b)); roaring_bitmap_serialize(b, (char *)im.data()); }
    else { size_t f = roaring_bitmap_frozen_size_in_bytes(b); Buf o(f, 32); roaring_bitmap_frozen_serialize(b, o.p); im.assign(o.p, o.p + f); }
    for (int k = 0; k < 3; k++) {
        Bytes q = im;
        if (k) { if (r.coin() && !q.empty()) q.resize(r.below(q.size())); else if (!q.empty()) { size_t n = r.in(1, 3); for (size_t i = 0; i < n; i++) q[r.coin() ? r.below(std::min<size_t>(q.size(), 24)) : r.below(q.size())] = (unsigned char)r.next(); } }
        Buf bf(q.size(), 32); memcpy(bf.p, q.data(), q.size());
        Quiet z; roaring_bitmap_t *x = nullptr;
        if (fmt == 0) { x = roaring_bitmap_portable_deserialize_safe(bf.p, q.size()); }
        else if (fmt == 1) { x = roaring_bitmap_deserialize_safe(bf.p, q.size()); }
        else if (k == 0 || q.size() < im.size()) { x = (roaring_bitmap_t *)roaring_bitmap_frozen_view(bf.p, q.size()); }
        bool got = x; if (x) roaring_bitmap_free(x);
        g_ops++; u64 h = mix(fmt, got); for (unsigned char ch : q) h = h * 1099511628211ull + ch; eval_sig(h, true);
        z.check(fmt == 0 ? got ? "portable read and free" : "rejected portable read" : fmt == 1 ? got ? "native read and free" : "rejected native read" : got ? "frozen view and free" : "rejected frozen view");
    }
}
static void history32(Rng &r) {
    World w = gen_world32(r); w.cow = r.coin(); w.wide = r.chance(1, 60);
    Eng32 e(r, w); e.judge = 0; e.opname = "build"; e.max_pool = 6; e.rebuild = 20; e.toggle_cow = r.chance(1, 3);
    e.populate((unsigned)r.in(1, 3));
    unsigned n = w.wide ? 8 : (unsigned)r.in(10, 35);
    for (unsigned i = 0; i < n; i++) {
        e.step(C_ANY, 1);
        u64 sg = hstr(e.opname.c_str()); for (auto &x : e.pool) { walk32(x.b); sg = mix(sg, rawhash32(x.b)); }
        eval_sig(sg, true); cov2("ledger", e.opname.c_str());
        if (r.chance(1, 4)) {
            Bm &x = e.pool[e.pick()], &y = e.pool[e.pick()]; u64 h = rawhash32(x.b); if (x.m.card() > 400000) continue;
            { Quiet z; Q q{r, w, x.b, x.m, h}; q.totals(); for (int k = 0; k < 3; k++) { q.point(); q.select(); q.ranges(); } q.rank_many(); q.bulk(); q.arrays(); z.check("queries"); }
            { Quiet z; Q q{r, w, x.b, x.m, h}; q.bitset(); z.check("to_bitset and free"); }
            { Quiet z; pair_queries(r, x.b, x.m, y.b, y.m, h); roaring_bitmap_and_cardinality(x.b, y.b); roaring_bitmap_or_cardinality(x.b, y.b); roaring_bitmap_xor_cardinality(x.b, y.b); roaring_bitmap_andnot_cardinality(x.b, y.b); z.check("pair queries"); }
            { Quiet z; std::vector<It> its; It it; it.p = roaring_iterator_create(x.b); it.heap = true; it.c = x.m.empty() ? Cur{2, 0} : Cur{0, x.m.min()}; its.push_back(it); for (int s = 0; s < 10; s++) step(r, w, x.b, x.m, its, h); for (auto &t : its) roaring_uint32_iterator_free(t.p); z.check("iteration"); }
            { Quiet z; const char *why; roaring_bitmap_internal_validate(x.b, &why); callbacks(r, x.b, x.m, h); z.check("validation and callbacks"); }
            { Quiet z; size_t k = roaring_bitmap_portable_size_in_bytes(x.b); Buf o(k); roaring_bitmap_portable_serialize(x.b, o.p); k = roaring_bitmap_size_in_bytes(x.b); Buf o2(k); roaring_bitmap_serialize(x.b, o2.p); k = roaring_bitmap_frozen_size_in_bytes(x.b); Buf o3(k, 32); roaring_bitmap_frozen_serialize(x.b, o3.p); z.check("serialization"); }
            offers32(r, x.b);
        }
    }
}
static void history64(Rng &r) {
    World w = gen_world64(r);
    Eng64 e(r, w); e.judge = 0; e.opname = "build"; e.max_pool = 5; e.populate((unsigned)r.in(1, 3));
    unsigned n = (unsigned)r.in(10, 35);
    for (unsigned i = 0; i < n; i++) {
        e.step(C_ANY, 1); u64 sg = hstr(e.opname.c_str()); for (auto &x : e.pool) sg = mix(sg, x.m.hash());
        eval_sig(sg, true); cov2("ledger64", e.opname.c_str());
        if (r.chance(1, 4)) {
            Bm64 &x = e.pool[e.pick()], &y = e.pool[e.pick()]; u64 h = x.m.hash(); if (x.m.card() > 400000) continue;
            { Quiet z; Q64 q{r, w, x.b, x.m, h}; q.all(2); z.check("queries64"); }
            { Quiet z; pair_queries64(x.b, x.m, y.b, y.m, h); roaring64_bitmap_or_cardinality(x.b, y.b); roaring64_bitmap_xor_cardinality(x.b, y.b); roaring64_bitmap_andnot_cardinality(x.b, y.b); z.check("pair queries64"); }
            { Quiet z; { Walk64 wk{r, w, {}, {}}; wk.tgts.push_back({x.b, &x.m}); wk.start(0, false); wk.start(0, true); for (int k = 0; k < 15; k++) wk.step(); } z.check("iteration64"); }
            { Quiet z; const char *why; roaring64_bitmap_internal_validate(x.b, &why); z.check("validation64"); }
            { Quiet z; roaring64_bitmap_t *c = roaring64_bitmap_copy(x.b); if (c) { roaring64_bitmap_shrink_to_fit(c); size_t f = roaring64_bitmap_frozen_size_in_bytes(c); Buf o(f, 64); roaring64_bitmap_frozen_serialize(c, o.p); roaring64_bitmap_free(c);
                size_t len = r.coin() ? f : r.below(f + 1); Buf o2(len, 64); memcpy(o2.p, o.p, len); roaring64_bitmap_t *v = roaring64_bitmap_frozen_view(o2.p, len); bool got = v; if (v) { roaring64_bitmap_contains(v, e.val(x.m)); roaring64_bitmap_free(v); } z.check(got ? "frozen view64 and free" : "rejected frozen view64"); } }
            Bytes im = image64(x.b);
            for (int k = 0; k < 3; k++) {
                Bytes q = im; if (k) { if (r.coin() && !q.empty()) q.resize(r.below(q.size())); else if (!q.empty()) { size_t m = r.in(1, 3); for (size_t j = 0; j < m; j++) q[r.coin() ? r.below(std::min<size_t>(q.size(), 40)) : r.below(q.size())] = (unsigned char)r.next(); } }
                Buf bf(q.size()); memcpy(bf.p, q.data(), q.size()); Quiet z; roaring64_bitmap_t *v = roaring64_bitmap_portable_deserialize_safe(bf.p, q.size()); bool got = v; if (v) roaring64_bitmap_free(v); z.check(got ? "portable read64 and free" : "rejected portable read64");
            }
        }
    }
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    const char *which = "";
    u64 k = r.below(24);
    try {
        if (k < 5) { which = "history32"; history32(r); }
        else if (k < 8) { which = "history64"; history64(r); }
        else { const Other &o = others[(k - 8) % (sizeof others / sizeof *others)]; which = o.name; LOG("workload of %s", which); o.fn(r, c + 1000); }
    } catch (Abandon &) { cov2("abandoned (another property)", which); return; }
    cov2("workload", which);
    if (hooks_installed()) {
        HookStats h1 = hooks_stats(); count_check();
        if (h1.live_blocks != h0.live_blocks) { hooks_dump_live(); fail("memory: %lld blocks (%lld bytes) remain allocated after everything was freed (workload %s)", (long long)(h1.live_blocks - h0.live_blocks), (long long)(h1.live_bytes - h0.live_bytes), which); }
    }
    if (c < 3) sample("case %llu: workload %s, %llu allocations so far, all released", (ull)c, which, (ull)hooks_stats().total);
}
