// Concurrency: shared read-only bitmaps, copy-on-write copies owned by different
// threads, and first calls in the process.
#include <atomic>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "view32.hpp"
#include "view64.hpp"
typedef unsigned long long ull;
const char *PROP = "C13";
const char *RULE = "a case starts 2 to 6 threads behind a barrier: (a) all run read-only operations, iterators and non-modifying set operations on the same 32-bit, frozen or 64-bit bitmaps; (b) or live through separate histories of any kind of object; (c) each owns copies of copy-on-write bitmaps and runs a random history (updates, set operations, optimise, shrink, copy, free) on its own; (d) a fresh process whose very first library calls come from all threads at once; ThreadSanitizer watches every access, each thread compares with its own sequential model, allocation hooks (in builds without ThreadSanitizer) check that everything is released once; an evaluation is one threaded history, distinct by the observed order in which the threads' operations ran";
static std::atomic<u64> ticket;
struct Order { std::vector<std::pair<u64, int>> v; };
static void pause_some(Rng &r) { switch (r.below(12)) { case 0: sched_yield(); break; case 1: { volatile int z = 0; for (u64 i = r.below(3000); i; i--) z = z + 1; break; } case 2: if (r.chance(1, 10)) usleep((useconds_t)r.below(200)); break; default:; } }
template <class F> static void run_threads(Rng &r, int n, const char *what, F f) {
    std::atomic<int> ready{0}; std::vector<Order> ord(n); std::vector<u64> seeds(n); for (auto &s : seeds) s = r.next();
    ticket.store(0, std::memory_order_relaxed);
    {
        std::vector<std::thread> ts;
        for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
            Rng tr(seeds[t]);
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield();
            f(t, tr, [&] { ord[t].v.push_back({ticket.fetch_add(1, std::memory_order_relaxed), t}); pause_some(tr); });
            thread_flush();
        });
        for (auto &t : ts) t.join();
    }
    std::vector<std::pair<u64, int>> all; for (auto &o : ord) all.insert(all.end(), o.v.begin(), o.v.end());
    std::sort(all.begin(), all.end());
    u64 h = hstr(what), sw = 0; for (size_t i = 0; i < all.size(); i++) { h = mix(h, (u64)all[i].second); if (i && all[i].second != all[i - 1].second) sw++; }
    eval_sig(h, sw > 0); cov2(what, "histories"); cov2(what, "events", all.size()); cov2(what, "context switches between events", sw); cov2("threads", std::to_string(n).c_str());
}
// ---- first calls --------------------------------------------------------------
static void first_calls(u64 seed) {
    Rng r(seed); int n = (int)r.in(2, 6);
    std::atomic<int> ready{0}; std::vector<std::thread> ts; std::vector<u64> seeds(n); for (auto &s : seeds) s = r.next();
    int what = (int)r.below(8);
    std::vector<u64> words(1024); for (auto &w : words) w = r.next();
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
        Rng tr(seeds[t]); IS m; u64 lo = tr.below(60000), hi = lo + tr.below(200000); m.add(lo, hi);
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) {}
        if (what == 7) {
            roaring64_bitmap_t *b = roaring64_bitmap_create(); roaring64_bitmap_add_range_closed(b, lo, hi); if (roaring64_bitmap_get_cardinality(b) != hi - lo + 1) fail("first calls: wrong 64-bit cardinality"); roaring64_bitmap_free(b); return;
        }
        roaring_bitmap_t *b = roaring_bitmap_create();
        if (what % 2) roaring_bitmap_add_range_closed(b, (uint32_t)lo, (uint32_t)hi);
        else { std::vector<uint32_t> v; for (u64 x = lo; x <= hi; x++) v.push_back((uint32_t)x); roaring_bitmap_add_many(b, v.size(), v.data()); }
        if (what >= 2) roaring_bitmap_remove_run_compression(b);
        if (what >= 4) { roaring_bitmap_t *c = roaring_bitmap_flip(b, lo + 10, lo + 20), *d = roaring_bitmap_and(b, c), *e = roaring_bitmap_or(b, c), *x = roaring_bitmap_xor(b, c); if (roaring_bitmap_or_cardinality(b, c) != roaring_bitmap_get_cardinality(e)) fail("first calls: or cardinality"); roaring_bitmap_free(c); roaring_bitmap_free(d); roaring_bitmap_free(e); roaring_bitmap_free(x); }
        if (read32(b) != m) fail("first calls: wrong contents");
        if (roaring_bitmap_get_cardinality(b) != hi - lo + 1) fail("first calls: wrong cardinality");
        roaring_bitmap_free(b);
    });
    for (auto &t : ts) t.join();
}
void harness_init() {
    hooks_strict(true);
    if (const char *s = getenv("C13_FIRST")) { g_cpu_budget = 60; first_calls(strtoull(s, 0, 10)); _exit(0); }
    g_cpu_budget = 200;
}
static void first_call_process(Rng &r) {
    u64 seed = r.next() >> 1; std::string v = "C13_FIRST=" + std::to_string(seed); LOG(" first-call process %s", v.c_str());
    std::vector<char *> env; for (char **e = environ; *e; e++) env.push_back(*e); env.push_back((char *)v.c_str()); env.push_back(nullptr);
    char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n <= 0) internal_error("readlink"); self[n] = 0;
    std::vector<char *> av = {self}; if (!hooks_installed()) av.push_back((char *)"--nohooks"); av.push_back(nullptr);
    pid_t p = vfork(); if (p < 0) internal_error("vfork"); if (p == 0) { execve(self, av.data(), env.data()); _exit(3); }
    int st; if (waitpid(p, &st, 0) != p) internal_error("waitpid");
    g_ops++; eval_sig(mix(seed, 1), true); cov("first calls/processes");
    if (WIFSIGNALED(st)) fail("a process whose first library calls are concurrent dies of signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) == 3) internal_error("first-call process");
    if (WEXITSTATUS(st)) fail("concurrent first library calls: the process exits with %d (its report precedes this line)", WEXITSTATUS(st));
}
// ---- shared read-only ----------------------------------------------------------
static void shared32(Rng &r) {
    World w = gen_world32(r);
    IS s, s2; int tries = 0; do { s = gen_set(r, w); s2 = derive_set(r, w, s); } while ((s.nint() > 3000 || s.card() > 400000 || s2.nint() > 3000 || s2.card() > 400000) && ++tries < 30); if (tries >= 30) return;
    World wb = w; Eng32 e(r, wb); e.judge = 0; e.opname = "build"; Bm x = e.build(s), y = e.build(s2); e.pool.push_back(x); e.pool.push_back(y);
    bool cow = r.chance(1, 3);   // copy-on-write bitmap with shared containers: queries only (copies are handed out, not made concurrently)
    if (cow) { roaring_bitmap_set_copy_on_write(x.b, true); Bm t; t.b = roaring_bitmap_copy(x.b); t.m = x.m; e.pool.push_back(t); }
    bool froz = !cow && r.chance(1, 3); size_t f = froz ? roaring_bitmap_frozen_size_in_bytes(x.b) : 0; Buf fb(f ? f : 1, 32); const roaring_bitmap_t *v = x.b;
    if (froz) { roaring_bitmap_frozen_serialize(x.b, fb.p); v = roaring_bitmap_frozen_view(fb.p, f); if (!v) fail("frozen_view failed"); }
    const char *kind = cow ? "shared/copy-on-write bitmap" : froz ? "shared/frozen view" : "shared/bitmap";
    IS xm = x.m, ym = y.m; u64 raw = rawhash32(v);
    run_threads(r, (int)r.in(2, 6), kind, [&](int, Rng &tr, auto tick) {
        IS m = xm, my = ym; World tw = w; u64 base = m.hash();
        auto body = [&](int k) {
            Q q{tr, tw, v, m, base}; tick();
            switch (k) {
                case 0: q.totals(); q.point(); q.select(); break;
                case 1: q.ranges(); q.rank_many(); break;
                case 2: q.bulk(); q.arrays(); break;
                case 3: if (!cow) q.bitset(); else q.arrays(); break;
                case 4: pair_queries(tr, v, m, y.b, my, base); tick(); pair_queries(tr, y.b, my, v, m, base); break;
                case 5: { std::vector<It> its; It it; it.p = roaring_iterator_create(v); it.heap = true; it.c = m.empty() ? Cur{2, 0} : Cur{0, m.min()}; its.push_back(it); for (int i = 0; i < 10; i++) { step(tr, tw, v, m, its, base); tick(); } for (auto &t : its) roaring_uint32_iterator_free(t.p); callbacks(tr, v, m, base); break; }
                case 6: { const char *why; CHECK(roaring_bitmap_internal_validate(v, &why), "validate"); size_t n = roaring_bitmap_portable_size_in_bytes(v); Buf o(n); roaring_bitmap_portable_serialize(v, o.p); tick(); roaring_bitmap_t *b = roaring_bitmap_portable_deserialize_safe(o.p, n); if (!b || read32(b) != m) fail("portable image written by concurrent readers is wrong"); roaring_bitmap_free(b); size_t ff = roaring_bitmap_frozen_size_in_bytes(v); Buf o2(ff, 32); roaring_bitmap_frozen_serialize(v, o2.p); break; }
                default:
                    if (cow) { CHECK(read32(v) == m, "contents"); break; }
                    view_reads(tr, tw, v, m, y.b, my, "concurrently read bitmap", false);
            }
        };
        int n = (int)tr.in(2, 7); for (int i = 0; i < n; i++) body((int)tr.below(8));
    });
    CHECK(rawhash32(v) == raw && read32(y.b) == ym, "concurrent read-only operations changed a bitmap");
    if (froz) roaring_bitmap_free(v);
}
static void shared64(Rng &r) {
    World w = gen_world64(r);
    IS s, s2; int tries = 0; do { s = gen_set(r, w); s2 = derive_set(r, w, s); } while ((s.nint() > 3000 || s.card() > 400000 || s2.nint() > 3000 || s2.card() > 400000) && ++tries < 30); if (tries >= 30) return;
    Eng64 e(r, w); e.judge = 0; e.opname = "build"; Bm64 x = e.build(s), y = e.build(s2); e.pool.push_back(x); e.pool.push_back(y);
    bool froz = r.chance(1, 3); if (froz) roaring64_bitmap_shrink_to_fit(x.b); size_t f = froz ? roaring64_bitmap_frozen_size_in_bytes(x.b) : 0; Buf fb(f ? f : 1, 64); const roaring64_bitmap_t *v = x.b;
    if (froz) { roaring64_bitmap_frozen_serialize(x.b, fb.p); v = roaring64_bitmap_frozen_view(fb.p, f); if (!v) fail("frozen_view(64) failed"); }
    IS xm = x.m, ym = y.m;
    run_threads(r, (int)r.in(2, 5), froz ? "shared/64-bit frozen view" : "shared/64-bit bitmap", [&](int, Rng &tr, auto tick) {
        IS m = xm, my = ym; World tw = w; u64 base = m.hash();
        int n = (int)tr.in(2, 5);
        for (int i = 0; i < n; i++) {
            tick(); Q64 q{tr, tw, v, m, base};
            switch (tr.below(4)) {
                case 0: q.all(2); break;
                case 1: { Walk64 wk{tr, tw, {}, {}}; wk.tgts.push_back({v, &m}); wk.start(0, tr.coin()); for (int j = 0; j < 12; j++) { wk.step(); tick(); } break; }
                case 2: pair_queries64(v, m, y.b, my, base); break;
                default: view64_reads(tr, tw, v, m, y.b, my, "concurrently read 64-bit bitmap");
            }
        }
    });
    { std::string er; CHECK(read64_portable(v, &er) == xm && er.empty(), "concurrent read-only operations changed a 64-bit bitmap"); }
    if (froz) roaring64_bitmap_free((roaring64_bitmap_t *)v);
}
// ---- copy-on-write copies owned by different threads -----------------------------
static void cow_threads(Rng &r, u64 c) {
    World w = gen_world32(r); w.cow = true; w.wide = false;
    int n = (int)r.in(2, 5);
    std::vector<std::unique_ptr<Rng>> rngs; std::vector<std::unique_ptr<Eng32>> engs;
    for (int t = 0; t < n; t++) { rngs.emplace_back(new Rng(r.next())); engs.emplace_back(new Eng32(*rngs[t], w)); Eng32 &e = *engs[t]; e.judge = C_ANY & ~C_OPT & ~C_SER; e.all = true; e.opname = "build"; e.max_pool = 5; e.rebuild = 40; e.adopt_num = 1; e.adopt_den = 2; }
    {
        Eng32 b(r, w); b.judge = 0; b.opname = "build"; unsigned nb = (unsigned)r.in(1, 3);
        for (unsigned i = 0; i < nb; i++) { IS s; int tries = 0; do s = gen_set(r, w); while ((s.nint() > 2000 || s.card() > 300000) && ++tries < 30); if (tries >= 30) s = IS(); b.pool.push_back(b.build(s)); }
        for (auto &x : b.pool) roaring_bitmap_set_copy_on_write(x.b, true);
        for (int t = 0; t < n; t++) { for (auto &x : b.pool) if (r.chance(4, 5)) { Bm q; q.b = roaring_bitmap_copy(x.b); q.m = x.m; engs[t]->pool.push_back(q); } if (engs[t]->pool.empty()) { Bm q; q.b = roaring_bitmap_copy(b.pool[0].b); q.m = b.pool[0].m; engs[t]->pool.push_back(q); } }
        if (c < 2) sample("case %llu: %d threads, each with copies of %u bitmaps: %s", (ull)c, n, nb, chunk_profile(b.pool[0].m).c_str());
    }  // the originals are gone: only the threads' copies remain
    run_threads(r, n, "copy-on-write", [&](int t, Rng &tr, auto tick) {
        Eng32 &e = *engs[t]; unsigned steps = (unsigned)tr.in(6, 22);
        for (unsigned i = 0; i < steps; i++) {
            tick();
            switch (tr.below(6)) {
                case 0: { size_t k = e.pick(); Bm q; e.opname = "copy"; q.b = roaring_bitmap_copy(e.pool[k].b); q.m = e.pool[k].m; if (!q.b) fail("copy returned NULL"); e.same(q, "a fresh copy"); e.adopt(q); break; }
                case 1: { size_t k = e.pick(); Bm &x = e.pool[k]; e.opname = "shrink or optimise"; switch (tr.below(3)) { case 0: roaring_bitmap_shrink_to_fit(x.b); break; case 1: roaring_bitmap_run_optimize(x.b); break; default: roaring_bitmap_remove_run_compression(x.b); } e.same(x, "a shrunk or optimised bitmap"); break; }
                case 2: { size_t k = e.pick(); Bm &x = e.pool[k]; e.opname = "update"; u64 a, b; gen_range(tr, w, x.m, &a, &b); if (b - a > 200000) b = a + 200000; IS ex = x.m; switch (tr.below(6)) { case 0: roaring_bitmap_add(x.b, (uint32_t)a); ex.add(a); break; case 1: roaring_bitmap_remove(x.b, (uint32_t)a); ex.remove(a); break; case 2: roaring_bitmap_add_range_closed(x.b, (uint32_t)a, (uint32_t)b); ex.add(a, b); break; case 3: roaring_bitmap_remove_range_closed(x.b, (uint32_t)a, (uint32_t)b); ex.remove(a, b); break; case 4: roaring_bitmap_flip_inplace_closed(x.b, (uint32_t)a, (uint32_t)b); ex.flip(a, b); break; default: { uint32_t v[3] = {(uint32_t)a, (uint32_t)b, (uint32_t)a}; roaring_bitmap_remove_many(x.b, 3, v); ex.remove(a); ex.remove(b); } } e.settle(x, ex, C_UPD); break; }
                case 3: if (e.pool.size() > 1) { e.opname = "free"; size_t k = e.pick(); roaring_bitmap_free(e.pool[k].b); e.pool[k] = e.pool.back(); e.pool.pop_back(); for (auto &x : e.pool) e.same(x, "another bitmap"); } break;
                default: e.step(C_SET | C_UPD | C_COPY, 2);
            }
            if (tr.chance(1, 6)) { size_t k = e.pick(); Bm &x = e.pool[k]; Q q{tr, w, x.b, x.m, 1}; e.opname = "query"; q.totals(); q.point(); q.select(); }
        }
        while (!e.pool.empty()) { tick(); roaring_bitmap_free(e.pool.back().b); e.pool.pop_back(); e.opname = "free"; for (auto &x : e.pool) e.same(x, "a bitmap sharing storage with a freed one"); }
    });
}
// ---- many rounds of the last owners letting go at the same moment ----------------
// Each round hands copies of one copy-on-write bitmap of many containers to the
// threads, which all drop, change or copy them container by container in step.
static void spin_to(std::atomic<u64> &a, u64 v) { for (unsigned i = 0; a.load(std::memory_order_acquire) < v; i++) if (i > 4000) sched_yield(); }
static void release_storm(Rng &r, u64 c) {
    int n = r.chance(2, 3) ? 2 : 3; unsigned rounds = (unsigned)r.in(10, 40), nk = (unsigned)r.in(8, 64); int shape = (int)r.below(3);
    std::atomic<u64> go{0}, arrive{0}, done{0}; std::vector<roaring_bitmap_t *> mine(n); std::vector<int> act(n); std::vector<u64> sd(n); u64 want = 0, lag = 0; std::atomic<u64> wrong{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
        for (unsigned k = 1; k <= rounds; k++) {
            spin_to(go, k); arrive.fetch_add(1, std::memory_order_acq_rel); spin_to(arrive, (u64)k * n);
            Rng tr(sd[t]); roaring_bitmap_t *b = mine[t];
            { volatile u64 z = 0; for (u64 i = tr.below(lag + 1); i; i--) z = z + 1; }
            switch (act[t]) {
                case 0: roaring_bitmap_free(b); break;
                case 1: for (unsigned i = 0; i < nk; i++) roaring_bitmap_add(b, (i << 16) + 7); wrong.fetch_add(roaring_bitmap_get_cardinality(b) != want + nk, std::memory_order_relaxed); roaring_bitmap_free(b); break;
                case 2: for (unsigned i = 0; i < nk; i++) roaring_bitmap_remove(b, (i << 16) + 8); wrong.fetch_add(roaring_bitmap_get_cardinality(b) != want - nk, std::memory_order_relaxed); roaring_bitmap_free(b); break;
                case 3: { roaring_bitmap_t *q = roaring_bitmap_copy(b); roaring_bitmap_free(b); wrong.fetch_add(roaring_bitmap_get_cardinality(q) != want, std::memory_order_relaxed); roaring_bitmap_free(q); break; }
                default: roaring_bitmap_clear(b); roaring_bitmap_free(b);
            }
            done.fetch_add(1, std::memory_order_acq_rel); spin_to(done, (u64)k * n);
            g_ops++;
        }
        thread_flush();
    });
    HookStats h0 = hooks_stats();
    for (unsigned k = 1; k <= rounds; k++) {
        spin_to(done, (u64)(k - 1) * n);
        if (k > 1) {
            u64 bad = wrong.exchange(0, std::memory_order_relaxed);
            if (bad || (hooks_installed() && hooks_stats().live_blocks != h0.live_blocks)) { fail("release storm, round %u: %llu wrong cardinalities, %lld blocks remain after all owners let go", k - 1, (ull)bad, (long long)(hooks_stats().live_blocks - h0.live_blocks)); }
        }
        roaring_bitmap_t *b = roaring_bitmap_create(); roaring_bitmap_set_copy_on_write(b, true);
        for (unsigned i = 0; i < nk; i++) { uint32_t base = i << 16; roaring_bitmap_add(b, base + 8); if (shape == 1) roaring_bitmap_add_range_closed(b, base + 100, base + 300); else if (shape == 2 && i % 16 == 0) for (uint32_t x = 0; x < 9000; x += 2) roaring_bitmap_add(b, base + 10 + x); }
        if (shape == 1) roaring_bitmap_run_optimize(b);
        want = roaring_bitmap_get_cardinality(b); lag = r.pick<u64>({0, 0, 20, 200, 2000});
        int same = r.coin() ? (int)r.below(5) : -1;
        for (int t = 0; t < n; t++) { mine[t] = t + 1 < n ? roaring_bitmap_copy(b) : b; act[t] = same >= 0 ? same : (int)r.below(5); sd[t] = r.next(); }
        u64 h = mix(nk, shape); for (int t = 0; t < n; t++) h = mix(h, (u64)act[t]);
        eval_sig(mix(h, mix(c, k)), true); cov2("release storm", "rounds");
        go.fetch_add(1, std::memory_order_acq_rel);
    }
    for (auto &t : ts) t.join();
    if (wrong.load()) fail("release storm, last round: %llu wrong cardinalities", (ull)wrong.load());
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "release storm: %lld blocks remain after all owners let go", (long long)(hooks_stats().live_blocks - h0.live_blocks));
}
// ---- threads that share nothing ------------------------------------------------
// Each thread lives through complete histories of its own, of any kind: with no
// bitmap shared, whatever the threads could still race on is hidden in the library.
#define OTHERS X(c01) X(c02) X(c04) X(c06) X(c07) X(c09) X(c10) X(c11) X(c16) X(c18) X(c19) X(c20)
#define X(n) void run_case_##n(Rng &, u64);
OTHERS
#undef X
static void separate(Rng &r) {
    struct W { const char *name; void (*fn)(Rng &, u64); };
    static const W all[] = {
#define X(n) {#n, run_case_##n},
        OTHERS
#undef X
    };
    int n = (int)r.in(2, 3); std::vector<const W *> ws; const W *same = r.chance(3, 4) ? &all[r.below(sizeof all / sizeof *all)] : nullptr;
    for (int t = 0; t < n; t++) { ws.push_back(same ? same : &all[r.below(sizeof all / sizeof *all)]); LOG(" thread %d: %s", t, ws[t]->name); }
    run_threads(r, n, "separate objects", [&](int t, Rng &tr, auto tick) {
        hooks_unaccounted(true); printed_off = true;
        tick(); ws[t]->fn(tr, 1000); tick();
    });
    for (auto w : ws) cov2("separate", w->name);
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    switch (r.below(12)) {
        case 10: case 11: separate(r); break;
        case 0: first_call_process(r); break;
        case 1: case 2: shared32(r); break;
        case 3: shared64(r); break;
        case 4: case 5: release_storm(r, c); break;
        default: cow_threads(r, c);
    }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "after all threads freed their bitmaps %lld blocks remain", (long long)(hooks_stats().live_blocks - h0.live_blocks));
}
