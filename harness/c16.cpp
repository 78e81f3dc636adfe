// Optimisation and shrinking: contents, image size, return values, memory.
#include "eng32.hpp"
#include "eng64.hpp"
#include "q32.hpp"
#include "q64.hpp"
const char *PROP = "C16";
const char *RULE = "a case builds 2-4 bitmaps (32-bit, copy-on-write worlds included, or 64-bit) and applies a random history dominated by run_optimize, remove_run_compression, shrink_to_fit and clear-and-rebuild, with updates and set operations between them; an evaluation is one judged optimisation step or one query asked right after it, distinct by operation, contents and container kinds, non-trivial when the bitmap is non-empty";
void harness_init() { hooks_strict(true); }

// one bitmap through a random sequence of optimisations: each must keep the
// contents, the well-formedness and every answer
static void chain32(Rng &r, Eng32 &e, Bm &x) {
    unsigned n = (unsigned)r.in(1, 5);
    for (unsigned i = 0; i < n; i++) {
        size_t before = roaring_bitmap_portable_size_in_bytes(x.b), fr = roaring_bitmap_frozen_size_in_bytes(x.b);
        int k = (int)r.below(4); if (k == 1 && x.m.card() > MAX_EXPAND) k = 0;
        bool ret = false; size_t s = 0;
        switch (k) { case 0: e.opname = "run_optimize"; ret = roaring_bitmap_run_optimize(x.b); break; case 1: e.opname = "remove_run_compression"; ret = roaring_bitmap_remove_run_compression(x.b); break; case 2: e.opname = "shrink_to_fit"; s = roaring_bitmap_shrink_to_fit(x.b); break; default: { e.opname = "clear and rebuild"; IS m = x.m; roaring_bitmap_clear(x.b); e.settle(x, IS(), C_OPT); size_t z = roaring_bitmap_portable_size_in_bytes(x.b); CHECK(z == 8, "a cleared bitmap serializes to %zu bytes", z); for (auto &p : m.v) roaring_bitmap_add_range_closed(x.b, (uint32_t)p.first, (uint32_t)p.second); x.m = m; if (m.nint() > 3000) cov("long rebuild"); } }
        LOG("  chain: %s -> %d %zu", e.opname.c_str(), ret, s); g_ops++;
        e.settle(x, x.m, C_OPT);
        e.check_wf(x);
        if (k == 2) {
            CHECK(roaring_bitmap_portable_size_in_bytes(x.b) == before && roaring_bitmap_frozen_size_in_bytes(x.b) == fr, "shrink_to_fit changed the serialized size");
            if (!e.w.cow) { HookStats h = hooks_stats(); size_t again = roaring_bitmap_shrink_to_fit(x.b); CHECK(again == 0, "a second shrink_to_fit in a row still reports %zu bytes saved", again); CHECK(!hooks_installed() || hooks_stats().live_bytes == h.live_bytes, "a second shrink_to_fit changed memory in use"); }
        }
        roaring_statistics_t st; roaring_bitmap_statistics(x.b, &st);
        u64 kk[5]; kinds32(x.b, kk);
        CHECK(st.n_run_containers == kk[3] && st.n_array_containers == kk[2] && st.n_bitset_containers == kk[1] && (u128)st.cardinality == x.m.card(), "statistics disagree with the bitmap after %s", e.opname.c_str());
        if (k == 0) CHECK(ret == (st.n_run_containers > 0), "run_optimize returned %d, statistics show %u run containers", ret, st.n_run_containers);
        if (k == 1) CHECK(st.n_run_containers == 0, "run containers left by remove_run_compression");
        eval_sig(mix(mix(hstr(e.opname.c_str()), rawhash32(x.b)), 1), !x.m.empty()); cov2("chain", (e.opname + "/" + kinds_str(x.b)).c_str());
        Q q{r, e.w, x.b, x.m, mix(x.m.hash(), kk[1] + kk[2] * 64 + kk[3] * 4096)};
        q.totals(); q.point(); q.select(); q.ranges(); if (r.chance(1, 4)) { q.rank_many(); q.bulk(); q.arrays(); }
    }
}
static void chain64(Rng &r, Eng64 &e, Bm64 &x) {
    unsigned n = (unsigned)r.in(1, 4);
    for (unsigned i = 0; i < n; i++) {
        Bytes before = image64(x.b); int k = (int)r.below(3); bool ret = false; size_t s = 0;
        switch (k) { case 0: e.opname = "run_optimize(64)"; ret = roaring64_bitmap_run_optimize(x.b); break; case 1: e.opname = "shrink_to_fit(64)"; s = roaring64_bitmap_shrink_to_fit(x.b); break; default: { e.opname = "clear and rebuild(64)"; IS m = x.m; roaring64_bitmap_clear(x.b); e.settle(x, IS(), C_OPT); for (auto &p : m.v) roaring64_bitmap_add_range_closed(x.b, p.first, p.second); x.m = m; } }
        LOG("  chain: %s -> %d %zu", e.opname.c_str(), ret, s); g_ops++;
        e.settle(x, x.m, C_OPT); e.check_wf(x);
        if (k == 1) {
            CHECK(image64(x.b) == before, "shrink_to_fit(64) changed the serialized image");
            CHECK(roaring64_bitmap_frozen_size_in_bytes(x.b) != 0, "frozen size unavailable right after shrink_to_fit");
            HookStats h = hooks_stats(); size_t again = roaring64_bitmap_shrink_to_fit(x.b); CHECK(again == 0, "a second shrink_to_fit(64) in a row still reports %zu bytes saved", again); CHECK(!hooks_installed() || hooks_stats().live_bytes == h.live_bytes, "a second shrink_to_fit(64) changed memory in use");
        }
        roaring64_statistics_t st; roaring64_bitmap_statistics(x.b, &st);
        CHECK((u128)st.cardinality == x.m.card(), "statistics(64) cardinality after %s", e.opname.c_str());
        if (k == 0) CHECK(ret == (st.n_run_containers > 0), "run_optimize(64) returned %d, statistics show %llu run containers", ret, (unsigned long long)st.n_run_containers);
        eval_sig(mix(mix(hstr(e.opname.c_str()), x.m.hash()), hstr(kinds64(x.b).c_str())), !x.m.empty()); cov2("chain64", (e.opname + "/" + kinds64(x.b)).c_str());
        Q64 q{r, e.w, x.b, x.m, x.m.hash()}; q.all(2);
    }
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    if (r.chance(3, 5)) {
        World w = gen_world32(r); w.cow = r.chance(1, 4); w.wide = r.chance(1, 100);
        Eng32 e(r, w); e.judge = C_OPT; e.opname = "build"; e.populate((unsigned)r.in(2, 4));
        unsigned n = w.wide ? 5 : (unsigned)r.in(6, 20);
        for (unsigned i = 0; i < n; i++) { e.step(C_OPT, 14); if (r.chance(1, 4)) { Bm &x = e.pool[e.pick()]; if (x.m.nint() < 20000) chain32(r, e, x); } }
        if (w.cow) for (auto &x : e.pool) e.same(x, "a bitmap sharing containers with an optimised one");
        if (c < 4) { std::string s; for (auto &x : e.pool) s += chunk_profile(x.m) + "; "; sample("case %llu: 32-bit final pool: %s", (unsigned long long)c, s.c_str()); }
    } else {
        World w = gen_world64(r); w.wide = r.chance(1, 100);
        Eng64 e(r, w); e.judge = C_OPT; e.opname = "build"; e.populate((unsigned)r.in(1, 3));
        unsigned n = w.wide ? 5 : (unsigned)r.in(6, 20);
        for (unsigned i = 0; i < n; i++) { e.step(C_OPT, 12); if (r.chance(1, 4)) { Bm64 &x = e.pool[e.pick()]; if (x.m.nint() < 20000) chain64(r, e, x); } }
        if (c < 4) { std::string s; for (auto &x : e.pool) s += chunk_profile(x.m) + "; "; sample("case %llu: 64-bit final pool: %s", (unsigned long long)c, s.c_str()); }
    }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: blocks left allocated");
}
