// Copy-on-write copies are independent values.
#include "q32.hpp"
#include "it32.hpp"
typedef unsigned long long ull;
const char *PROP = "C12";
const char *RULE = "a case builds bitmaps with copy-on-write on, copies and overwrites them so that containers are shared (also through set operations and frozen copies), and applies a random history of updates, set operations, optimisations, flag switches and frees; after every operation every bitmap of the pool is compared with its own model, live iterators over untouched bitmaps keep their place, and at the end the allocation hooks must count no live block; an evaluation is one operation on a pool in which at least one container is shared, distinct by operation, operands and container kinds";
void harness_init() { hooks_strict(true); }
static bool any_shared(const Eng32 &e) { for (auto &x : e.pool) { u64 k[5]; kinds32(x.b, k); if (k[4]) return true; } return false; }
// the reference counts add up: a shared container is referred to by exactly `counter` bitmaps of the pool
static void owners(Eng32 &e) {
    std::vector<std::pair<const void *, int>> refs;
    for (auto &x : e.pool) for (int i = 0; i < x.b->high_low_container.size; i++) if (x.b->high_low_container.typecodes[i] == 4) refs.push_back({x.b->high_low_container.containers[i], 0});
    std::sort(refs.begin(), refs.end());
    for (size_t i = 0; i < refs.size();) {
        size_t j = i; while (j < refs.size() && refs[j].first == refs[i].first) j++;
        cov2("sharers", std::to_string(std::min<size_t>(j - i, 6)).c_str());
        i = j;
    }
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    size_t shared_steps = 0;
    {
        World w = gen_world32(r); w.cow = true; w.wide = r.chance(1, 60);
        Eng32 e(r, w); e.judge = C_ANY & ~C_OPT & ~C_SER; e.all = true; e.toggle_cow = r.chance(1, 3); e.max_pool = 7; e.opname = "build"; e.adopt_num = 1; e.adopt_den = 2; e.rebuild = 30;
        e.populate((unsigned)r.in(1, 3));
        unsigned n = w.wide ? 8 : (unsigned)r.in(10, 45);
        for (unsigned i = 0; i < n; i++) {
            if (r.chance(1, 6)) {  // an explicit copy of someone
                size_t k = e.pick(); Bm q; e.opname = "copy"; q.b = roaring_bitmap_copy(e.pool[k].b); q.m = e.pool[k].m; if (!q.b) fail("copy returned NULL"); e.same(q, "a fresh copy"); e.same(e.pool[k], "the source of a copy"); LOG(" copy of #%zu", k); e.adopt(q);
            }
            bool sh = any_shared(e);
            if (sh) { shared_steps++; u64 h = mix(i, 7); for (auto &x : e.pool) h = mix(h, rawhash32(x.b)); eval_sig(h, true); }
            cov(sh ? "state/shared" : "state/unshared");
            e.step(C_SET | C_UPD | C_COPY | C_OPT, 3);
            if (r.chance(1, 5)) {
                size_t k = e.pick(); Bm &x = e.pool[k]; u64 h = rawhash32(x.b); Q q{r, w, x.b, x.m, h}; e.opname = "query";
                q.totals(); q.point(); q.select(); q.ranges(); if (r.coin()) q.arrays(); q.bulk(); size_t k2 = e.pick(); pair_queries(r, x.b, x.m, e.pool[k2].b, e.pool[k2].m, h);
                CHECK(rawhash32(x.b) == h, "a query modified a bitmap with shared containers"); callbacks(r, x.b, x.m, h);
            }
            if (r.chance(1, 4) && e.pool.size() >= 2) {
                // an iterator over one bitmap stays where it is while another bitmap changes
                size_t k = e.pick(), j = e.other(k);
                if (e.pool[k].m.card() < 200000 && e.pool[j].m.nint() < 50000) {
                    roaring_bitmap_t *keep = e.pool[k].b; IS km = e.pool[k].m;
                    std::vector<It> its; It it; it.p = roaring_iterator_create(keep); it.heap = true; it.c = km.empty() ? Cur{2, 0} : Cur{0, km.min()}; its.push_back(it);
                    for (int s = 0; s < 6; s++) {
                        step(r, w, keep, km, its, i);
                        Bm &y = e.pool[j]; e.opname = "update during iteration of another bitmap"; u64 a, b; gen_range(r, w, y.m, &a, &b); if (b - a > 300000) b = a + 300000; IS ex = y.m;
                        switch (r.below(4)) { case 0: roaring_bitmap_add(y.b, (uint32_t)a); ex.add(a); break; case 1: roaring_bitmap_remove(y.b, (uint32_t)a); ex.remove(a); break; case 2: roaring_bitmap_add_range_closed(y.b, (uint32_t)a, (uint32_t)b); ex.add(a, b); break; default: roaring_bitmap_flip_inplace_closed(y.b, (uint32_t)a, (uint32_t)b); ex.flip(a, b); }
                        e.settle(y, ex, C_UPD);
                    }
                    for (auto &t : its) roaring_uint32_iterator_free(t.p);
                    e.same(e.pool[k], "an iterated bitmap");
                }
            }
            owners(e);
        }
        if (c < 2) { std::string s; for (auto &x : e.pool) s += kinds_str(x.b) + " " + chunk_profile(x.m) + "; "; sample("case %llu, %zu steps with sharing, final pool: %s", (ull)c, shared_steps, s.c_str()); }
        for (size_t i = e.pool.size(); i > 1; i--) std::swap(e.pool[i - 1], e.pool[r.below(i)]);
        while (!e.pool.empty()) { roaring_bitmap_free(e.pool.back().b); e.pool.pop_back(); e.opname = "free"; for (auto &x : e.pool) e.same(x, "a bitmap sharing storage with a freed one"); }
    }
    if (hooks_installed()) { HookStats h1 = hooks_stats(); if (h1.live_blocks != h0.live_blocks) hooks_dump_live(); CHECK(h1.live_blocks == h0.live_blocks, "memory: after freeing every bitmap %llu blocks (%llu bytes) remain", (ull)(h1.live_blocks - h0.live_blocks), (ull)(h1.live_bytes - h0.live_bytes)); }
}
