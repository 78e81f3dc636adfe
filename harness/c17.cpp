// Answers, contents and portable bytes recorded as a digest per case, to be
// compared between builds and CPU code paths.  Nothing is judged here: a failed
// comparison with a model ends the case and is part of its digest.
#include "q32.hpp"
#include "it32.hpp"
#include "q64.hpp"
#include "it64.hpp"
typedef unsigned long long ull;
const char *PROP = "C17";
const char *RULE = "a case is a random history (32- and 64-bit operations, queries, iterators; pairs of bitmaps that differ in one word through every comparison and combination; also the workloads of the other checks: views, images, untrusted bytes, bitset_t, C++ classes) executed from the same seed by every build; each build records a running digest of every answer, of the contents and of the portable image of every bitmap changed, and the digests are compared case by case afterwards; an evaluation is one operation or query whose outcome enters the digests, distinct by operation, operands and container kinds";
#define OTHERS X(c01) X(c02) X(c03) X(c04) X(c06) X(c07) X(c08) X(c09) X(c10) X(c11) X(c12) X(c16) X(c18) X(c19) X(c20)
#define X(n) void run_case_##n(Rng &, u64);
OTHERS
#undef X
struct Other { const char *name; void (*fn)(Rng &, u64); };
static const Other others[] = {
#define X(n) {#n, run_case_##n},
OTHERS
#undef X
};
void harness_init() { g_only = "memory:"; }
static void history32(Rng &r) {
    World w = gen_world32(r); w.cow = r.chance(1, 4); w.wide = r.chance(1, 60);
    Eng32 e(r, w); e.judge = 0; e.opname = "build"; e.populate((unsigned)r.in(1, 3));
    unsigned n = w.wide ? 8 : (unsigned)r.in(10, 30);
    for (unsigned i = 0; i < n; i++) {
        e.step(C_ANY, 1);
        u64 sg = hstr(e.opname.c_str()); for (auto &x : e.pool) sg = mix(sg, rawhash32(x.b)); eval_sig(sg, true);
        if (r.chance(1, 4)) {
            Bm &x = e.pool[e.pick()], &y = e.pool[e.pick()]; u64 h = rawhash32(x.b); if (x.m.card() > 400000) continue;
            Q q{r, w, x.b, x.m, h}; q.totals(); for (int k = 0; k < 3; k++) { q.point(); q.select(); q.ranges(); } q.rank_many(); q.bulk(); q.arrays(); if (r.chance(1, 3)) q.bitset();
            pair_queries(r, x.b, x.m, y.b, y.m, h);
            digest(roaring_bitmap_and_cardinality(x.b, y.b)); digest(roaring_bitmap_or_cardinality(x.b, y.b)); digest(roaring_bitmap_xor_cardinality(x.b, y.b)); digest(roaring_bitmap_andnot_cardinality(x.b, y.b));
            if (!x.m.empty() || !y.m.empty()) { double j = roaring_bitmap_jaccard_index(x.b, y.b); u64 z; memcpy(&z, &j, 8); digest(z); }
            std::vector<It> its; It it; it.p = roaring_iterator_create(x.b); it.heap = true; it.c = x.m.empty() ? Cur{2, 0} : Cur{0, x.m.min()}; its.push_back(it); for (int s = 0; s < 10; s++) step(r, w, x.b, x.m, its, h); for (auto &t : its) roaring_uint32_iterator_free(t.p);
            const char *why; digest(roaring_bitmap_internal_validate(x.b, &why));
        }
    }
}
// pairs that differ in one place or meet only at an edge, over every container kind: the vector kernels and their tails
static void kernels(Rng &r) {
    World w = gen_world32(r); w.cow = false; while (w.keys.size() > 3) w.keys.pop_back();
    Eng32 e(r, w); e.judge = 0; e.opname = "build";
    for (unsigned i = 0; i < 6; i++) {
        IS a, b; unsigned t = (unsigned)r.below(4); const char *how = t == 0 ? "one word apart" : t == 1 ? "aimed" : t == 2 ? "derived" : "near";
        if (t == 0) {  // a dense chunk and its copy with one exchange in one word
            u64 lo = w.keys[0] << 16, s = r.in(2, 9), v = lo + r.below(3); for (; v < lo + 65536; v += 1 + r.below(2 * s - 1)) a.add(v, v);
            if (r.chance(1, 3)) for (int k = 0; k < 3; k++) { u64 x = lo + r.below(65000); a.add(x, x + r.below(500)); }
            b = a; u64 wd = lo + 64 * (r.coin() ? 1023 - r.below(9) : r.chance(1, 3) ? r.below(9) : r.below(1024)); IS c = a.restrict_to(wd, wd + 63), o; o.add(wd, wd + 63); o = o - c;
            u64 x, y; if (!c.empty() && !o.empty() && c.select(r.below((u64)c.card()), &x) && o.select(r.below((u64)o.card()), &y)) { if (r.coin()) b.remove(x); b.add(y); }
        } else { a = gen_set(r, w); if (t == 1) aim_sets(r, w, (int)r.pick<int>({1, 2, 6, 7}), a, b); else b = t == 2 ? derive_set(r, w, a) : near_set(r, w, a); }
        if (a.card() > 400000 || b.card() > 400000) continue;
        Bm x = e.build(a), y = e.build(b); u64 h = mix(rawhash32(x.b), rawhash32(y.b)); eval_sig(h, true); cov2("kernels", how); LOG("  kernels on a pair (%s)", how);
        digest(roaring_bitmap_equals(x.b, y.b)); digest(roaring_bitmap_is_subset(x.b, y.b)); digest(roaring_bitmap_is_strict_subset(y.b, x.b)); digest(roaring_bitmap_intersect(x.b, y.b));
        digest(roaring_bitmap_and_cardinality(x.b, y.b)); digest(roaring_bitmap_or_cardinality(x.b, y.b)); digest(roaring_bitmap_xor_cardinality(x.b, y.b)); digest(roaring_bitmap_andnot_cardinality(x.b, y.b));
        roaring_bitmap_t *o[6] = {roaring_bitmap_and(x.b, y.b), roaring_bitmap_or(x.b, y.b), roaring_bitmap_xor(x.b, y.b), roaring_bitmap_andnot(x.b, y.b), roaring_bitmap_lazy_or(x.b, y.b, r.coin()), roaring_bitmap_lazy_xor(x.b, y.b)};
        roaring_bitmap_repair_after_lazy(o[4]); roaring_bitmap_repair_after_lazy(o[5]);
        for (auto q : o) { digest(roaring_bitmap_get_cardinality(q)); digest(read32(q).hash()); digest(roaring_bitmap_is_empty(q)); std::vector<uint32_t> v(roaring_bitmap_get_cardinality(q) + 1); roaring_bitmap_to_uint32_array(q, v.data()); v.pop_back(); for (size_t k = 0; k < v.size(); k += 1 + r.below(97)) digest(v[k]); if (!v.empty()) digest(v.back()); digest(roaring_bitmap_run_optimize(q)); digest(roaring_bitmap_portable_size_in_bytes(q)); roaring_bitmap_free(q); }
        switch (r.below(4)) { case 0: roaring_bitmap_and_inplace(x.b, y.b); break; case 1: roaring_bitmap_or_inplace(x.b, y.b); break; case 2: roaring_bitmap_xor_inplace(x.b, y.b); break; default: roaring_bitmap_andnot_inplace(x.b, y.b); }
        digest(read32(x.b).hash()); digest(roaring_bitmap_get_cardinality(x.b)); digest(roaring_bitmap_equals(x.b, y.b)); const char *why; digest(roaring_bitmap_internal_validate(x.b, &why));
        roaring_bitmap_free(x.b); roaring_bitmap_free(y.b);
    }
}
static void history64(Rng &r) {
    World w = gen_world64(r);
    Eng64 e(r, w); e.judge = 0; e.opname = "build"; e.populate((unsigned)r.in(1, 3));
    unsigned n = (unsigned)r.in(10, 30);
    for (unsigned i = 0; i < n; i++) {
        e.step(C_ANY, 1); u64 sg = hstr(e.opname.c_str()); for (auto &x : e.pool) sg = mix(sg, x.m.hash()); eval_sig(sg, true);
        if (r.chance(1, 4)) {
            Bm64 &x = e.pool[e.pick()], &y = e.pool[e.pick()]; u64 h = x.m.hash(); if (x.m.card() > 400000) continue;
            Q64 q{r, w, x.b, x.m, h}; q.all(2); pair_queries64(x.b, x.m, y.b, y.m, h); digest(roaring64_bitmap_or_cardinality(x.b, y.b)); digest(roaring64_bitmap_xor_cardinality(x.b, y.b)); digest(roaring64_bitmap_andnot_cardinality(x.b, y.b));
            Walk64 wk{r, w, {}, {}}; wk.tgts.push_back({x.b, &x.m}); wk.start(0, false); wk.start(0, true); for (int k = 0; k < 15; k++) wk.step();
            const char *why; digest(roaring64_bitmap_internal_validate(x.b, &why));
        }
    }
}
void run_case(Rng &r, u64 c) {
    const char *which = "";
    u64 k = r.below(33);
    try {
        if (k < 11) { which = "history32"; history32(r); }
        else if (k < 15) { which = "history64"; history64(r); }
        else if (k >= 30) { which = "kernels"; kernels(r); }
        else { const Other &o = others[k - 15]; which = o.name; LOG("workload of %s", which); o.fn(r, c + 1000); }
    } catch (Abandon &) { cov2("abandoned (another property)", which); digest(0xABAD); return; }
    digest(r.next());  // the histories themselves took the same course
    cov2("workload", which);
    if (c < 3) sample("case %llu: workload %s", (ull)c, which);
}
