// Read-only exercise of a 32-bit bitmap that must behave like the set `m`
// (frozen views, shared bitmaps): every kind of read, operand positions, copies.
#pragma once
#include "q32.hpp"
#include "it32.hpp"
static IS from_chunks(const IS &m) { return m; }
static void view_result(roaring_bitmap_t *q, const IS &m, const char *what) {
    if (!q) fail("%s returned NULL", what);
    std::string mal; IS got = read32(q, &mal);
    if (!mal.empty() || got != m) fail("%s: %s %s", what, diff_str(m, got).c_str(), mal.c_str());
    count_check(); digest_image32(q);
    std::string e = wellformed32(q); if (!e.empty()) fail("%s: ill formed: %s", what, e.c_str());
    roaring_bitmap_free(q);
}
// y: a plain owned bitmap with contents my
static void view_reads(Rng &r, const World &w, const roaring_bitmap_t *v, const IS &m, const roaring_bitmap_t *y, const IS &my, const char *kind, bool queries = true) {
    u64 base = mix(mix(m.hash(), my.hash()), hstr(kind));
    u64 raw = rawhash32(v);
    auto ev = [&](const char *q) { cov2(kind, q); g_ops++; eval_sig(mix(base, hstr(q)), !m.empty()); LOG("  %s: %s", kind, q); };
    { std::string mal; IS got = read32(v, &mal); if (got != m || !mal.empty()) fail("%s differs from the bitmap it was made of: %s %s", kind, diff_str(m, got).c_str(), mal.c_str()); }
    const char *why = nullptr; ev("internal_validate"); CHECK(roaring_bitmap_internal_validate(v, &why), "internal_validate rejects a %s: %s", kind, why ? why : "");
    if (queries) {
        Q q{r, w, v, m, base};
        q.totals(); for (int i = 0; i < 5; i++) { q.point(); q.select(); q.ranges(); } q.rank_many(); q.bulk(); q.arrays(); q.arrays(); if (r.chance(1, 3)) q.bitset();
        std::vector<It> its; It it; it.p = roaring_iterator_create(v); it.heap = true; it.c = m.empty() ? Cur{2, 0} : Cur{0, m.min()}; its.push_back(it);
        for (int i = 0; i < 20; i++) step(r, w, v, m, its, base);
        for (auto &t : its) roaring_uint32_iterator_free(t.p);
        callbacks(r, v, m, base);
    }
    pair_queries(r, v, m, y, my, base); pair_queries(r, y, my, v, m, base); pair_queries(r, v, m, v, m, base);
    struct F { const char *n; roaring_bitmap_t *(*f)(const roaring_bitmap_t *, const roaring_bitmap_t *); void (*g)(roaring_bitmap_t *, const roaring_bitmap_t *); u64 (*h)(const roaring_bitmap_t *, const roaring_bitmap_t *); int tt; };
    static const F fs[] = {{"and", roaring_bitmap_and, roaring_bitmap_and_inplace, roaring_bitmap_and_cardinality, 1}, {"or", roaring_bitmap_or, roaring_bitmap_or_inplace, roaring_bitmap_or_cardinality, 7}, {"xor", roaring_bitmap_xor, roaring_bitmap_xor_inplace, roaring_bitmap_xor_cardinality, 6}, {"andnot", roaring_bitmap_andnot, roaring_bitmap_andnot_inplace, roaring_bitmap_andnot_cardinality, 2}};
    for (auto &f : fs) {
        std::string n = std::string(f.n) + " with a " + kind;
        ev(f.n);
        view_result(f.f(v, y), IS::op(m, my, f.tt), n.c_str());
        view_result(f.f(y, v), IS::op(my, m, f.tt), n.c_str());
        if (r.coin()) view_result(f.f(v, v), IS::op(m, m, f.tt), (n + " and itself").c_str());
        CHECK((u128)f.h(v, y) == IS::op(m, my, f.tt).card(), "%s_cardinality of a %s", f.n, kind);
        CHECK((u128)f.h(y, v) == IS::op(my, m, f.tt).card(), "%s_cardinality with a %s", f.n, kind);
        roaring_bitmap_t *t = roaring_bitmap_copy(y); if (!t) fail("copy returned NULL");
        f.g(t, v); view_result(t, IS::op(my, m, f.tt), (n + " in place").c_str());
    }
    { ev("lazy"); bool bs = r.coin(); roaring_bitmap_t *t = roaring_bitmap_lazy_or(v, y, bs); roaring_bitmap_repair_after_lazy(t); view_result(t, m | my, "lazy_or with a view"); t = roaring_bitmap_lazy_xor(y, v); roaring_bitmap_repair_after_lazy(t); view_result(t, m ^ my, "lazy_xor with a view");
      t = roaring_bitmap_copy(y); roaring_bitmap_lazy_or_inplace(t, v, bs); roaring_bitmap_repair_after_lazy(t); view_result(t, m | my, "lazy_or_inplace with a view"); t = roaring_bitmap_copy(y); roaring_bitmap_lazy_xor_inplace(t, v); roaring_bitmap_repair_after_lazy(t); view_result(t, m ^ my, "lazy_xor_inplace with a view"); }
    { ev("many"); const roaring_bitmap_t *l[3] = {v, y, v}; view_result(roaring_bitmap_or_many(3, l), m | my, "or_many with a view"); view_result(roaring_bitmap_or_many_heap(3, l), m | my, "or_many_heap with a view"); view_result(roaring_bitmap_xor_many(3, l), my, "xor_many with a view"); const roaring_bitmap_t *l1[1] = {v}; view_result(roaring_bitmap_or_many(1, l1), m, "or_many of a view"); }
    { u64 a, b; gen_range(r, w, m, &a, &b); if (b - a < 50000000) { ev("flip"); IS e = m; e.flip(a, b); view_result(roaring_bitmap_flip_closed(v, (uint32_t)a, (uint32_t)b), e, "flip of a view"); } }
    { ev("add_offset"); i128 off = (i128)r.below(300000) - 150000; if (r.chance(1, 4)) off = (i128)(r.below(7)) * 65536; view_result(roaring_bitmap_add_offset(v, (int64_t)off), m.shift(off, 0, 0xFFFFFFFFull), "add_offset of a view"); }
    { ev("copy"); HookStats h0 = hooks_stats(); roaring_bitmap_t *t = roaring_bitmap_copy(v); if (!t) fail("copy of a view returned NULL");
      // a view knows no spare capacity: its copy takes memory in proportion to the image
      if (queries && hooks_installed()) { u64 took = hooks_stats().live_bytes - h0.live_bytes, may = 2 * (u64)roaring_bitmap_size_in_bytes(v) + 2 * (u64)roaring_bitmap_frozen_size_in_bytes(v) + 128 * (u64)v->high_low_container.size + 1024; CHECK(took <= may, "the copy of a %s takes %llu bytes of memory, the image has %zu", kind, (unsigned long long)took, roaring_bitmap_portable_size_in_bytes(v)); } u64 a, b; gen_range(r, w, m, &a, &b); if (b - a > 1000000) b = a + 1000000; IS e = m;
      switch (r.below(4)) { case 0: roaring_bitmap_add_range_closed(t, (uint32_t)a, (uint32_t)b); e.add(a, b); break; case 1: roaring_bitmap_remove_range_closed(t, (uint32_t)a, (uint32_t)b); e.remove(a, b); break; case 2: roaring_bitmap_flip_inplace_closed(t, (uint32_t)a, (uint32_t)b); e.flip(a, b); break; default: roaring_bitmap_add(t, (uint32_t)a); e.add(a); roaring_bitmap_run_optimize(t); }
      view_result(t, e, "changed copy of a view");
      ev("overwrite"); t = roaring_bitmap_copy(y); CHECK(roaring_bitmap_overwrite(t, v), "overwrite from a view failed"); roaring_bitmap_add(t, 5); e = m; e.add(5); view_result(t, e, "overwrite from a view"); }
    {
        ev("serialize"); size_t n = roaring_bitmap_portable_size_in_bytes(v); Buf o(n); CHECK(roaring_bitmap_portable_serialize(v, o.p) == n, "portable_serialize of a %s wrote another size than announced", kind);
        IS back; size_t used; std::string e = spec_decode32((unsigned char *)o.p, n, back, &used); CHECK(e.empty() && used == n && back == m, "portable image of a %s is wrong: %s", kind, e.c_str());
        size_t k = roaring_bitmap_size_in_bytes(v); Buf o2(k); CHECK(roaring_bitmap_serialize(v, o2.p) == k, "serialize of a %s wrote another size than announced", kind); view_result(roaring_bitmap_deserialize(o2.p), m, "native image of a view");
        size_t f = roaring_bitmap_frozen_size_in_bytes(v); Buf o3(f, 32); roaring_bitmap_frozen_serialize(v, o3.p); const roaring_bitmap_t *v2 = roaring_bitmap_frozen_view(o3.p, f); if (!v2) fail("frozen image of a %s is rejected", kind); std::string mal; CHECK(read32(v2, &mal) == m && mal.empty(), "frozen image of a %s differs", kind); roaring_bitmap_free(v2);
    }
    CHECK(rawhash32(v) == raw, "a read-only operation modified a %s", kind);
}
