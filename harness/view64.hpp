// Read-only exercise of a 64-bit bitmap that must behave like the set `m`.
#pragma once
#include "q64.hpp"
#include "it64.hpp"
static void view64_result(roaring64_bitmap_t *q, const IS &m, const char *what) {
    if (!q) fail("%s returned NULL", what);
    std::string e; IS got = read64_portable(q, &e);
    if (!e.empty() || got != m) fail("%s: %s %s", what, diff_str(m, got).c_str(), e.c_str());
    count_check(); if (g_digest_on) { Bytes i = image64(q); digest_bytes(i.data(), i.size()); }
    const char *why = nullptr; CHECK(roaring64_bitmap_internal_validate(q, &why), "%s: result ill formed: %s", what, why ? why : "");
    roaring64_bitmap_free(q);
}
static void view64_reads(Rng &r, const World &w, const roaring64_bitmap_t *v, const IS &m, const roaring64_bitmap_t *y, const IS &my, const char *kind) {
    u64 base = mix(mix(m.hash(), my.hash()), hstr(kind));
    auto ev = [&](const char *q) { cov2(kind, q); g_ops++; eval_sig(mix(base, hstr(q)), !m.empty()); LOG("  %s: %s", kind, q); };
    const char *why = nullptr; ev("internal_validate"); CHECK(roaring64_bitmap_internal_validate(v, &why), "internal_validate rejects a %s: %s", kind, why ? why : "");
    Q64 q{r, w, v, m, base}; q.all(5);
    { Walk64 wk{r, w, {}, {}}; wk.tgts.push_back({v, &m}); wk.start(0, false); wk.start(0, true); for (int i = 0; i < 30; i++) wk.step(); }
    pair_queries64(v, m, y, my, base); pair_queries64(y, my, v, m, base); pair_queries64(v, m, v, m, base);
    struct F { const char *n; roaring64_bitmap_t *(*f)(const roaring64_bitmap_t *, const roaring64_bitmap_t *); void (*g)(roaring64_bitmap_t *, const roaring64_bitmap_t *); u64 (*h)(const roaring64_bitmap_t *, const roaring64_bitmap_t *); int tt; };
    static const F fs[] = {{"and", roaring64_bitmap_and, roaring64_bitmap_and_inplace, roaring64_bitmap_and_cardinality, 1}, {"or", roaring64_bitmap_or, roaring64_bitmap_or_inplace, roaring64_bitmap_or_cardinality, 7}, {"xor", roaring64_bitmap_xor, roaring64_bitmap_xor_inplace, roaring64_bitmap_xor_cardinality, 6}, {"andnot", roaring64_bitmap_andnot, roaring64_bitmap_andnot_inplace, roaring64_bitmap_andnot_cardinality, 2}};
    for (auto &f : fs) {
        std::string n = std::string(f.n) + " with a " + kind; ev(f.n);
        view64_result(f.f(v, y), IS::op(m, my, f.tt), n.c_str()); view64_result(f.f(y, v), IS::op(my, m, f.tt), n.c_str());
        CHECK(f.h(v, y) == (u64)IS::op(m, my, f.tt).card(), "%s_cardinality of a %s", f.n, kind); CHECK(f.h(y, v) == (u64)IS::op(my, m, f.tt).card(), "%s_cardinality with a %s", f.n, kind);
        roaring64_bitmap_t *t = roaring64_bitmap_copy(y); if (!t) fail("copy returned NULL"); f.g(t, v); view64_result(t, IS::op(my, m, f.tt), (n + " in place").c_str());
    }
    { u64 a, b; gen_range(r, w, m, &a, &b); if (b - a < 20000000) { ev("flip"); IS e = m; e.flip(a, b); view64_result(roaring64_bitmap_flip_closed(v, a, b), e, "flip of a view"); } }
    { ev("copy"); roaring64_bitmap_t *t = roaring64_bitmap_copy(v); if (!t) fail("copy of a view returned NULL"); u64 a, b; gen_range(r, w, m, &a, &b); if (b - a > 1000000) b = a + 1000000; IS e = m;
      switch (r.below(4)) { case 0: roaring64_bitmap_add_range_closed(t, a, b); e.add(a, b); break; case 1: roaring64_bitmap_remove_range_closed(t, a, b); e.remove(a, b); break; case 2: roaring64_bitmap_flip_closed_inplace(t, a, b); e.flip(a, b); break; default: roaring64_bitmap_add(t, a); e.add(a); roaring64_bitmap_run_optimize(t); }
      view64_result(t, e, "changed copy of a view"); }
    { ev("serialize"); size_t n = roaring64_bitmap_portable_size_in_bytes(v); Buf o(n); CHECK(roaring64_bitmap_portable_serialize(v, o.p) == n, "portable_serialize of a %s wrote another size than announced", kind); IS back; size_t used; std::string e = spec_decode64((unsigned char *)o.p, n, back, &used); CHECK(e.empty() && used == n && back == m, "portable image of a %s is wrong: %s", kind, e.c_str()); }
}
