#include "q32.hpp"
const char *PROP = "C03";
const char *RULE = "a case builds a set in two independently chosen representations (plus shared and frozen-view forms) and a second, usually derived, set; every query is asked with boundary-biased arguments and compared with the model, the answers of the two representations with each other, and the raw bytes of the bitmap before and after; an evaluation is one query, non-trivial when the bitmap is non-empty, distinct by query, arguments and bitmap contents+kinds";
void harness_init() {}

// all 2^32 values, or all but a few, with some chunks in bitmap form: the sums of cardinalities reach 2^32
static void universe(Rng &r) {
    World w; w.maxval = 0xFFFFFFFFull;
    roaring_bitmap_t *b = roaring_bitmap_create(); IS m; m.add(0, 0xFFFFFFFFull);
    roaring_bitmap_add_range(b, 0, 1ull << 32);
    for (unsigned i = 0, n = (unsigned)r.in(1, 3); i < n; i++) {
        u64 k = i == 0 && r.chance(3, 4) ? 65535 : r.pick<u64>({0, 1, 32767, 32768, 65534, r.below(65536)});
        w.keys.push_back(k);
        if (r.chance(3, 4)) { roaring_bitmap_remove_range(b, k << 16, (k + 1) << 16); for (u64 v = k << 16; v <= (k << 16 | 0xFFFF); v++) roaring_bitmap_add(b, (uint32_t)v); m.add(k << 16, k << 16 | 0xFFFF); }
        if (r.chance(1, 3)) { u64 v = k << 16 | edge16(r); roaring_bitmap_remove(b, (uint32_t)v); m.remove(v); }
        if (r.chance(1, 8)) { u64 v = r.below(1ull << 32), e = std::min<u64>(v + r.below(200000), 0xFFFFFFFFull); roaring_bitmap_remove_range_closed(b, (uint32_t)v, (uint32_t)e); m.remove(v, e); }
    }
    LOG(" universe minus %llu values", (unsigned long long)((1ull << 32) - (u64)m.card()));
    cov("universe sets"); u64 h = rawhash32(b);
    Q q{r, w, b, m, m.hash()};
    q.totals();
    for (int n = 0; n < 12; n++) { q.point(); q.select(); q.ranges(); }
    for (u64 k : {(u64)m.card() - 1, (u64)m.card() - 2, (u64)m.card() - 65536, (u64)m.card() - 65537, (u64)m.card() - 1 - r.below(65536)}) q.select_at(k);
    q.rank_many(); q.bulk(); q.arrays(); q.arrays();
    CHECK(rawhash32(b) == h, "a query modified the bitmap");
    roaring_bitmap_free(b);
}
void run_case(Rng &r, u64 c) {
    if (r.chance(1, 250)) { universe(r); return; }
    World w = gen_world32(r);
    w.cow = r.chance(1, 4);
    w.wide = r.chance(1, 80);
    Eng32 e(r, w);
    e.judge = 0;
    IS s = gen_set(r, w);
    if (r.chance(1, 3)) s = derive_set(r, w, s);
    IS d;
    switch (r.below(11)) {
        case 8: case 9: case 10: d = near_set(r, w, s); break;
        case 0: d = gen_set(r, w); break;
        case 1: d = s; break;
        case 2: { d = s; if (!d.empty()) { u64 v; d.select(r.below((u64)std::min<u128>(d.card(), (u128)1 << 32)), &v); d.remove(v); } break; }        // subset missing one
        case 3: { d = s; d.add(gen_value(r, w, s)); break; }  // superset with one more
        case 4: { u64 lo = s.empty() ? 0 : s.min() & ~0xFFFFull, hi = s.empty() ? 0xFFFF : s.max() | 0xFFFF; if (hi - lo < (60ull << 16)) { d.add(lo, hi); d = d - s; if (r.coin() && !s.empty()) d.add(r.coin() ? s.min() : s.max()); } break; }  // disjoint or touching in one value
        case 5: { d = s & gen_set(r, w); if (r.coin()) d.add(gen_value(r, w, s)); break; }
        default: d = derive_set(r, w, s);
    }
    e.opname = "build";
    e.pool.push_back(e.build(s)); e.pool.push_back(e.build(s)); e.pool.push_back(e.build(d));
    if (r.chance(1, 4)) { unsigned n = (unsigned)r.in(1, 6); for (unsigned i = 0; i < n; i++) e.step(C_ANY, 1); while (e.pool.size() < 3) e.pool.push_back(e.build(d)); }
    if (w.cow) { size_t n = e.pool.size(); for (size_t i = 0; i < n; i++) if (r.coin()) { Bm q; q.b = roaring_bitmap_copy(e.pool[i].b); q.m = e.pool[i].m; e.pool.push_back(q); } }
    // optional frozen view of the first
    RoMap *map = nullptr; const roaring_bitmap_t *fv = nullptr;
    if (r.chance(1, 4) && e.pool[0].m.nint() < 50000) {
        size_t n = roaring_bitmap_frozen_size_in_bytes(e.pool[0].b); Buf bf(n, 32); roaring_bitmap_frozen_serialize(e.pool[0].b, bf.p);
        map = new RoMap(bf.p, n, 32); fv = roaring_bitmap_frozen_view(map->p, n);
    }
    struct T { const roaring_bitmap_t *b; const IS *m; };
    std::vector<T> ts; for (auto &x : e.pool) ts.push_back({x.b, &x.m});
    if (fv && read32(fv) == e.pool[0].m) ts.push_back({fv, &e.pool[0].m});
    std::vector<u64> hs; for (auto &t : ts) hs.push_back(rawhash32(t.b));
    Rng qseed = r;
    for (size_t i = 0; i < ts.size(); i++) {
        u64 k[5]; kinds32(ts[i].b, k); u64 base = ts[i].m->hash(); for (int j = 1; j < 5; j++) base = mix(base, k[j]);
        Rng rr = i < 2 ? qseed : r;  // the two representations of one set get the same questions
        Q q{rr, w, ts[i].b, *ts[i].m, base};
        LOG(" bitmap %zu kinds=%s %s", i, kinds_str(ts[i].b).c_str(), chunk_profile(*ts[i].m).c_str());
        cov2("kinds", kinds_str(ts[i].b).c_str());
        q.totals();
        for (int n = 0; n < 14; n++) { q.point(); q.select(); q.ranges(); }
        q.rank_many(); q.rank_many(); q.bulk(); q.bulk(); q.arrays(); q.arrays(); q.arrays(); if (rr.chance(1, 3)) q.bitset(); if (rr.chance(1, 10)) q.print();
        CHECK(rawhash32(ts[i].b) == hs[i], "a query modified bitmap %zu", i);
        r.next();
    }
    for (int n = 0; n < 10; n++) { size_t i = r.below(ts.size()), j = r.below(ts.size()); pair_queries(r, ts[i].b, *ts[i].m, ts[j].b, *ts[j].m, mix(ts[i].m->hash(), ts[j].m->hash() + n)); }
    for (size_t i = 0; i < ts.size(); i++) CHECK(rawhash32(ts[i].b) == hs[i], "a binary query modified bitmap %zu", i);
    if (c < 2) sample("case %llu: %s | second: %s", (unsigned long long)c, chunk_profile(s).c_str(), chunk_profile(d).c_str());
    if (fv) roaring_bitmap_free(fv);
    delete map;
}
