#include "it32.hpp"
const char *PROP = "C04";
const char *RULE = "a case builds a set (any container mix, shared containers, frozen view) and drives several iterators over it by a random program of advance / previous / move_equalorlarger / read / copy / re-init, comparing each step with a cursor over the model; an evaluation is one iterator step, non-trivial when the set is non-empty, distinct by step, position and set";
void harness_init() {}
void run_case(Rng &r, u64 cno) {
    World w = gen_world32(r);
    w.cow = r.chance(1, 5); w.wide = r.chance(1, 60);
    Eng32 e(r, w); e.judge = 0; e.opname = "build";
    for (int rep = 0; rep < 2; rep++) {
        IS s = gen_set(r, w); if (r.chance(1, 4)) s = derive_set(r, w, s);
        Bm x = e.build(s);
        e.pool.push_back(x);
        if (w.cow && r.coin()) { Bm q; q.b = roaring_bitmap_copy(x.b); q.m = x.m; e.pool.push_back(q); }
        const roaring_bitmap_t *b = x.b; RoMap *map = nullptr;
        if (r.chance(1, 5)) {
            size_t n = roaring_bitmap_frozen_size_in_bytes(x.b); Buf bf(n, 32); roaring_bitmap_frozen_serialize(x.b, bf.p);
            map = new RoMap(bf.p, n, 32); b = roaring_bitmap_frozen_view(map->p, n);
            if (!b || read32(b) != x.m) { b = x.b; delete map; map = nullptr; }
        }
        const IS &m = x.m; u64 h = rawhash32(b);
        u64 base = mix(m.hash(), h);
        LOG(" set kinds=%s %s", kinds_str(b).c_str(), chunk_profile(m).c_str()); cov2("kinds", kinds_str(b).c_str());
        std::vector<It> its;
        { It i; i.p = roaring_iterator_create(b); i.heap = true; if (!i.p) fail("iterator_create returned NULL"); i.c.st = m.empty() ? 2 : 0; i.c.v = m.empty() ? 0 : m.min(); its.push_back(i); agree(i, m, "create", false, false); }
        { It i; i.p = new roaring_uint32_iterator_t; i.heap = false; memset((void *)i.p, 0xEE, sizeof *i.p); roaring_iterator_init_last(b, i.p); i.c.st = m.empty() ? 1 : 0; i.c.v = m.empty() ? 0 : m.max(); its.push_back(i); agree(i, m, "init_last", false, false); }
        unsigned n = (unsigned)r.in(30, 150);
        for (unsigned i = 0; i < n; i++) step(r, w, b, m, its, base);
        callbacks(r, b, m, base); callbacks(r, b, m, base);
        // complete sweeps in both directions
        if (m.card() < 70000 && r.chance(1, 3)) {
            roaring_uint32_iterator_t q; std::vector<u64> t; m.values_from(0, (size_t)m.card(), t);
            roaring_iterator_init(b, &q); size_t k = 0;
            while (q.has_value) { if (k >= t.size() || q.current_value != t[k]) fail("forward sweep: position %zu is %u", k, q.current_value); k++; roaring_uint32_iterator_advance(&q); }
            CHECK(k == t.size(), "forward sweep: %zu of %zu values", k, t.size());
            if (!m.empty()) { while (roaring_uint32_iterator_previous(&q)) { if (k == 0 || q.current_value != t[k - 1]) fail("backward sweep: position %zu is %u", k, q.current_value); k--; } CHECK(k == 0, "backward sweep stopped %zu values early", k); }
            cov("step/sweeps");
        }
        CHECK(rawhash32(b) == h, "iteration modified the bitmap");
        for (auto &i : its) { if (i.heap) roaring_uint32_iterator_free(i.p); else delete i.p; }
        if (map) { roaring_bitmap_free(b); delete map; }
        if (cno < 1 && rep == 0) sample("case %llu: %u iterator steps over %s", (unsigned long long)cno, n, chunk_profile(m).c_str());
    }
}
