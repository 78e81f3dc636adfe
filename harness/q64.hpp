// Read-only 64-bit queries against the model.
#pragma once
#include "eng64.hpp"
struct Q64 {
    Rng &r; const World &w; const roaring64_bitmap_t *b; const IS &m; u64 base;
    typedef unsigned long long ull;
    void ev(const char *q, u64 a = 0, u64 c = 0) { cov2("q", q); g_ops++; eval_sig(mix(mix(base, hstr(q)), mix(a, c)), !m.empty()); }
    u64 val() { return gen_value(r, w, m); }
    void point() {
        u64 v = val(); LOG("  point queries at %llu", (ull)v);
        ev("contains", v); bool c = roaring64_bitmap_contains(b, v); CHECK(c == m.contains(v), "contains(%llu) = %d", (ull)v, c);
        ev("rank", v); u64 k = roaring64_bitmap_rank(b, v); CHECK(k == (u64)m.rank(v), "rank(%llu) = %llu, expected %llu", (ull)v, (ull)k, (ull)m.rank(v));
        ev("get_index", v); u64 g = 0xDEADBEEFull; bool ok = roaring64_bitmap_get_index(b, v, &g);
        CHECK(ok == m.contains(v), "get_index(%llu) returned %d", (ull)v, ok);
        if (ok) { CHECK(g == (u64)(m.rank(v) - 1), "get_index(%llu) = %llu, expected %llu", (ull)v, (ull)g, (ull)(m.rank(v) - 1)); digest(g); }
        digest(c); digest(k); digest(ok);
    }
    void select() {
        u64 card = (u64)m.card(), k;
        switch (r.below(6)) { case 0: k = 0; break; case 1: k = card ? card - 1 : 0; break; case 2: k = card; break; case 3: k = card + r.below(70000); break; case 4: k = r.pick<u64>({UINT64_MAX, 0xFFFFFFFF, 1ull << 32, 1ull << 63}); break; default: k = r.below(card + 1); }
        if (r.chance(1, 3) && !m.empty()) { k = (u64)m.rank(val()); if (r.coin() && k) k--; }
        ev("select", k); LOG("  select %llu", (ull)k);
        uint64_t e = 0xDEADBEEF; bool ok = roaring64_bitmap_select(b, k, &e);
        u64 want = 0; bool wok = m.select(k, &want);
        CHECK(ok == wok, "select(%llu) returned %d", (ull)k, ok);
        if (ok) { CHECK(e == want, "select(%llu) = %llu, expected %llu", (ull)k, (ull)e, (ull)want); digest(e); }
        digest(ok);
    }
    void ranges() {
        u64 a, c; gen_range(r, w, m, &a, &c);
        switch (r.below(8)) {
            case 0: case 1: case 2: if (!m.empty()) { const IS::Iv &p = m.v[r.below(m.v.size())]; a = p.first; c = p.second; if (r.chance(1, 3) && a) a--; else if (r.chance(1, 3) && c < UINT64_MAX) c++; else if (r.chance(1, 3) && a < c) a++; } break;
            case 3: a = val(); c = val(); if (a > c) std::swap(a, c); break;
            case 4: if (!m.empty()) { const IS::Iv &p = m.v[r.below(m.v.size())]; a = p.first; c = p.second; u64 x = r.in(1, 3) << 16; c = c > UINT64_MAX - x ? UINT64_MAX : c + x; if (r.coin()) c |= 0xFFFF; } break;  // one or more chunks too many
            default: break;
        }
        u64 hi = c == UINT64_MAX ? c : c + 1; if (r.chance(1, 3) && hi < UINT64_MAX - 65536) hi = (hi + 0xFFFF) & ~0xFFFFull;
        switch (r.below(14)) { case 0: hi = a; break; case 1: std::swap(a, hi); break; case 2: hi = UINT64_MAX; break; case 3: a = 0; break; default: break; }
        LOG("  range queries [%llu,%llu)", (ull)a, (ull)hi);
        u128 n = hi > a ? m.count(a, hi - 1) : 0;
        ev("range_cardinality", a, hi); u64 g = roaring64_bitmap_range_cardinality(b, a, hi); CHECK(g == (u64)n, "range_cardinality(%llu,%llu) = %llu, expected %llu", (ull)a, (ull)hi, (ull)g, (ull)n);
        ev("contains_range", a, hi); bool h = roaring64_bitmap_contains_range(b, a, hi); CHECK(h == (hi <= a || n == hi - a), "contains_range(%llu,%llu) = %d", (ull)a, (ull)hi, h);
        ev("intersect_with_range", a, hi); bool i = roaring64_bitmap_intersect_with_range(b, a, hi); CHECK(i == (n > 0), "intersect_with_range(%llu,%llu) = %d", (ull)a, (ull)hi, i);
        digest(g); digest(h); digest(i);
        if (r.chance(1, 12)) { a = 0; c = UINT64_MAX; } if (r.chance(1, 12)) std::swap(a, c);
        n = a <= c ? m.count(a, c) : 0;
        ev("range_closed_cardinality", a, c); g = roaring64_bitmap_range_closed_cardinality(b, a, c); CHECK(g == (u64)n, "range_closed_cardinality(%llu,%llu) = %llu, expected %llu", (ull)a, (ull)c, (ull)g, (ull)n);
        digest(g);
    }
    void totals() {
        ev("get_cardinality"); u64 c = roaring64_bitmap_get_cardinality(b); CHECK(c == (u64)m.card(), "get_cardinality = %llu, expected %llu", (ull)c, (ull)m.card());
        ev("is_empty"); bool e = roaring64_bitmap_is_empty(b); CHECK(e == m.empty(), "is_empty = %d", e);
        ev("minimum"); u64 x = roaring64_bitmap_minimum(b); CHECK(x == (m.empty() ? UINT64_MAX : m.min()), "minimum = %llu", (ull)x);
        ev("maximum"); u64 y = roaring64_bitmap_maximum(b); CHECK(y == (m.empty() ? 0 : m.max()), "maximum = %llu", (ull)y);
        digest(c); digest(x); digest(y);
        ev("statistics"); roaring64_statistics_t s; memset(&s, 0xEE, sizeof s); roaring64_bitmap_statistics(b, &s);
        // container kinds and values per kind as the portable image (own reader) shows them
        Bytes im = image64(b); u64 nk[4] = {0}, nv[4] = {0}, nr = 0; bool fine = im.size() >= 8; size_t off = 8;
        u64 nb = 0; if (fine) memcpy(&nb, im.data(), 8);
        for (u64 q = 0; fine && q < nb; q++) { SpecLayout L; if (off + 4 > im.size() || !spec_layout32(im.data() + off + 4, im.size() - off - 4, L)) { fine = false; break; } for (auto &ch : L.ch) { nk[ch.kind]++; nv[ch.kind] += ch.card; if (ch.kind == 3) nr += ch.nruns; } off += 4 + L.end; }
        CHECK(s.cardinality == c, "statistics.cardinality = %llu", (ull)s.cardinality);
        CHECK(s.n_containers == s.n_array_containers + s.n_run_containers + s.n_bitset_containers, "statistics container counts %llu/%llu/%llu/%llu", (ull)s.n_containers, (ull)s.n_array_containers, (ull)s.n_run_containers, (ull)s.n_bitset_containers);
        if (fine) {
            CHECK(s.n_bitset_containers == nk[1] && s.n_array_containers == nk[2] && s.n_run_containers == nk[3], "statistics container kinds %llu/%llu/%llu, image has %llu/%llu/%llu", (ull)s.n_bitset_containers, (ull)s.n_array_containers, (ull)s.n_run_containers, (ull)nk[1], (ull)nk[2], (ull)nk[3]);
            CHECK(s.n_values_bitset_containers == nv[1] && s.n_values_array_containers == nv[2] && s.n_values_run_containers == nv[3], "statistics values per kind wrong");
            // no less than their contents, no more than the largest containers of that kind
            struct { const char *kind; u64 got, least, most; } sb[3] = {{"array", s.n_bytes_array_containers, 2 * nv[2], 16448 * nk[2]}, {"bitset", s.n_bytes_bitset_containers, 8192 * nk[1], 8256 * nk[1]}, {"run", s.n_bytes_run_containers, 4 * nr, 262400 * nk[3]}};
            for (auto &q : sb) CHECK(q.got >= q.least && q.got <= q.most, "statistics: %llu bytes in %s containers, their contents are %llu", (ull)q.got, q.kind, (ull)q.least);
        }
        if (!m.empty()) CHECK(s.min_value == m.min() && s.max_value == m.max(), "statistics min/max %llu/%llu", (ull)s.min_value, (ull)s.max_value);
        digest(s.n_array_containers); digest(s.n_run_containers);
    }
    void bulk() {
        std::vector<u64> v; size_t n = r.below(60);
        for (size_t i = 0; i < n; i++) { v.push_back(val()); if (r.chance(1, 3)) v.push_back(v.back() ^ r.below(64)); if (r.chance(1, 6)) v.push_back(v.back() ^ (1ull << r.in(16, 63))); }
        if (r.coin()) std::sort(v.begin(), v.end());
        u64 h = 1; for (u64 x : v) h = mix(h, x);
        ev("contains_bulk", h); LOG("  contains_bulk n=%zu", v.size());
        roaring64_bulk_context_t ctx; memset(&ctx, 0, sizeof ctx);
        for (u64 x : v) { bool g = roaring64_bitmap_contains_bulk(b, &ctx, x); digest(g); CHECK(g == m.contains(x), "contains_bulk(%llu) = %d", (ull)x, g); }
    }
    struct CB { const IS *m; size_t iv; u64 v; u64 count, stop; bool bad; u64 badv; };
    static bool cb(uint64_t x, void *p) { CB *c = (CB *)p; if (c->iv >= c->m->v.size() || x != c->v) { c->bad = true; c->badv = x; return false; } if (c->v == c->m->v[c->iv].second) { c->iv++; if (c->iv < c->m->v.size()) c->v = c->m->v[c->iv].first; } else c->v++; return ++c->count != c->stop; }
    void arrays() {
        if (m.card() > 400000) return;
        u64 card = (u64)m.card();
        if (r.coin()) {
            ev("to_uint64_array"); Buf o(card * 8); roaring64_bitmap_to_uint64_array(b, (uint64_t *)o.p);
            size_t i = 0; for (auto &p : m.v) for (u64 x = p.first;; x++, i++) { u64 g; memcpy(&g, o.p + 8 * i, 8); if (g != x) fail("to_uint64_array: element %zu is %llu, expected %llu", i, (ull)g, (ull)x); if (x == p.second) { i++; break; } }
            count_check(); digest_bytes(o.p, o.n);
        } else {
            u64 stop = r.coin() ? 0 : r.in(1, card + 1);
            CB c = {&m, 0, m.empty() ? 0 : m.min(), 0, stop, false, 0};
            ev("iterate", stop); LOG("  callback iteration stop=%llu", (ull)stop);
            bool ret = roaring64_bitmap_iterate(b, cb, &c);
            if (c.bad) fail("iterate: visited %llu, expected %llu after %llu visits", (ull)c.badv, (ull)c.v, (ull)c.count);
            bool stopped = stop && stop <= card;
            CHECK(c.count == (stopped ? stop : card), "iterate: %llu visits of %llu (stop at %llu)", (ull)c.count, (ull)card, (ull)stop);
            CHECK(ret == !stopped, "iterate returned %d", ret);
        }
    }
    void all(unsigned rounds) {
        totals();
        for (unsigned n = 0; n < rounds; n++) { point(); select(); ranges(); }
        bulk(); bulk(); arrays(); arrays();
    }
};
inline void pair_queries64(const roaring64_bitmap_t *x, const IS &mx, const roaring64_bitmap_t *y, const IS &my, u64 base) {
    auto ev = [&](const char *q) { cov2("q", q); g_ops++; eval_sig(mix(base, hstr(q)), !mx.empty() || !my.empty()); };
    ev("equals"); bool e = roaring64_bitmap_equals(x, y); CHECK(e == (mx == my), "equals = %d", e);
    ev("is_subset"); bool s = roaring64_bitmap_is_subset(x, y); CHECK(s == mx.subset_of(my), "is_subset = %d", s);
    ev("is_strict_subset"); bool t = roaring64_bitmap_is_strict_subset(x, y); CHECK(t == (mx.subset_of(my) && mx != my), "is_strict_subset = %d", t);
    ev("intersect"); bool i = roaring64_bitmap_intersect(x, y); CHECK(i == mx.intersects(my), "intersect = %d", i);
    digest(e); digest(s); digest(t); digest(i);
    if (!mx.empty() || !my.empty()) {
        ev("jaccard"); double j = roaring64_bitmap_jaccard_index(x, y), want = (double)(u64)(mx & my).card() / (double)(u64)(mx | my).card();
        CHECK(fabs(j - want) <= 1e-12, "jaccard_index = %.17g, expected %.17g", j, want);
    }
    ev("and_cardinality"); u64 ac = roaring64_bitmap_and_cardinality(x, y); CHECK(ac == (u64)(mx & my).card(), "and_cardinality = %llu", (unsigned long long)ac);
}
