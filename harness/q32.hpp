// Read-only 32-bit queries against the model.
#pragma once
#include "eng32.hpp"
#include <math.h>
#include "printed.hpp"
struct Q {
    Rng &r; const World &w; const roaring_bitmap_t *b; const IS &m; u64 base;
    void ev(const char *q, u64 a = 0, u64 c = 0) { cov2("q", q); g_ops++; eval_sig(mix(mix(base, hstr(q)), mix(a, c)), !m.empty()); }
    uint32_t val() { return (uint32_t)gen_value(r, w, m); }
    void point() {
        uint32_t v = val(); LOG("  point queries at %u", v);
        ev("contains", v); bool c = roaring_bitmap_contains(b, v); CHECK(c == m.contains(v), "contains(%u) = %d", v, c);
        ev("rank", v); u64 k = roaring_bitmap_rank(b, v); CHECK((u128)k == m.rank(v), "rank(%u) = %llu", v, (unsigned long long)k);
        ev("get_index", v); int64_t g = roaring_bitmap_get_index(b, v);
        int64_t want = m.contains(v) ? (int64_t)(m.rank(v) - 1) : -1; CHECK(g == want, "get_index(%u) = %lld, expected %lld", v, (long long)g, (long long)want);
        digest(c); digest(k); digest(g);
    }
    void select() {
        u64 card = (u64)std::min<u128>(m.card(), (u128)1 << 33);
        u64 k; switch (r.below(6)) { case 0: k = 0; break; case 1: k = card ? card - 1 : 0; break; case 2: k = card; break; case 3: k = card + r.below(70000); break; case 4: k = r.pick<u64>({0xFFFFFFFF, 0xFFFFFFFE, 0x80000000}); break; default: k = r.below(card + 1); }
        if (r.chance(1, 3) && !m.empty()) { k = (u64)m.rank(val()); if (r.coin() && k) k--; }
        select_at(k);
    }
    void select_at(u64 k) {
        if (k > 0xFFFFFFFFull) k = 0xFFFFFFFF;
        ev("select", k); LOG("  select %llu", (unsigned long long)k);
        uint32_t e = 0xDEADBEEF; bool ok = roaring_bitmap_select(b, (uint32_t)k, &e);
        u64 want; bool wok = m.select(k, &want);
        CHECK(ok == wok, "select(%llu) returned %d", (unsigned long long)k, ok);
        if (ok) { CHECK(e == want, "select(%llu) = %u, expected %llu", (unsigned long long)k, e, (unsigned long long)want); digest(e); }
        digest(ok);
    }
    void hrange(u64 *lo, u64 *hi) {
        u64 a, c; gen_range(r, w, m, &a, &c);
        if (r.coin() && !m.empty()) { const IS::Iv &p = m.v[r.below(m.v.size())]; a = p.first; c = p.second; if (r.chance(1, 3) && a) a--; else if (r.chance(1, 3) && c < 0xFFFFFFFF) c++; else if (r.chance(1, 3) && a < c) a++; }
        *lo = a; *hi = c + 1;
        switch (r.below(14)) {
            case 0: *hi = *lo; break;
            case 1: std::swap(*lo, *hi); break;
            case 2: *hi = r.pick<u64>({1ull << 32, (1ull << 32) + 1, (1ull << 32) + 70000, 1ull << 33, UINT64_MAX}); break;
            case 3: *lo = r.pick<u64>({1ull << 32, (1ull << 32) + 1, 1ull << 33, UINT64_MAX - 1}); *hi = *lo + r.below(3); break;
            case 4: *lo = gen_value(r, w, m); *hi = gen_value(r, w, m) + 1; break;
            default: break;
        }
    }
    void ranges() {
        u64 a, c; hrange(&a, &c); LOG("  range queries [%llu,%llu)", (unsigned long long)a, (unsigned long long)c);
        u64 n = 0; bool whole = true, any = false;
        if (c > a) { u64 hi = std::min<u64>(c - 1, 0xFFFFFFFFull); n = a <= 0xFFFFFFFFull ? (u64)m.count(a, hi) : 0; whole = c <= (1ull << 32) && (u128)n == (u128)(c - a); any = n > 0; }
        ev("range_cardinality", a, c); u64 g = roaring_bitmap_range_cardinality(b, a, c); CHECK(g == n, "range_cardinality(%llu,%llu) = %llu, expected %llu", (unsigned long long)a, (unsigned long long)c, (unsigned long long)g, (unsigned long long)n);
        ev("contains_range", a, c); bool h = roaring_bitmap_contains_range(b, a, c); CHECK(h == whole, "contains_range(%llu,%llu) = %d", (unsigned long long)a, (unsigned long long)c, h);
        ev("intersect_with_range", a, c); bool i = roaring_bitmap_intersect_with_range(b, a, c); CHECK(i == any, "intersect_with_range(%llu,%llu) = %d", (unsigned long long)a, (unsigned long long)c, i);
        digest(g); digest(h); digest(i);
        uint32_t x = (uint32_t)a, y = (uint32_t)(c - 1);
        n = x <= y ? (u64)m.count(x, y) : 0;
        ev("range_cardinality_closed", x, y); g = roaring_bitmap_range_cardinality_closed(b, x, y); CHECK(g == n, "range_cardinality_closed(%u,%u) = %llu, expected %llu", x, y, (unsigned long long)g, (unsigned long long)n);
        ev("contains_range_closed", x, y); h = roaring_bitmap_contains_range_closed(b, x, y); CHECK(h == (x > y || n == (u64)y - x + 1), "contains_range_closed(%u,%u) = %d", x, y, h);
        digest(g); digest(h);
    }
    void totals() {
        ev("get_cardinality"); u64 c = roaring_bitmap_get_cardinality(b); CHECK((u128)c == m.card(), "get_cardinality = %llu", (unsigned long long)c);
        ev("is_empty"); CHECK(roaring_bitmap_is_empty(b) == m.empty(), "is_empty = %d", !m.empty());
        ev("minimum"); uint32_t x = roaring_bitmap_minimum(b); CHECK(x == (m.empty() ? UINT32_MAX : m.min()), "minimum = %u", x);
        ev("maximum"); uint32_t y = roaring_bitmap_maximum(b); CHECK(y == (m.empty() ? 0 : m.max()), "maximum = %u", y);
        digest(c); digest(x); digest(y);
        ev("statistics"); roaring_statistics_t s; memset(&s, 0xEE, sizeof s); roaring_bitmap_statistics(b, &s);
        u64 k[5]; kinds32(b, k);
        CHECK(s.cardinality == c, "statistics.cardinality = %llu", (unsigned long long)s.cardinality);
        CHECK(s.n_containers == k[1] + k[2] + k[3] && s.n_array_containers == k[2] && s.n_run_containers == k[3] && s.n_bitset_containers == k[1], "statistics container counts %u/%u/%u/%u", s.n_containers, s.n_array_containers, s.n_run_containers, s.n_bitset_containers);
        CHECK((uint32_t)(s.n_values_array_containers + s.n_values_run_containers + s.n_values_bitset_containers) == (uint32_t)c, "statistics values per kind do not sum to the cardinality");
        if (!m.empty()) CHECK(s.min_value == m.min() && s.max_value == m.max(), "statistics min/max %u/%u", s.min_value, s.max_value);
        u64 va = 0, vr = 0, vb = 0; per_kind(&va, &vr, &vb);
        CHECK(s.n_values_array_containers == (uint32_t)va && s.n_values_run_containers == (uint32_t)vr && s.n_values_bitset_containers == (uint32_t)vb, "statistics values per kind wrong");
        u64 lr = 0; { std::vector<u64> rc = run_counts32(b); for (u64 x : rc) lr += 4 * x; }
        stat_bytes("array", s.n_bytes_array_containers, 2 * va, 16448 * k[2]); stat_bytes("bitset", s.n_bytes_bitset_containers, 8192 * k[1], 8256 * k[1]); stat_bytes("run", s.n_bytes_run_containers, lr, 262400 * k[3]);
        digest(s.n_array_containers); digest(s.n_run_containers);
    }
    // bytes of the containers of one kind: no less than their contents, no more than the largest containers of that kind
    static void stat_bytes(const char *kind, uint32_t got, u64 least, u64 most) { if (most >> 32) return; CHECK(got >= least && got <= most, "statistics: %u bytes in %s containers, their contents are %llu", got, kind, (unsigned long long)least); }
    void per_kind(u64 *va, u64 *vr, u64 *vb) {
        for (int i = 0; i < b->high_low_container.size; i++) {
            u64 k = b->high_low_container.keys[i]; u64 n = (u64)m.count(k << 16, (k << 16) | 0xFFFF);
            int t = Eng32::type_of(b, i); if (t == 1) *vb += n; else if (t == 2) *va += n; else *vr += n;
        }
    }
    void rank_many() {
        std::vector<uint32_t> v; size_t n = r.below(40);
        for (size_t i = 0; i < n; i++) { v.push_back(val()); if (r.chance(1, 6)) v.push_back(v.back()); }
        if (r.chance(1, 3) && !m.empty()) { std::vector<u64> t; u64 c = (u64)std::min<u128>(m.card(), (u128)1 << 33); m.values_from(r.below(c), 60, t); for (u64 x : t) { v.push_back((uint32_t)x); if (r.chance(1, 5)) v.push_back((uint32_t)x + 1); } }
        std::sort(v.begin(), v.end());
        u64 h = 0; for (uint32_t x : v) h = mix(h, x);
        ev("rank_many", h); LOG("  rank_many n=%zu", v.size());
        Buf in(v.size() * 4), out(v.size() * 8); if (!v.empty()) memcpy(in.p, v.data(), v.size() * 4);
        memset(out.p, 0xEE, out.n);
        roaring_bitmap_rank_many(b, (uint32_t *)in.p, (uint32_t *)in.p + v.size(), (uint64_t *)out.p);
        for (size_t i = 0; i < v.size(); i++) { u64 g; memcpy(&g, out.p + 8 * i, 8); digest(g); CHECK((u128)g == m.rank(v[i]), "rank_many: rank of %u (index %zu of %zu) = %llu", v[i], i, v.size(), (unsigned long long)g); }
    }
    void bulk() {
        std::vector<uint32_t> v; size_t n = r.below(60);
        for (size_t i = 0; i < n; i++) { v.push_back(val()); if (r.chance(1, 3)) v.push_back(v.back() ^ (uint32_t)r.below(64)); }
        if (r.coin()) std::sort(v.begin(), v.end());
        u64 h = 1; for (uint32_t x : v) h = mix(h, x);
        ev("contains_bulk", h); LOG("  contains_bulk n=%zu", v.size());
        roaring_bulk_context_t ctx; memset(&ctx, 0, sizeof ctx);
        for (uint32_t x : v) { bool g = roaring_bitmap_contains_bulk(b, &ctx, x); digest(g); CHECK(g == m.contains(x), "contains_bulk(%u) = %d", x, g); }
    }
    void arrays() {
        u64 card = (u64)m.card();
        bool huge = m.card() > 400000;  // only a slice of it
        if (!huge && r.coin()) {
            ev("to_uint32_array"); Buf o(card * 4); roaring_bitmap_to_uint32_array(b, (uint32_t *)o.p);
            size_t i = 0; for (auto &p : m.v) for (u64 x = p.first; x <= p.second; x++, i++) { uint32_t g; memcpy(&g, o.p + 4 * i, 4); if (g != x) fail("to_uint32_array: element %zu is %u, expected %llu", i, g, (unsigned long long)x); }
            count_check(); digest_bytes(o.p, o.n);
        } else {
            u64 off = 0, lim = 0;
            switch (r.below(5)) { case 0: off = 0; break; case 1: off = card ? card - 1 : 0; break; case 2: off = card + r.below(3); break; default: off = r.below(card + 1); }
            if (r.chance(1, 3) && !m.empty()) { off = (u64)m.rank(val()); }
            switch (r.below(6)) { case 0: lim = 0; break; case 1: lim = 1; break; case 2: lim = card; break; case 3: lim = card + r.below(10); break; case 4: lim = card + r.below(70000); break; default: lim = r.below(card + 1); }
            if (huge) lim = std::min<u64>(lim, r.below(200000));
            u64 n = off >= card ? 0 : std::min<u64>(lim, card - off);
            ev("range_uint32_array", off, lim); LOG("  range_uint32_array off=%llu lim=%llu card=%llu", (unsigned long long)off, (unsigned long long)lim, (unsigned long long)card);
            u64 cap = lim;  // the caller provides room for limit values
            Buf o(cap * 4); memset(o.p, 0xEE, o.n);
            bool ok = roaring_bitmap_range_uint32_array(b, off, lim, (uint32_t *)o.p);
            CHECK(ok, "range_uint32_array(%llu,%llu) reports failure", (unsigned long long)off, (unsigned long long)lim);
            std::vector<u64> t; m.values_from(off, n, t);
            for (size_t i = 0; i < n; i++) { uint32_t g; memcpy(&g, o.p + 4 * i, 4); if (g != t[i]) fail("range_uint32_array(%llu,%llu): element %zu is %u, expected %llu", (unsigned long long)off, (unsigned long long)lim, i, g, (unsigned long long)t[i]); }
            count_check(); digest_bytes(o.p, 4 * n);
        }
    }
    void print() {
        if (m.card() > 20000) return;
        ev("printf"); std::string s = printed([&] { roaring_bitmap_printf(b); }), want = "{";
        if (s == "?") return;
        for (auto &p : m.v) for (u64 x = p.first; x <= p.second; x++) { if (want.size() > 1) want += ','; want += std::to_string(x); }
        want += '}'; std::string t; for (char c : s) if (c != ' ') t += c;
        CHECK(t == want, "roaring_bitmap_printf prints %s instead of %s", t.substr(0, 200).c_str(), want.substr(0, 200).c_str());
        s = printed([&] { roaring_bitmap_printf_describe(b); });  // key: kind (cardinality) per chunk
        size_t pos = 0; for (int i = 0; i < b->high_low_container.size; i++) {
            u64 k = b->high_low_container.keys[i], n = (u64)m.count(k << 16, (k << 16) | 0xFFFF); std::string key = std::to_string(k) + ": ", card = "(" + std::to_string(n) + ")";
            size_t q = s.find(key, pos); CHECK(q != std::string::npos, "printf_describe does not list chunk %llu: %s", (unsigned long long)k, s.substr(0, 300).c_str());
            size_t c = s.find(card, q); CHECK(c != std::string::npos, "printf_describe: chunk %llu does not show cardinality %llu: %s", (unsigned long long)k, (unsigned long long)n, s.substr(q, 200).c_str()); pos = c + card.size();
        }
    }
    void bitset() {
        if (!m.empty() && m.max() > (1u << 27)) return;
        ev("to_bitset"); bitset_t *bs = r.coin() ? bitset_create() : bitset_create_with_capacity(r.below(5000));
        bool ok = roaring_bitmap_to_bitset(b, bs);
        CHECK(ok, "to_bitset failed");
        CHECK((u128)bitset_count(bs) == m.card(), "to_bitset: %zu bits set", bitset_count(bs));
        for (auto &p : m.v) { u64 n = p.second - p.first; for (int i = 0; i < 6; i++) { u64 x = i == 0 ? p.first : i == 1 ? p.second : p.first + r.below(n + 1); CHECK(bitset_get(bs, x), "to_bitset: bit %llu missing", (unsigned long long)x); } if (r.chance(1, 50)) break; }
        // exact: word by word against the model
        size_t words = bitset_size_in_words(bs); u64 nx = 0; bool have = !m.empty(); (void)nx; (void)have;
        IS got; for (size_t i = 0; i < words; i++) { u64 x = bs->array[i]; while (x) { int a = __builtin_ctzll(x); u64 y = x >> a; int l = ~y == 0 ? 64 : __builtin_ctzll(~y); if (a + l > 64) l = 64 - a; got.append(i * 64 + a, i * 64 + a + l - 1); x = a + l >= 64 ? 0 : x >> (a + l) << (a + l); } }
        CHECK(got == m, "to_bitset: %s", diff_str(m, got).c_str());
        bitset_free(bs);
    }
};
static void pair_queries(Rng &r, const roaring_bitmap_t *x, const IS &mx, const roaring_bitmap_t *y, const IS &my, u64 base) {
    auto ev = [&](const char *q) { cov2("q", q); g_ops++; eval_sig(mix(base, hstr(q)), !mx.empty() || !my.empty()); };
    LOG("  pair queries %s / %s", kinds_str(x).c_str(), kinds_str(y).c_str());
    ev("equals"); bool e = roaring_bitmap_equals(x, y); CHECK(e == (mx == my), "equals = %d", e);
    ev("is_subset"); bool s = roaring_bitmap_is_subset(x, y); CHECK(s == mx.subset_of(my), "is_subset = %d", s);
    ev("is_strict_subset"); bool t = roaring_bitmap_is_strict_subset(x, y); CHECK(t == (mx.subset_of(my) && mx != my), "is_strict_subset = %d", t);
    ev("intersect"); bool i = roaring_bitmap_intersect(x, y); CHECK(i == mx.intersects(my), "intersect = %d", i);
    digest(e); digest(s); digest(t); digest(i);
    if (!mx.empty() || !my.empty()) {
        ev("jaccard"); double j = roaring_bitmap_jaccard_index(x, y); double want = (double)(u64)(mx & my).card() / (double)(u64)(mx | my).card();
        CHECK(fabs(j - want) <= 1e-12, "jaccard_index = %.17g, expected %.17g", j, want);
    }
}
