// Native and frozen 32-bit images; views are read-only.
#include "view32.hpp"
typedef unsigned long long ull;
const char *PROP = "C07";
const char *RULE = "a case takes a bitmap from a random history, writes its native and frozen image into exact-size buffers filled with two different patterns, reads them back, maps the frozen and the portable image read-only against a guard page and runs every read-only operation, set operation, copy and serialization on the view; wrong lengths, headers, alignments and native truncations must be rejected; an evaluation is one write, read, rejection or read-only call, distinct by bitmap contents, kinds and call";
void harness_init() { hooks_strict(true); }
static void native(Rng &r, const roaring_bitmap_t *b, const IS &m) {
    u64 raw = rawhash32(b); u64 base = mix(raw, 3);
    size_t n = roaring_bitmap_size_in_bytes(b), pn = roaring_bitmap_portable_size_in_bytes(b);
    Buf bf(n, 16, r.below(8)); memset(bf.p, 0xEE, n);
    size_t k = roaring_bitmap_serialize(b, bf.p); g_ops++;
    eval_sig(base, !m.empty()); LOG("  native image %zu bytes (%s)", n, kinds_str(b).c_str());
    CHECK(k == n, "serialize wrote %zu bytes, size_in_bytes announced %zu", k, n);
    Buf b2(n); memset(b2.p, 0x11, n); roaring_bitmap_serialize(b, b2.p); CHECK(!memcmp(bf.p, b2.p, n), "serialize leaves announced bytes unwritten");
    CHECK(rawhash32(b) == raw, "serialize modified the bitmap");
    bool arr = bf.p[0] == 1; cov2("native", arr ? "array form" : "container form"); (void)pn;
    for (int w = 0; w < 3; w++) {
        size_t slack = w == 2 ? r.in(1, 30) : 0; Buf c(n + slack, 16, r.below(8)); memcpy(c.p, bf.p, n); for (size_t i = 0; i < slack; i++) c.p[n + i] = (char)r.next();
        roaring_bitmap_t *q = w == 0 ? roaring_bitmap_deserialize(c.p) : roaring_bitmap_deserialize_safe(c.p, n + slack);
        if (!q) fail("%s rejects the library's own native image", w == 0 ? "deserialize" : "deserialize_safe");
        CHECK(roaring_bitmap_equals(q, b), "native round trip is not equal to the original"); eval_sig(mix(base, w), !m.empty());
        view_result(q, m, w == 0 ? "deserialize" : "deserialize_safe");
    }
    for (int i = 0; i < 10; i++) {
        size_t cut = n <= 40 ? r.below(n) : r.chance(1, 3) ? n - 1 - r.below(4) : r.below(n);
        Buf c(cut); memcpy(c.p, bf.p, cut); roaring_bitmap_t *q = roaring_bitmap_deserialize_safe(c.p, cut); g_ops++; eval_sig(mix(base, mix(cut, 4)), !m.empty()); cov("native/truncation");
        if (q) fail("deserialize_safe accepts %zu of %zu bytes of a native image", cut, n);
    }
}
static void frozen(Rng &r, const World &w, const roaring_bitmap_t *b, const IS &m, const roaring_bitmap_t *y, const IS &my) {
    u64 raw = rawhash32(b), base = mix(raw, 9);
    size_t n = roaring_bitmap_frozen_size_in_bytes(b);
    Buf bf(n, 32), b2(n, 32); memset(bf.p, 0xEE, n); memset(b2.p, 0x11, n);
    roaring_bitmap_frozen_serialize(b, bf.p); roaring_bitmap_frozen_serialize(b, b2.p); g_ops++;
    eval_sig(base, !m.empty()); LOG("  frozen image %zu bytes (%s)", n, kinds_str(b).c_str());
    CHECK(!memcmp(bf.p, b2.p, n), "frozen_serialize leaves announced bytes unwritten");
    CHECK(rawhash32(b) == raw, "frozen_serialize modified the bitmap");
    HookStats h0 = hooks_stats();
    {
        RoMap map(bf.p, n, 32); u64 hh = 0; for (size_t i = 0; i < n; i++) hh = hh * 1099511628211ull + (unsigned char)map.p[i];
        const roaring_bitmap_t *v = roaring_bitmap_frozen_view(map.p, n); if (!v) fail("frozen_view rejects the library's own image");
        CHECK(roaring_bitmap_equals(v, b) && roaring_bitmap_equals(b, v), "frozen view is not equal to the original");
        view_reads(r, w, v, m, y, my, "frozen view");
        // a second view on the same bytes, used together with the first
        const roaring_bitmap_t *v2 = roaring_bitmap_frozen_view(map.p, n); CHECK(v2 && roaring_bitmap_equals(v, v2), "two views of one image differ"); view_result(roaring_bitmap_and(v, v2), m, "and of two views"); view_result(roaring_bitmap_xor(v, v2), IS(), "xor of two views"); roaring_bitmap_free(v2);
        roaring_bitmap_free(v);
        u64 h2 = 0; for (size_t i = 0; i < n; i++) h2 = h2 * 1099511628211ull + (unsigned char)map.p[i]; CHECK(hh == h2, "using a view changed the image");
    }
    // rejections
    for (int i = 0; i < 8; i++) {
        size_t len; switch (r.below(5)) { case 0: len = n - 1; break; case 1: len = n + 1; break; case 2: len = r.below(n); break; case 3: len = n + r.in(1, 5000); break; default: len = r.below(6); }
        if (len == n) continue;
        Buf c(len, 32); size_t k = std::min(len, n); memcpy(c.p, bf.p, k); for (size_t j = k; j < len; j++) c.p[j] = (char)r.next();
        const roaring_bitmap_t *v = roaring_bitmap_frozen_view(c.p, len); g_ops++; cov("frozen/wrong length"); eval_sig(mix(base, mix(len, 5)), !m.empty());
        if (v) fail("frozen_view accepts length %zu for an image of %zu bytes", len, n);
    }
    { // header: cookie bits, container count, type codes
        Buf c(n, 32); memcpy(c.p, bf.p, n); uint32_t h; memcpy(&h, c.p + n - 4, 4); uint32_t h2 = h ^ (1u << r.below(15)); memcpy(c.p + n - 4, &h2, 4);
        const roaring_bitmap_t *v = roaring_bitmap_frozen_view(c.p, n); cov("frozen/wrong cookie"); eval_sig(mix(base, h2), !m.empty()); if (v) fail("frozen_view accepts cookie %08x", h2);
        uint32_t num = h >> 15;
        h2 = (h & 0x7FFF) | (uint32_t)(num + r.in(1, 100000)) << 15; memcpy(c.p + n - 4, &h2, 4); v = roaring_bitmap_frozen_view(c.p, n); cov("frozen/wrong count"); 
        if (v) { if ((h2 >> 15) * 5ull + 4 > n) fail("frozen_view accepts %u containers in %zu bytes", h2 >> 15, n); roaring_bitmap_free(v); }
        memcpy(c.p + n - 4, &h, 4);
        if (num) { size_t at = n - 4 - num + r.below(num); c.p[at] = (char)r.pick<int>({0, 4, 5, 100, 255}); v = roaring_bitmap_frozen_view(c.p, n); cov("frozen/wrong type"); if (v) fail("frozen_view accepts type code %d", c.p[at]); }
        size_t mis = r.pick<size_t>({1, 2, 4, 8, 16, 31}); Buf c2(n, 32, mis); memcpy(c2.p, bf.p, n); v = roaring_bitmap_frozen_view(c2.p, n); cov("frozen/misaligned"); if (v) fail("frozen_view accepts a buffer aligned to %zu bytes only", mis);
    }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: using and rejecting frozen views left %lld blocks allocated", (long long)(hooks_stats().live_blocks - h0.live_blocks));
}
static void portable_frozen(Rng &r, const World &w, const roaring_bitmap_t *b, const IS &m, const roaring_bitmap_t *y, const IS &my) {
    size_t n = roaring_bitmap_portable_size_in_bytes(b); Buf bf(n); roaring_bitmap_portable_serialize(b, bf.p);
    RoMap map(bf.p, n, r.pick<size_t>({1, 1, 2, 8, 32}));
    roaring_bitmap_t *v = roaring_bitmap_portable_deserialize_frozen(map.p); g_ops++;
    if (!v) fail("portable_deserialize_frozen rejects the library's own image");
    view_reads(r, w, v, m, y, my, "portable-frozen view");
    roaring_bitmap_free(v);
    CHECK(!memcmp(map.p, bf.p, n), "image changed");
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    {
        World w = gen_world32(r); w.cow = r.chance(1, 3); w.wide = r.chance(1, 80);
        Eng32 e(r, w); e.judge = 0; e.opname = "build"; e.populate((unsigned)r.in(1, 3));
        unsigned n = (unsigned)r.below(10); for (unsigned i = 0; i < n; i++) e.step(C_ANY, 1);
        Eng32 plain(r, w); plain.judge = 0; plain.w.cow = false; plain.opname = "build";
        if (r.chance(1, 60)) {  // thousands of chunks, up to all 65536
            IS s = gen_many_chunks(r, 65536); roaring_bitmap_t *b = roaring_bitmap_create(); for (auto &p : s.v) roaring_bitmap_add_range_closed(b, (uint32_t)p.first, (uint32_t)p.second);
            unsigned t = (unsigned)r.below(3); if (t) roaring_bitmap_run_optimize(b); if (t == 2) roaring_bitmap_shrink_to_fit(b);
            plain.pool.push_back(plain.build(gen_set(r, w))); Bm &y = plain.pool.back(); cov("many chunks"); native(r, b, s); if (y.m.card() < 3000000 && s.card() < 8000000) { frozen(r, w, b, s, y.b, y.m); if (r.coin()) portable_frozen(r, w, b, s, y.b, y.m); } roaring_bitmap_free(b);
        }
        for (int k = 0; k < 2; k++) {
            size_t i = e.pick(); Bm &x = e.pool[i]; if (x.m.nint() > 20000 || x.m.card() > 3000000) continue;
            plain.pool.push_back(plain.build(r.coin() ? derive_set(r, w, x.m) : gen_set(r, w))); Bm &y = plain.pool.back(); if (y.m.card() > 3000000) continue;
            cov2("kinds", kinds_str(x.b).c_str());
            native(r, x.b, x.m);
            frozen(r, w, x.b, x.m, y.b, y.m);
            if (r.coin()) portable_frozen(r, w, x.b, x.m, y.b, y.m);
            if (c < 3 && !k) sample("case %llu: %s %s", (ull)c, kinds_str(x.b).c_str(), chunk_profile(x.m).c_str());
        }
    }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: blocks left allocated at the end of the case");
}
