// 64-bit serialization.
#include "view64.hpp"
#include "roaring64map.hh"
typedef unsigned long long ull;
using roaring::Roaring; using roaring::Roaring64Map;
const char *PROP = "C11";
const char *RULE = "a case takes a 64-bit bitmap from a random history or a random conforming encoding, exchanges its portable image between the C type, the C++ Roaring64Map and an independent encoder/decoder in exact-size buffers, tries truncations, writes its frozen image after shrink_to_fit, maps it read-only up to a guard page and runs every read-only operation on the view, and offers every kind of truncated frozen image in a buffer of the truncated size; an evaluation is one write, read, truncation or read-only call, distinct by image and call";
void harness_init() { hooks_strict(true); }
static u64 hb(const unsigned char *p, size_t n) { u64 h = 14695981039346656037ull; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }
static IS read_map(const Roaring64Map &x) { size_t n = x.getSizeInBytes(); Buf o(n); x.write(o.p); IS s; size_t u; std::string e = spec_decode64((unsigned char *)o.p, n, s, &u); if (!e.empty() || u != n) fail("image written by Roaring64Map does not conform: %s", e.c_str()); return s; }
static void readers(Rng &r, const Bytes &im, const IS &m, const roaring64_bitmap_t *orig, const char *origin) {
    size_t n = im.size(); u64 h = hb(im.data(), n);
    auto ev = [&](const char *how, u64 a = 0) { g_ops++; cov2(origin, how); eval_sig(mix(mix(h, hstr(how)), a), !m.empty()); LOG("  %s of %zu bytes (%s)", how, n, origin); };
    for (int k = 0; k < 2; k++) {
        size_t slack = k ? r.in(1, 40) : 0; Buf bf(n + slack, 16, r.below(8)); memcpy(bf.p, im.data(), n); for (size_t i = 0; i < slack; i++) bf.p[n + i] = (char)r.next();
        ev("portable_deserialize_safe", slack);
        roaring64_bitmap_t *q = roaring64_bitmap_portable_deserialize_safe(bf.p, n + slack); if (!q) fail("roaring64_bitmap_portable_deserialize_safe rejects a conforming image (%s)", origin);
        if (orig) CHECK(roaring64_bitmap_equals(q, orig) && roaring64_bitmap_equals(orig, q), "64-bit round trip is not equal to the original");
        view64_result(q, m, "roaring64_bitmap_portable_deserialize_safe");
        ev("portable_deserialize_size", slack);
        size_t s = roaring64_bitmap_portable_deserialize_size(bf.p, n + slack); CHECK(s == n, "roaring64_bitmap_portable_deserialize_size reports %zu for an image of %zu bytes (%zu available)", s, n, n + slack);
        ev("Roaring64Map::readSafe", slack);
        try { Roaring64Map x = Roaring64Map::readSafe(bf.p, n + slack); IS g = read_map(x); CHECK(g == m, "Roaring64Map::readSafe: %s", diff_str(m, g).c_str()); CHECK(x.cardinality() == (u64)m.card(), "Roaring64Map::readSafe: cardinality"); }
        catch (std::exception &e) { fail("Roaring64Map::readSafe throws '%s' on a conforming image (%s)", e.what(), origin); }
    }
    { Buf bf(n); memcpy(bf.p, im.data(), n); ev("Roaring64Map::read"); Roaring64Map x = Roaring64Map::read(bf.p); IS g = read_map(x); CHECK(g == m, "Roaring64Map::read: %s", diff_str(m, g).c_str()); }
    std::vector<size_t> cuts;
    if (n <= 60) for (size_t i = 0; i < n; i++) cuts.push_back(i);
    else { for (int i = 0; i < 10; i++) cuts.push_back(r.below(n)); for (size_t i = 1; i <= 3; i++) cuts.push_back(n - i); for (int i = 0; i < 8; i++) cuts.push_back(r.below(std::min<size_t>(n, 120))); }
    for (size_t k : cuts) {
        Buf bf(k); memcpy(bf.p, im.data(), k); ev("truncation", k);
        roaring64_bitmap_t *q = roaring64_bitmap_portable_deserialize_safe(bf.p, k); if (q) fail("roaring64_bitmap_portable_deserialize_safe accepts %zu of %zu bytes", k, n);
        CHECK(roaring64_bitmap_portable_deserialize_size(bf.p, k) == 0, "64-bit size query announces an image with %zu of %zu bytes available", k, n);
        bool threw = false; try { Roaring64Map x = Roaring64Map::readSafe(bf.p, k); } catch (std::exception &) { threw = true; }
        CHECK(threw, "Roaring64Map::readSafe accepts %zu of %zu bytes", k, n);
    }
}
static void portable(Rng &r, const roaring64_bitmap_t *b, const IS &m) {
    size_t n = roaring64_bitmap_portable_size_in_bytes(b); Buf bf(n, 16, r.below(8)), b2(n); memset(bf.p, 0xEE, n); memset(b2.p, 0x11, n);
    size_t k = roaring64_bitmap_portable_serialize(b, bf.p); roaring64_bitmap_portable_serialize(b, b2.p); g_ops++;
    CHECK(k == n, "roaring64_bitmap_portable_serialize wrote %zu bytes, announced %zu", k, n); CHECK(!memcmp(bf.p, b2.p, n), "64-bit portable_serialize leaves announced bytes unwritten");
    IS got; size_t used; std::string e = spec_decode64((unsigned char *)bf.p, n, got, &used);
    eval_sig(mix(hb((unsigned char *)bf.p, n), 5), !m.empty()); cov2("kinds", kinds64(b).c_str());
    CHECK(e.empty(), "64-bit image does not conform to the format: %s", e.c_str()); CHECK(used == n, "64-bit image has %zu bytes, the format describes %zu", n, used); CHECK(got == m, "64-bit image decodes to other contents: %s", diff_str(m, got).c_str());
    readers(r, Bytes((unsigned char *)bf.p, (unsigned char *)bf.p + n), m, b, "library image");
}
static void via_map(Rng &r, const World &w, const IS &m) {  // an image written by the C++ class
    if (m.nint() > 4000) return;
    Roaring64Map x; for (auto &p : m.v) x.addRangeClosed(p.first, p.second);
    if (r.coin()) x.runOptimize(); if (r.chance(1, 3)) x.shrinkToFit();
    if (r.chance(1, 4)) { u64 v = gen_value(r, w, m); if (!m.contains(v)) { x.add(v); x.remove(v); cov("map/maybe empty bucket"); } }
    size_t n = x.getSizeInBytes(); Buf bf(n); size_t k = x.write(bf.p); CHECK(k == n, "Roaring64Map::write wrote %zu bytes, announced %zu", k, n);
    Bytes im((unsigned char *)bf.p, (unsigned char *)bf.p + n); roaring64_bitmap_t *q = roaring64_bitmap_portable_deserialize_safe(bf.p, n); g_ops++; cov("map/write"); eval_sig(mix(hb(im.data(), n), 6), !m.empty());
    if (!q) fail("roaring64_bitmap_portable_deserialize_safe rejects an image written by Roaring64Map"); view64_result(q, m, "reading an image written by Roaring64Map");
    readers(r, im, m, nullptr, "Roaring64Map image");
}
static void frozen(Rng &r, const World &w, roaring64_bitmap_t *b, const IS &m, const roaring64_bitmap_t *y, const IS &my) {
    HookStats h0;
    roaring64_bitmap_shrink_to_fit(b);
    h0 = hooks_stats();
    size_t n = roaring64_bitmap_frozen_size_in_bytes(b); CHECK(n > 0, "frozen_size_in_bytes is 0 after shrink_to_fit");
    Buf bf(n, 64), b2(n, 64); memset(bf.p, 0xEE, n); memset(b2.p, 0x11, n);
    size_t k = roaring64_bitmap_frozen_serialize(b, bf.p); CHECK(k == n, "roaring64_bitmap_frozen_serialize wrote %zu bytes, announced %zu", k, n);
    roaring64_bitmap_frozen_serialize(b, b2.p); CHECK(!memcmp(bf.p, b2.p, n), "64-bit frozen_serialize leaves announced bytes unwritten");
    u64 base = mix(m.hash(), hstr(kinds64(b).c_str())); g_ops++; eval_sig(base, !m.empty()); LOG(" frozen image %zu bytes", n);
    {
        RoMap map(bf.p, n, 64);
        roaring64_bitmap_t *v = roaring64_bitmap_frozen_view(map.p, n); if (!v) fail("roaring64_bitmap_frozen_view rejects the library's own image");
        CHECK(roaring64_bitmap_equals(v, b) && roaring64_bitmap_equals(b, v), "64-bit frozen view is not equal to the original");
        view64_reads(r, w, v, m, y, my, "frozen64 view");
        roaring64_bitmap_t *v2 = roaring64_bitmap_frozen_view(map.p, n); CHECK(v2 && roaring64_bitmap_equals(v, v2), "two 64-bit views of one image differ"); view64_result(roaring64_bitmap_and(v, v2), m, "and of two 64-bit views"); roaring64_bitmap_free(v2);
        roaring64_bitmap_free(v);
        CHECK(!memcmp(map.p, bf.p, n), "using a 64-bit view changed the image");
    }
    std::vector<size_t> cuts;
    if (n <= 200) for (size_t i = 0; i < n; i++) cuts.push_back(i);
    else { for (int i = 0; i < 14; i++) cuts.push_back(r.below(n)); for (size_t i = 1; i <= 70; i += r.in(1, 4)) cuts.push_back(n - i); for (int i = 0; i < 10; i++) cuts.push_back(r.below(std::min<size_t>(n, 300))); }
    for (size_t c : cuts) {
        Buf t(c, 64); memcpy(t.p, bf.p, c);
        LOG("  truncated to %zu of %zu", c, n);
        roaring64_bitmap_t *v = roaring64_bitmap_frozen_view(t.p, c); g_ops++; eval_sig(mix(base, c), !m.empty()); cov(v ? "frozen64/truncation of padding accepted" : "frozen64/truncation rejected");
        if (!v) continue;
        // only trailing padding may be missing: the view must be complete and stay inside the buffer
        CHECK(n - c < 64, "roaring64_bitmap_frozen_view accepts %zu of %zu bytes", c, n);
        IS g; { std::string e; g = read64_portable(v, &e); CHECK(e.empty() && g == m, "roaring64_bitmap_frozen_view accepts %zu of %zu bytes and shows other contents: %s %s", c, n, diff_str(m, g).c_str(), e.c_str()); }
        roaring64_bitmap_free(v);
    }
    { size_t mis = r.pick<size_t>({1, 2, 4, 8, 16, 32}); Buf t(n, 64, mis); memcpy(t.p, bf.p, n); roaring64_bitmap_t *v = roaring64_bitmap_frozen_view(t.p, n); cov("frozen64/misaligned"); if (v) fail("roaring64_bitmap_frozen_view accepts a buffer aligned to %zu bytes only", mis); }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: using and rejecting 64-bit frozen images left %lld blocks allocated", (long long)(hooks_stats().live_blocks - h0.live_blocks));
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    {
        World w = gen_world64(r); w.wide = r.chance(1, 80);
        if (r.chance(2, 3)) {
            Eng64 e(r, w); e.judge = 0; e.opname = "build"; e.populate((unsigned)r.in(1, 2));
            unsigned n = (unsigned)r.below(10); for (unsigned i = 0; i < n; i++) e.step(C_ANY, 1);
            if (e.pool.size() < 2) e.pool.push_back(e.build(derive_set(r, w, e.pool[0].m)));
            for (int k = 0; k < 2; k++) {
                size_t i = e.pick(), j = e.other(i); Bm64 &x = e.pool[i], &y = e.pool[j];
                if (x.m.nint() > 20000 || x.m.card() > 3000000 || y.m.card() > 3000000 || y.m.nint() > 30000) continue;
                if (r.coin()) portable(r, x.b, x.m);
                frozen(r, w, x.b, x.m, y.b, y.m);
                if (c < 3 && !k) sample("case %llu: %s %s", (ull)c, kinds64(x.b).c_str(), chunk_profile(x.m).c_str());
            }
        } else {
            IS s = gen_set(r, w); if (r.coin()) { World w2 = gen_world64(r); IS s2 = gen_set(r, w2); s = s | s2; }
            if (s.nint() > 20000 || s.card() > 3000000) return;
            EncOpt o; o.run_mode = (int)r.pick<int>({0, 1, 2, 2, 3}); o.force_run_cookie = r.chance(1, 4);
            readers(r, spec_encode64(s, o, &r), s, nullptr, "foreign image");
            via_map(r, w, s);
        }
    }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: blocks left allocated at the end of the case");
}
