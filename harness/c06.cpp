// Portable 32-bit serialization.
#include "eng32.hpp"
typedef unsigned long long ull;
const char *PROP = "C06";
const char *RULE = "a case takes bitmaps from random histories (array, bitset, run, shared containers, 0 to hundreds of chunks) and random conforming encodings written by an independent encoder (any choice of run containers, with and without the run cookie), writes and reads them through every portable writer, reader and size query in exact-size buffers, decodes the image with an independent decoder of the format specification, and tries truncations; an evaluation is one write, read, size query or truncation, non-trivial when the image holds a value, distinct by image bytes and reader";
void harness_init() { hooks_strict(true); }
static u64 hb(const Bytes &b) { u64 h = 14695981039346656037ull; for (unsigned char c : b) h = (h ^ c) * 1099511628211ull; return h; }
static void same_set(roaring_bitmap_t *q, const IS &m, const char *how) {
    std::string mal; IS got = read32(q, &mal);
    if (!mal.empty()) fail("%s: malformed bitmap (%s)", how, mal.c_str());
    CHECK(got == m, "%s: %s", how, diff_str(m, got).c_str());
    std::string e = wellformed32(q); CHECK(e.empty(), "%s: bitmap ill formed: %s", how, e.c_str());
    CHECK((u128)roaring_bitmap_get_cardinality(q) == m.card(), "%s: cardinality %llu", how, (ull)roaring_bitmap_get_cardinality(q));
}
// every reader on an image of the set m
static void readers(Rng &r, const Bytes &im, const IS &m, const roaring_bitmap_t *orig, const char *origin) {
    size_t n = im.size(); u64 h = hb(im);
    for (int k = 0; k < 4; k++) {
        size_t mis = r.coin() ? 0 : r.below(16);
        size_t slack = k == 1 ? r.in(1, 40) : 0;
        Buf bf(n + slack, 16, mis); memcpy(bf.p, im.data(), n); for (size_t i = 0; i < slack; i++) bf.p[n + i] = (char)r.next();
        roaring_bitmap_t *q = nullptr; const char *how = "";
        switch (k) {
            case 0: how = "portable_deserialize"; q = roaring_bitmap_portable_deserialize(bf.p); break;
            case 1: how = "portable_deserialize_safe (longer buffer)"; q = roaring_bitmap_portable_deserialize_safe(bf.p, n + slack); break;
            case 2: how = "portable_deserialize_safe"; q = roaring_bitmap_portable_deserialize_safe(bf.p, n); break;
            default: how = "portable_deserialize_frozen"; q = roaring_bitmap_portable_deserialize_frozen(bf.p); break;
        }
        g_ops++; cov2(origin, how); eval_sig(mix(h, hstr(how)), !m.empty());
        LOG("  %s of %zu bytes (%s)", how, n, origin);
        if (!q) fail("%s rejects an image %s", how, origin);
        same_set(q, m, how);
        if (orig) CHECK(roaring_bitmap_equals(q, orig) && roaring_bitmap_equals(orig, q), "%s: result not equal to the original", how);
        // what was read writes the same set again
        size_t z = roaring_bitmap_portable_size_in_bytes(q); Buf o(z); size_t wr = roaring_bitmap_portable_serialize(q, o.p);
        CHECK(wr == z, "%s: re-serialization wrote %zu of %zu announced bytes", how, wr, z);
        IS back; size_t used; std::string e = spec_decode32((unsigned char *)o.p, z, back, &used); CHECK(e.empty() && used == z && back == m, "%s: re-serialization does not conform or differs: %s", how, e.c_str());
        roaring_bitmap_free(q);
    }
    for (int k = 0; k < 2; k++) {
        size_t slack = k ? r.in(1, 100) : 0; Buf bf(n + slack, 16, r.below(8)); memcpy(bf.p, im.data(), n); for (size_t i = 0; i < slack; i++) bf.p[n + i] = (char)r.next();
        size_t s = roaring_bitmap_portable_deserialize_size(bf.p, n + slack);
        cov2(origin, "portable_deserialize_size"); eval_sig(mix(h, 77 + slack), !m.empty());
        CHECK(s == n, "portable_deserialize_size reports %zu for an image of %zu bytes (%zu available)", s, n, n + slack);
    }
    // truncations: every prefix of a small image, some of a large one
    std::vector<size_t> cuts;
    if (n <= 80) for (size_t i = 0; i < n; i++) cuts.push_back(i);
    else { for (int i = 0; i < 12; i++) cuts.push_back(r.below(n)); for (size_t i = 1; i <= 4; i++) cuts.push_back(n - i); for (int i = 0; i < 8; i++) cuts.push_back(r.below(std::min<size_t>(n, 200))); }
    for (size_t k : cuts) {
        Buf bf(k); memcpy(bf.p, im.data(), k);
        roaring_bitmap_t *q = roaring_bitmap_portable_deserialize_safe(bf.p, k);
        if (q) fail("portable_deserialize_safe accepts %zu of %zu bytes", k, n);
        CHECK(roaring_bitmap_portable_deserialize_size(bf.p, k) == 0, "portable_deserialize_size announces %zu bytes with %zu of %zu available", roaring_bitmap_portable_deserialize_size(bf.p, k), k, n);
        eval_sig(mix(h, mix(99, k)), !m.empty()); cov2(origin, "truncation");
    }
}
static void written(Rng &r, const roaring_bitmap_t *b, const IS &m) {
    u64 raw = rawhash32(b);
    size_t n = roaring_bitmap_portable_size_in_bytes(b);
    Buf bf(n, 16, r.below(16)); memset(bf.p, r.coin() ? 0xEE : 0, n);
    size_t k = roaring_bitmap_portable_serialize(b, bf.p);
    g_ops++; cov2("kinds", kinds_str(b).c_str());
    CHECK(k == n, "portable_serialize wrote %zu bytes, portable_size_in_bytes announced %zu", k, n);
    CHECK(rawhash32(b) == raw, "serializing modified the bitmap");
    Bytes im((unsigned char *)bf.p, (unsigned char *)bf.p + n);
    eval_sig(mix(hb(im), 5), !m.empty());
    LOG(" image of %s: %zu bytes %s", kinds_str(b).c_str(), n, chunk_profile(m).c_str());
    IS got; size_t used = 0; std::string e = spec_decode32(im.data(), n, got, &used);
    CHECK(e.empty(), "image does not conform to the format specification: %s", e.c_str());
    CHECK(used == n, "image has %zu bytes, the format describes %zu", n, used);
    CHECK(got == m, "image decodes to other contents: %s", diff_str(m, got).c_str());
    SpecLayout L; if (spec_layout32(im.data(), n, L)) { u64 kk[5]; kinds32(b, kk); CHECK(L.runs == (kk[3] > 0) && L.n == kk[1] + kk[2] + kk[3], "cookie or chunk count do not match the containers"); cov2("chunks", L.n == 0 ? "0" : L.n < 4 ? "1-3" : L.n < 32 ? "4-31" : L.n < 1024 ? "32-1023" : L.n < 32768 ? "1024-32767" : "32768+"); }
    readers(r, im, m, b, "library image");
}
void run_case(Rng &r, u64 c) {
    World w = gen_world32(r); w.cow = r.chance(1, 4); w.wide = r.chance(1, 80);
    if (r.chance(1, 60)) {  // thousands of chunks, up to all 65536
        IS s = gen_many_chunks(r, 65536); roaring_bitmap_t *b = roaring_bitmap_create(); for (auto &p : s.v) roaring_bitmap_add_range_closed(b, (uint32_t)p.first, (uint32_t)p.second);
        unsigned t = (unsigned)r.below(3); if (t) roaring_bitmap_run_optimize(b); if (t == 2) roaring_bitmap_shrink_to_fit(b);
        cov("many chunks"); written(r, b, s); roaring_bitmap_free(b);
    } else if (r.coin()) {
        Eng32 e(r, w); e.judge = 0; e.opname = "build"; e.populate((unsigned)r.in(1, 3));
        unsigned n = (unsigned)r.below(10); for (unsigned i = 0; i < n; i++) e.step(C_ANY, 1);
        for (auto &x : e.pool) if (x.m.nint() < 40000 && x.m.card() < 40000000) written(r, x.b, x.m);
        if (c < 4) sample("case %llu: %s", (ull)c, chunk_profile(e.pool[0].m).c_str());
    } else {
        for (int k = 0; k < 3; k++) {
            IS s = gen_set(r, w); if (r.chance(1, 3)) s = derive_set(r, w, s);
            if (r.chance(1, 6)) { u64 nk = r.in(1, 600), k0 = r.below(65000); for (u64 i = 0; i < nk && k0 < 65536; i++, k0 += r.in(1, 3)) { u64 a = (k0 << 16) + r.below(65000); s.add(a, std::min<u64>(a + r.below(40), (k0 << 16) + 65535)); } }  // many chunks
            if (s.nint() > 40000) continue;
            EncOpt o; o.run_mode = (int)r.pick<int>({0, 1, 2, 2, 3}); o.force_run_cookie = r.chance(1, 4);
            Bytes im = spec_encode32(s, o, &r);
            IS chk; size_t used; std::string e = spec_decode32(im.data(), im.size(), chk, &used); if (!e.empty() || chk != s || used != im.size()) internal_error("own encoder and decoder disagree: %s", e.c_str());
            readers(r, im, s, nullptr, "foreign image");
        }
    }
}
