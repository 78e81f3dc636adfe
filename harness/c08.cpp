// Untrusted bytes offered to the length-limited readers.
#include "eng32.hpp"
#include "eng64.hpp"
#include "view64.hpp"
#include "q32.hpp"
#include "it32.hpp"
#include "roaring64map.hh"
typedef unsigned long long ull;
using roaring::Roaring; using roaring::Roaring64Map;
const char *PROP = "C08";
const char *RULE = "a case writes conforming images (32-bit portable and native, 64-bit) or random bytes, corrupts them one to six times (cookie, chunk count, run flags, keys, cardinalities, run counts, run starts and lengths, array order, bitset words, bucket counts and keys, bytes inserted, removed, spliced, truncated) and offers each result to every reader and size query in a buffer of exactly the stated length; accepted bitmaps are validated, compared with an independent decoder, re-read at the announced size, and if valid run through operations against the model; an evaluation is one input offered to one reader, distinct by bytes and reader, all non-trivial";
void harness_init() { hooks_strict(true); }
static u64 hb(const Bytes &b) { u64 h = 14695981039346656037ull; for (unsigned char c : b) h = (h ^ c) * 1099511628211ull; return h; }
static void p16(unsigned char *p, unsigned v) { p[0] = (unsigned char)v; p[1] = (unsigned char)(v >> 8); }
static unsigned g16(const unsigned char *p) { return p[0] | p[1] << 8; }
static void p32(unsigned char *p, u64 v) { p16(p, v & 0xFFFF); p16(p + 2, v >> 16 & 0xFFFF); }
static u64 g32(const unsigned char *p) { return g16(p) | (u64)g16(p + 2) << 16; }
// ---- corruption ------------------------------------------------------------
static const char *corrupt32(Rng &r, Bytes &b, size_t off) {  // targeted at the structure starting at off
    SpecLayout L; size_t n = b.size() - off; unsigned char *p = b.data() + off;
    if (off >= b.size() || !spec_layout32(p, n, L) || L.n == 0) return nullptr;
    SpecChunk &c = r.of(L.ch); unsigned char *d = p + c.data_off;
    auto odd16 = [&](unsigned cur) -> unsigned { switch (r.below(6)) { case 0: return 0; case 1: return 65535; case 2: return cur + 1; case 3: return cur - 1; case 4: return r.pick<unsigned>({4095, 4096, 4097, 2047, 2048, 32767, 32768}); default: return (unsigned)r.next(); } };
    switch (r.below(11)) {
        case 0: p16(p, r.pick<unsigned>({12346, 12347, 12345, 0, 0xFFFF})); return "cookie";
        case 1: if (L.runs) p16(p + 2, odd16(g16(p + 2))); else p32(p + 4, r.pick<u64>({L.n + 1, L.n - 1, 0, 65536, 65537, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.next()})); return "chunk count";
        case 2: if (!L.runs) return nullptr; p[L.runflags_off + r.below((L.n + 7) / 8)] ^= (unsigned char)(1 << r.below(8)); return "run flag";
        case 3: p16(p + c.desc_off, odd16(g16(p + c.desc_off))); return "key";
        case 4: p16(p + c.desc_off + 2, odd16(g16(p + c.desc_off + 2))); return "cardinality";
        case 5: if (!L.has_offs) return nullptr; p32(p + L.offs_off + 4 * r.below(L.n), r.next()); return "offset";
        case 6: if (L.n < 2) return nullptr; { size_t j = r.below(L.n - 1); p16(p + L.ch[j + 1].desc_off, g16(p + L.ch[j].desc_off)); return "key repeated"; }
        default:
            if (c.data_len == 0) return nullptr;
            if (c.kind == 3) {
                u64 k = c.nruns;
                switch (r.below(5)) {
                    case 0: p16(d, odd16(g16(d))); return "run count";
                    case 1: if (!k) return nullptr; { u64 j = r.below(k); p16(d + 2 + 4 * j, odd16(g16(d + 2 + 4 * j))); return "run start"; }
                    case 2: if (!k) return nullptr; { u64 j = r.below(k); p16(d + 4 + 4 * j, odd16(g16(d + 4 + 4 * j))); return "run length"; }
                    case 3: if (!k) return nullptr; { u64 j = k - 1; p16(d + 4 + 4 * j, 65536 - g16(d + 2 + 4 * j) - (unsigned)r.below(2)); return "last run to the end"; }
                    default: if (k < 2) return nullptr; { u64 j = r.below(k - 1); for (int q = 0; q < 4; q++) std::swap(d[2 + 4 * j + q], d[6 + 4 * j + q]); return "runs swapped"; }
                }
            }
            if (c.kind == 2) {
                u64 j = r.below(c.card);
                switch (r.below(3)) { case 0: p16(d + 2 * j, odd16(g16(d + 2 * j))); return "array value"; case 1: if (j + 1 < c.card) p16(d + 2 * j + 2, g16(d + 2 * j)); return "array value repeated"; default: if (j + 1 < c.card) { unsigned x = g16(d + 2 * j); p16(d + 2 * j, g16(d + 2 * j + 2)); p16(d + 2 * j + 2, x); } return "array values swapped"; }
            }
            if (r.coin()) d[r.below(8192)] ^= (unsigned char)(1 << r.below(8)); else memset(d + 8 * r.below(1000), r.coin() ? 0xFF : 0, 8 * r.in(1, 24));
            return "bitset words";
    }
}
static const char *corrupt_bytes(Rng &r, Bytes &b) {
    if (b.empty()) { b.push_back((unsigned char)r.next()); return "byte inserted"; }
    size_t i = r.coin() ? r.below(std::min<size_t>(b.size(), 24)) : r.below(b.size());
    switch (r.below(7)) {
        case 0: b[i] ^= (unsigned char)(1 << r.below(8)); return "bit flipped";
        case 1: b[i] = r.pick<unsigned char>({0, 255, 1, 127, 128, 0x3A, 0x3B, 0x30}); return "byte set";
        case 2: b.insert(b.begin() + i, r.in(1, 9), (unsigned char)r.next()); return "bytes inserted";
        case 3: b.erase(b.begin() + i, b.begin() + std::min(b.size(), i + r.in(1, 9))); return "bytes removed";
        case 4: b.resize(r.coin() ? i : b.size() - std::min<size_t>(b.size(), r.in(1, 5))); return "truncated";
        case 5: { size_t n = r.in(1, 30); for (size_t k = 0; k < n; k++) b.push_back((unsigned char)r.next()); return "bytes appended"; }
        default: { size_t n = std::min<size_t>(r.in(1, 8), b.size() - i); for (size_t k = 0; k < n; k++) b[i + k] = (unsigned char)r.next(); return "bytes overwritten"; }
    }
}
// ---- what an accepted and validated bitmap must do ---------------------------
static void behaves32(Rng &r, roaring_bitmap_t *b, const IS &m, const char *how) {
    digest(m.hash());
    World w = gen_world32(r);
    if (!m.empty()) for (int i = 0; i < 3; i++) { u64 x; if (m.select((u128)r.below((u64)m.card()), &x)) w.keys.push_back(x >> 16); }
    size_t z = roaring_bitmap_portable_size_in_bytes(b); Buf o(z); CHECK(roaring_bitmap_portable_serialize(b, o.p) == z, "%s: re-serialization wrote another size than announced", how);
    IS back; size_t used; std::string e = spec_decode32((unsigned char *)o.p, z, back, &used); CHECK(e.empty() && used == z && back == m, "%s: accepted and valid, but its image does not conform: %s", how, e.c_str());
    roaring_bitmap_t *again = roaring_bitmap_portable_deserialize_safe(o.p, z); if (!again) fail("%s: accepted and valid, but its own image is rejected", how); CHECK(roaring_bitmap_equals(b, again) && roaring_bitmap_equals(again, b), "%s: re-read image is not equal", how); roaring_bitmap_free(again);
    if (m.nint() > 20000 || m.card() > 5000000) { cov("behaves/large, contents only"); roaring_bitmap_free(b); return; }
    Q q{r, w, b, m, m.hash()}; q.totals(); q.point(); q.select(); q.ranges(); q.point(); q.rank_many(); q.bulk(); q.arrays();
    { std::vector<It> its; It it; it.p = roaring_iterator_create(b); it.heap = true; it.c = m.empty() ? Cur{2, 0} : Cur{0, m.min()}; its.push_back(it); for (int i = 0; i < 8; i++) step(r, w, b, m, its, 1); for (auto &t : its) roaring_uint32_iterator_free(t.p); }
    Eng32 en(r, w); en.judge = C_ANY & ~C_OPT; en.opname = "build"; Bm x; x.b = b; x.m = m; en.pool.push_back(x);
    en.pool.push_back(en.build(derive_set(r, w, m)));
    pair_queries(r, b, m, en.pool[1].b, en.pool[1].m, 3); pair_queries(r, en.pool[1].b, en.pool[1].m, b, m, 3);
    for (int i = 0; i < 6; i++) en.step(C_ANY & ~C_OPT, 2);
    cov("behaves/32");
}
static void behaves64(Rng &r, roaring64_bitmap_t *b, const IS &m, const char *how) {
    digest(m.hash());
    World w = gen_world64(r);
    if (!m.empty()) for (int i = 0; i < 3; i++) { u64 x; if (m.select((u128)r.below((u64)m.card()), &x)) w.keys.push_back(x >> 16); }
    size_t z = roaring64_bitmap_portable_size_in_bytes(b); Buf o(z); CHECK(roaring64_bitmap_portable_serialize(b, o.p) == z, "%s: re-serialization wrote another size than announced", how);
    IS back; size_t used; std::string e = spec_decode64((unsigned char *)o.p, z, back, &used); CHECK(e.empty() && used == z && back == m, "%s: accepted and valid, but its image does not conform: %s", how, e.c_str());
    if (m.nint() > 20000 || m.card() > 3000000) { roaring64_bitmap_free(b); return; }
    Q64 q{r, w, b, m, m.hash()}; q.all(2);
    Eng64 en(r, w); en.judge = C_ANY & ~C_OPT; en.opname = "build"; Bm64 x; x.b = b; x.m = m; en.pool.push_back(x);
    en.pool.push_back(en.build(derive_set(r, w, m)));
    pair_queries64(b, m, en.pool[1].b, en.pool[1].m, 3);
    for (int i = 0; i < 5; i++) en.step(C_ANY & ~C_OPT, 2);
    cov("behaves/64");
}
struct Ledger { HookStats h0 = hooks_stats(); void settle(const char *how) { if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: %s: %lld blocks left allocated", how, (long long)(hooks_stats().live_blocks - h0.live_blocks)); } };
static void ev(u64 h, const char *reader, bool ok) { g_ops++; eval_sig(mix(h, hstr(reader)), true); digest(ok); cov2(reader, ok ? "accepted" : "rejected"); LOG("   %s: %s", reader, ok ? "accepted" : "rejected"); }
static void offer32(Rng &r, const Bytes &im, u64 h) {
    size_t n = im.size(); Buf bf(n, 16, r.below(16)); memcpy(bf.p, im.data(), n);
    IS want; size_t wused = 0; bool conform = spec_decode32(im.data(), n, want, &wused).empty();
    size_t size = roaring_bitmap_portable_deserialize_size(bf.p, n); ev(h, "size query 32", size > 0);
    CHECK(size <= n, "portable_deserialize_size announces %zu with %zu bytes available", size, n);
    if (conform) CHECK(size == wused, "portable_deserialize_size reports %zu for a conforming image of %zu bytes", size, wused);
    {
        const char *how = "portable_deserialize_safe"; Ledger g; roaring_bitmap_t *b = roaring_bitmap_portable_deserialize_safe(bf.p, n); ev(h, how, b);
        if (conform && !b) fail("%s rejects a conforming image", how);
        if (b) {
            CHECK(size > 0, "%s accepts what the size query rejects", how);
            const char *why = nullptr; bool valid = roaring_bitmap_internal_validate(b, &why); cov2("validated 32", valid ? "yes" : "no");
            if (!valid) CHECK(why && *why, "internal_validate rejects without a reason");
            if (conform) CHECK(valid, "internal_validate rejects a conforming image: %s", why ? why : "");
            digest(valid); if (valid) {
                std::string mal; IS m = read32(b, &mal); CHECK(mal.empty(), "%s: internal_validate accepts a malformed bitmap (%s)", how, mal.c_str());
                if (conform) CHECK(m == want, "%s: %s", how, diff_str(want, m).c_str());
                // exactly the announced bytes were consumed
                { Buf b2(size); memcpy(b2.p, im.data(), size); roaring_bitmap_t *c = roaring_bitmap_portable_deserialize_safe(b2.p, size); if (!c) fail("%s: an accepted image cut to the announced %zu bytes is rejected", how, size); CHECK(read32(c) == m, "%s: contents depend on bytes after the announced %zu", how, size); roaring_bitmap_free(c); }
                { Buf b3(size - 1); memcpy(b3.p, im.data(), size - 1); roaring_bitmap_t *c = roaring_bitmap_portable_deserialize_safe(b3.p, size - 1); if (c) fail("%s: accepts one byte less than the announced %zu", how, size); }
                behaves32(r, b, m, how);
            } else roaring_bitmap_free(b);
        }
        g.settle(how);
    }
    {
        const char *how = "Roaring::readSafe"; Ledger g; bool ok = false;
        try { Roaring x = Roaring::readSafe(bf.p, n); ok = true; const char *why; if (roaring_bitmap_internal_validate(&x.roaring, &why)) { IS m = read32(&x.roaring); CHECK((u128)x.cardinality() == m.card(), "%s: cardinality of a validated bitmap", how); if (conform) CHECK(m == want, "%s: other contents", how); } } catch (std::runtime_error &) {}
        if (conform) CHECK(ok, "%s throws on a conforming image", how);
        ev(h, how, ok); g.settle(how);
    }
}
static void offer_native(Rng &r, const Bytes &im, u64 h) {
    size_t n = im.size(); Buf bf(n, 16, r.below(16)); memcpy(bf.p, im.data(), n);
    const char *how = "deserialize_safe (native)"; Ledger g; roaring_bitmap_t *b = roaring_bitmap_deserialize_safe(bf.p, n); ev(h, how, b);
    IS want; bool expect = false, decided = false;
    if (n >= 1 && im[0] == 1) {
        decided = true;
        if (n >= 5) { u64 c = g32(im.data() + 1); if (n - 5 >= 4 * c) { expect = true; std::vector<u64> v; for (u64 i = 0; i < c; i++) v.push_back(g32(im.data() + 5 + 4 * i)); want = IS::from_values(v); } }
    } else if (n >= 1 && im[0] == 2) { size_t u; if (spec_decode32(im.data() + 1, n - 1, want, &u).empty()) decided = expect = true; }
    else decided = true;
    if (decided) CHECK((b != nullptr) == expect, "%s %s", how, b ? "accepts an unreadable native image" : "rejects a readable native image");
    if (b) {
        const char *why = nullptr; bool valid = roaring_bitmap_internal_validate(b, &why); cov2("validated native", valid ? "yes" : "no");
        if (decided) CHECK(valid, "%s: internal_validate rejects what was read: %s", how, why ? why : "");
        digest(valid); if (valid) { std::string mal; IS m = read32(b, &mal); CHECK(mal.empty(), "%s: internal_validate accepts a malformed bitmap (%s)", how, mal.c_str()); if (decided) CHECK(m == want, "%s: %s", how, diff_str(want, m).c_str()); behaves32(r, b, m, how); }
        else roaring_bitmap_free(b);
    }
    g.settle(how);
}
static void offer64(Rng &r, const Bytes &im, u64 h) {
    size_t n = im.size(); Buf bf(n, 16, r.below(16)); memcpy(bf.p, im.data(), n);
    IS want; size_t wused = 0; bool conform = spec_decode64(im.data(), n, want, &wused).empty();
    size_t size = roaring64_bitmap_portable_deserialize_size(bf.p, n); ev(h, "size query 64", size > 0);
    CHECK(size <= n, "64-bit size query announces %zu with %zu bytes available", size, n);
    if (conform) CHECK(size == wused, "64-bit size query reports %zu for a conforming image of %zu bytes", size, wused);
    {
        const char *how = "64-bit portable_deserialize_safe"; Ledger g; roaring64_bitmap_t *b = roaring64_bitmap_portable_deserialize_safe(bf.p, n); ev(h, how, b);
        if (conform && !b) fail("%s rejects a conforming image", how);
        if (b) {
            CHECK(size > 0, "%s accepts what the size query rejects", how);
            const char *why = nullptr; bool valid = roaring64_bitmap_internal_validate(b, &why); cov2("validated 64", valid ? "yes" : "no");
            if (conform) CHECK(valid, "internal_validate(64) rejects a conforming image: %s", why ? why : "");
            digest(valid); if (valid) {
                std::string e; IS m = read64_portable(b, &e); CHECK(e.empty(), "%s: internal_validate accepts a malformed bitmap (%s)", how, e.c_str());
                if (conform) CHECK(m == want, "%s: %s", how, diff_str(want, m).c_str());
                { Buf b2(size); memcpy(b2.p, im.data(), size); roaring64_bitmap_t *c = roaring64_bitmap_portable_deserialize_safe(b2.p, size); if (!c) fail("%s: an accepted image cut to the announced %zu bytes is rejected", how, size); CHECK(roaring64_bitmap_equals(b, c), "%s: contents depend on bytes after the announced %zu", how, size); roaring64_bitmap_free(c); }
                { Buf b3(size - 1); memcpy(b3.p, im.data(), size - 1); roaring64_bitmap_t *c = roaring64_bitmap_portable_deserialize_safe(b3.p, size - 1); if (c) fail("%s: accepts one byte less than the announced %zu", how, size); }
                behaves64(r, b, m, how);
            } else roaring64_bitmap_free(b);
        }
        g.settle(how);
    }
    {
        const char *how = "Roaring64Map::readSafe"; Ledger g; bool ok = false;
        try { Roaring64Map x = Roaring64Map::readSafe(bf.p, n); ok = true; if (conform) { CHECK((u128)x.cardinality() == want.card(), "%s: cardinality", how); size_t z = x.getSizeInBytes(); Buf o(z); x.write(o.p); IS m; size_t u; std::string e = spec_decode64((unsigned char *)o.p, z, m, &u); CHECK(e.empty() && m == want, "%s: other contents %s", how, e.c_str()); } } catch (std::runtime_error &) {}
        if (conform) CHECK(ok, "%s throws on a conforming image", how);
        ev(h, how, ok); g.settle(how);
    }
}
static IS small(Rng &r, IS s) {  // keep corrupted inputs cheap, now and then large
    if (s.nint() > 20000) { std::vector<IS::Iv> v(s.v.begin(), s.v.begin() + 2000); s = IS::normalize(v); }
    if (s.card() > 3000000) { u64 lo = s.min(); s = s.restrict_to(lo, lo + 2000000 < lo ? UINT64_MAX : lo + 2000000); }
    return s;
}
void run_case(Rng &r, u64 c) {
    int kind = (int)r.below(5);  // 0,1 portable 32; 2 native; 3,4 64-bit
    bool six = kind >= 3;
    World w = six ? gen_world64(r) : gen_world32(r);
    EncOpt o; o.run_mode = (int)r.pick<int>({0, 1, 2, 2, 3}); o.force_run_cookie = r.chance(1, 4);
    IS s = small(r, gen_set(r, w)); if (r.chance(1, 3)) s = small(r, derive_set(r, w, s));
    Bytes base = six ? spec_encode64(s, o, &r) : spec_encode32(s, o, &r), other = six ? spec_encode64(small(r, derive_set(r, w, s)), o, &r) : spec_encode32(small(r, derive_set(r, w, s)), o, &r);
    if (kind == 2) {
        if (r.coin() || s.card() > 4000) base.insert(base.begin(), 2);
        else { base.assign(5, 1); p32(base.data() + 1, (u64)s.card()); std::vector<u64> v; s.values_from(0, (size_t)s.card(), v); if (r.chance(1, 3)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); for (u64 x : v) { unsigned char q[4]; p32(q, x); base.insert(base.end(), q, q + 4); } }
    }
    for (int k = 0; k < 10; k++) {
        Bytes im = base; std::string what;
        int n = k == 0 ? 0 : (int)r.pick<int>({1, 1, 1, 2, 3, 6});
        if (r.chance(1, 25)) { im.assign(r.below(200), 0); for (auto &x : im) x = (unsigned char)r.next(); if (im.size() > 20 && r.coin()) { p16(im.data() + (six ? 12 : 0), r.pick<unsigned>({12346, 12347})); if (six) for (int i = 1; i < 8; i++) im[i] = 0; } what = "random bytes"; }
        if (k && r.chance(1, 12)) { size_t i = r.below(im.size() + 1), j = r.below(other.size() + 1); im.resize(i); im.insert(im.end(), other.begin() + j, other.end()); what += "spliced "; }
        for (int i = 0; i < n; i++) {
            const char *t = nullptr;
            if (r.chance(2, 3)) {
                size_t off = kind == 2 ? 1 : 0;
                if (six) {
                    std::vector<size_t> offs; off = 8; while (off + 4 < im.size()) { SpecLayout L; if (!spec_layout32(im.data() + off + 4, im.size() - off - 4, L)) break; offs.push_back(off + 4); off += 4 + L.end; }
                    if (im.size() >= 8 && r.chance(1, 6)) { p32(im.data(), r.pick<u64>({0, offs.size() + 1, offs.size() ? offs.size() - 1 : 0, 0xFFFFFFFF, r.next()})); if (r.chance(1, 5)) p32(im.data() + 4, r.pick<u64>({1, 0x7FFFFFFF, 0xFFFFFFFF})); t = "bucket count"; }
                    else if (!offs.empty() && r.chance(1, 6)) { size_t q = r.of(offs); p32(im.data() + q - 4, r.pick<u64>({0, 0xFFFFFFFF, g32(im.data() + q - 4) + 1, g32(im.data() + offs[0] - 4)})); t = "bucket key"; }
                    else if (!offs.empty()) t = corrupt32(r, im, r.of(offs));
                } else if (kind == 2 && im.size() >= 5 && r.chance(1, 4)) { if (im[0] == 1 && r.coin()) p32(im.data() + 1, r.pick<u64>({0, (u64)s.card() + 1, 0xFFFFFFFF, 0x40000000, 0x40000001, 0x80000000, r.next()})); else im[0] = (unsigned char)r.pick<int>({0, 1, 2, 3, 255}); t = "native header"; }
                else if (!(kind == 2 && im.size() && im[0] == 1)) t = corrupt32(r, im, off);
            }
            if (!t) t = corrupt_bytes(r, im);
            cov2("corruption", t); what += t; what += ' ';
        }
        if (g_trace) { std::string x; for (size_t i = 0; i < im.size() && i < 400; i++) { char q[4]; snprintf(q, 4, "%02x", im[i]); x += q; } LOG("  input %d kind %d: %zu bytes, %s: %s", k, kind, im.size(), what.c_str(), x.c_str()); }
        u64 h = hb(im);
        if (kind < 2) offer32(r, im, h); else if (kind == 2) offer_native(r, im, h); else offer64(r, im, h);
        if (k == 3 && r.chance(1, 4)) { if (kind == 2) offer32(r, im, h); else offer_native(r, im, h); offer64(r, im, h); }  // wrong reader
        if (c < 3 && k == 1) sample("case %llu: %s image of %s, %zu bytes, corrupted: %s", (ull)c, kind < 2 ? "32-bit portable" : kind == 2 ? "native" : "64-bit", chunk_profile(s).c_str(), im.size(), what.c_str());
    }
}
