#include "read32.hpp"
#include <roaring/containers/containers.h>
using namespace roaring::internal;

static const container_t *unwrap(const container_t *c, uint8_t *t) {
    if (*t == SHARED_CONTAINER_TYPE) { const shared_container_t *s = (const shared_container_t *)c; *t = s->typecode; return s->container; }
    return c;
}
IS read32(const roaring_bitmap_t *r, std::string *mal) {
    std::vector<IS::Iv> out;
    bool ok = true;
    std::string why;
    auto bad = [&](const std::string &s) { if (ok) why = s; ok = false; };
    const roaring_array_t &ra = r->high_low_container;
    i128 last = -1;
    auto put = [&](u64 a, u64 b) {
        if ((i128)a <= last) bad("values out of order near " + std::to_string(a));
        if ((i128)b > last) last = b;
        if (!out.empty() && out.back().second + 1 == a) out.back().second = b; else out.push_back(IS::Iv(a, b));
    };
    for (int i = 0; i < ra.size; i++) {
        u64 base = (u64)ra.keys[i] << 16;
        uint8_t t = ra.typecodes[i];
        const container_t *c = unwrap(ra.containers[i], &t);
        size_t before = out.size();
        (void)before;
        if (t == BITSET_CONTAINER_TYPE) {
            const bitset_container_t *b = (const bitset_container_t *)c;
            for (int w = 0; w < 1024; w++) {
                u64 x = b->words[w], b0 = base + w * 64;
                if (x == ~0ull) { put(b0, b0 + 63); continue; }
                while (x) {
                    int a = __builtin_ctzll(x); u64 y = x >> a; int l = __builtin_ctzll(~y);
                    put(b0 + a, b0 + a + l - 1);
                    x = a + l >= 64 ? 0 : x >> (a + l) << (a + l);
                }
            }
        } else if (t == ARRAY_CONTAINER_TYPE) {
            const array_container_t *a = (const array_container_t *)c;
            if (a->cardinality < 0 || a->cardinality > 65536) { bad("array cardinality " + std::to_string(a->cardinality)); continue; }
            for (int j = 0; j < a->cardinality; j++) put(base + a->array[j], base + a->array[j]);
        } else if (t == RUN_CONTAINER_TYPE) {
            const run_container_t *q = (const run_container_t *)c;
            if (q->n_runs < 0 || q->n_runs > 65536) { bad("run count " + std::to_string(q->n_runs)); continue; }
            for (int j = 0; j < q->n_runs; j++) {
                u64 a = q->runs[j].value, l = q->runs[j].length;
                if (a + l > 65535) bad("run overflows its chunk");
                put(base + a, base + (a + l > 65535 ? 65535 : a + l));
            }
        } else bad("unknown typecode " + std::to_string(t));
    }
    if (mal) *mal = why;
    if (!ok) return IS::normalize(out);
    IS s; s.v.swap(out);
    return s;
}
std::string wellformed32(const roaring_bitmap_t *r) {
    const roaring_array_t &ra = r->high_low_container;
    char e[200];
#define WBAD(...) do { snprintf(e, sizeof e, __VA_ARGS__); return e; } while (0)
    if (ra.size < 0 || ra.allocation_size < 0 || (ra.size > ra.allocation_size && !(ra.flags & ROARING_FLAG_FROZEN))) WBAD("size %d allocation %d", ra.size, ra.allocation_size);
    for (int i = 0; i < ra.size; i++) {
        if (i && ra.keys[i] <= ra.keys[i - 1]) WBAD("keys not strictly increasing at %d", i);
        uint8_t t = ra.typecodes[i];
        const container_t *c = ra.containers[i];
        if (!c) WBAD("NULL container at %d", i);
        if (t == SHARED_CONTAINER_TYPE) {
            const shared_container_t *s = (const shared_container_t *)c;
            if (s->typecode == SHARED_CONTAINER_TYPE) WBAD("shared container inside a shared container at %d", i);
        }
        c = unwrap(c, &t);
        if (t == BITSET_CONTAINER_TYPE) {
            const bitset_container_t *b = (const bitset_container_t *)c;
            int n = 0; for (int w = 0; w < 1024; w++) n += __builtin_popcountll(b->words[w]);
            if (n != b->cardinality) WBAD("bitset container %d records cardinality %d, holds %d", i, b->cardinality, n);
            if (n <= 4096) WBAD("bitset container %d holds only %d values", i, n);
        } else if (t == ARRAY_CONTAINER_TYPE) {
            const array_container_t *a = (const array_container_t *)c;
            if (a->cardinality <= 0) WBAD("array container %d empty", i);
            if (a->cardinality > 4096) WBAD("array container %d holds %d values", i, a->cardinality);
            if (!(ra.flags & ROARING_FLAG_FROZEN) && a->cardinality > a->capacity) WBAD("array container %d cardinality %d > capacity %d", i, a->cardinality, a->capacity);
            for (int j = 1; j < a->cardinality; j++) if (a->array[j] <= a->array[j - 1]) WBAD("array container %d not strictly increasing at %d", i, j);
        } else if (t == RUN_CONTAINER_TYPE) {
            const run_container_t *q = (const run_container_t *)c;
            if (q->n_runs <= 0) WBAD("run container %d has no run", i);
            if (!(ra.flags & ROARING_FLAG_FROZEN) && q->n_runs > q->capacity) WBAD("run container %d runs %d > capacity %d", i, q->n_runs, q->capacity);
            int last = -2;
            for (int j = 0; j < q->n_runs; j++) {
                int a = q->runs[j].value, l = q->runs[j].length;
                if (a <= last + 1) WBAD("run container %d: run %d overlaps, touches or precedes the previous one", i, j);
                if (a + l > 65535) WBAD("run container %d: run %d overflows", i, j);
                last = a + l;
            }
        } else WBAD("container %d has typecode %d", i, t);
    }
    return "";
}
u64 rawhash32(const roaring_bitmap_t *r) {
    const roaring_array_t &ra = r->high_low_container;
    u64 h = mix(ra.size, ra.flags);
    auto bytes = [&](const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; u64 k = h; while (n >= 8) { u64 x; memcpy(&x, b, 8); k = (k ^ x) * 0x9E3779B97F4A7C15ull; k ^= k >> 31; b += 8; n -= 8; } while (n--) k = (k ^ *b++) * 1099511628211ull; h = mix(h, k); };
    for (int i = 0; i < ra.size; i++) {
        uint8_t t = ra.typecodes[i];
        h = mix(h, ra.keys[i] * 8 + t);
        const container_t *c = unwrap(ra.containers[i], &t);
        h = mix(h, t);
        if (t == BITSET_CONTAINER_TYPE) { const bitset_container_t *b = (const bitset_container_t *)c; h = mix(h, b->cardinality); bytes(b->words, 8192); }
        else if (t == ARRAY_CONTAINER_TYPE) { const array_container_t *a = (const array_container_t *)c; h = mix(h, a->cardinality); bytes(a->array, 2 * (size_t)a->cardinality); }
        else if (t == RUN_CONTAINER_TYPE) { const run_container_t *q = (const run_container_t *)c; h = mix(h, q->n_runs); bytes(q->runs, 4 * (size_t)q->n_runs); }
    }
    return h;
}
void kinds32(const roaring_bitmap_t *r, u64 k[5]) {
    memset(k, 0, 5 * sizeof(u64));
    const roaring_array_t &ra = r->high_low_container;
    for (int i = 0; i < ra.size; i++) { uint8_t t = ra.typecodes[i]; if (t == SHARED_CONTAINER_TYPE) k[4]++; unwrap(ra.containers[i], &t); if (t < 4) k[t]++; }
}
std::vector<u64> run_counts32(const roaring_bitmap_t *r) {
    std::vector<u64> o; const roaring_array_t &ra = r->high_low_container;
    for (int i = 0; i < ra.size; i++) { uint8_t t = ra.typecodes[i]; const void *c = unwrap(ra.containers[i], &t); if (t == RUN_CONTAINER_TYPE) o.push_back((u64)((const run_container_t *)c)->n_runs); }
    return o;
}
std::string kinds_str(const roaring_bitmap_t *r) {
    u64 k[5]; kinds32(r, k);
    std::string s;
    if (k[2]) s += "A"; if (k[1]) s += "B"; if (k[3]) s += "R"; if (k[4]) s += "s";
    return s.empty() ? "-" : s;
}
void digest_image32(const roaring_bitmap_t *r) {
    if (!g_digest_on) return;
    size_t n = roaring_bitmap_portable_size_in_bytes(r);
    Buf bf(n);
    digest(roaring_bitmap_portable_serialize(r, bf.p));
    digest_bytes(bf.p, n);
}
