#include "eng32.hpp"
#include "eng64.hpp"
#include <roaring/art/art.h>
#include <roaring/containers/containers.h>
using namespace roaring::internal;
const char *PROP = "C05";
const char *RULE = "histories of every public operation on 32-bit (with and without copy-on-write) and 64-bit bitmaps, each result judged by an independent structural reader (key order, value order, run rules, cardinalities, 4096 rule) and by internal_validate; and, for the validator, bitmaps with one randomly chosen structural edit (container headers, values, runs, keys, tree nodes, serialized bytes), where internal_validate must agree with the independent rules in both directions; an evaluation is one judged bitmap, non-trivial when it has a container, distinct by bitmap bytes and operation or edit";
void harness_init() {}
typedef unsigned long long ull;

// ---- validator exactness, 32-bit ----------------------------------------------
struct Edit32 {
    Rng &r; roaring_bitmap_t *b; std::string what; std::function<void()> undo = [] {};
    template <class T, class V> void set(T *p, V v0) { T v = (T)v0, o = *p; *p = v; auto prev = undo; undo = [p, o, prev] { *p = o; prev(); }; }
    bool edit() {
        roaring_array_t &ra = b->high_low_container;
        if (ra.size == 0) return false;
        int i = (int)r.below(ra.size);
        uint8_t t = ra.typecodes[i]; container_t *c = ra.containers[i];
        uint8_t *tc = &ra.typecodes[i];
        if (t == SHARED_CONTAINER_TYPE) {
            shared_container_t *s = (shared_container_t *)c;
            if (r.chance(1, 6)) { what = "shared container nested"; set(&s->typecode, (uint8_t)SHARED_CONTAINER_TYPE); return true; }
            tc = &s->typecode; t = s->typecode; c = s->container;
        }
        if (r.chance(1, 8)) {
            if (ra.size < 2) return false;
            int j = (int)r.below(ra.size - 1);
            switch (r.below(3)) {
                case 0: { what = "adjacent keys swapped"; uint16_t x = ra.keys[j], y = ra.keys[j + 1]; set(&ra.keys[j], y); set(&ra.keys[j + 1], x); break; }
                case 1: what = "key repeated"; set(&ra.keys[j + 1], ra.keys[j]); break;
                default: what = "key rewritten"; set(&ra.keys[j], (uint16_t)r.next());
            }
            return true;
        }
        if (r.chance(1, 40)) { what = "container missing"; set(&ra.containers[i], (container_t *)nullptr); return true; }
        if (r.chance(1, 40)) { what = "typecode 0 or unknown"; set(tc, r.pick<uint8_t>({0, 5, 77, 255})); return true; }
        if (t == ARRAY_CONTAINER_TYPE) {
            array_container_t *a = (array_container_t *)c; int n = a->cardinality;
            switch (r.below(8)) {
                case 0: if (n < 2) return false; { what = "adjacent values swapped"; int j = (int)r.below(n - 1); if (r.coin()) j = n - 2; uint16_t x = a->array[j], y = a->array[j + 1]; set(&a->array[j], y); set(&a->array[j + 1], x); } return true;
                case 1: if (n < 2) return false; { what = "value repeated"; int j = r.coin() ? (int)r.below(n - 1) : r.coin() ? 0 : n - 2; set(&a->array[j + 1], a->array[j]); } return true;
                case 2: { what = "value rewritten"; int j = r.coin() ? (int)r.below(n) : n - 1; set(&a->array[j], (uint16_t)r.next()); } return true;
                case 3: what = "array emptied"; set(&a->cardinality, 0); return true;
                case 4: what = "array shortened"; set(&a->cardinality, (int32_t)r.in(1, n)); return true;
                case 5: what = "array cardinality beyond capacity"; set(&a->cardinality, a->capacity + (int32_t)r.in(1, 3)); return true;
                case 6: what = "array cardinality negative"; set(&a->cardinality, -(int32_t)r.in(1, 5)); return true;
                default: { what = "array longer than 4096"; uint16_t *big = (uint16_t *)malloc(2 * 65536); for (int j = 0; j < 65536; j++) big[j] = (uint16_t)j; int m = r.pick<int>({4096, 4097, 4097, 5000, 65536}); set(&a->array, big); set(&a->capacity, 65536); set(&a->cardinality, m); auto prev = undo; undo = [big, prev] { prev(); free(big); }; } return true;
            }
        }
        if (t == BITSET_CONTAINER_TYPE) {
            bitset_container_t *q = (bitset_container_t *)c;
            switch (r.below(5)) {
                case 0: what = "bitset cardinality off"; set(&q->cardinality, q->cardinality + r.pick<int>({1, -1, 64, -64})); return true;
                case 1: { what = "bit flipped"; int w = r.chance(1, 3) ? r.pick<int>({0, 1023}) : (int)r.below(1024); set(&q->words[w], q->words[w] ^ (1ull << r.below(64))); } return true;
                case 2: { what = "bit flipped, cardinality kept in step"; int w = (int)r.below(1024); u64 bit = 1ull << r.below(64); int d = (q->words[w] & bit) ? -1 : 1; set(&q->words[w], q->words[w] ^ bit); set(&q->cardinality, q->cardinality + d); } return true;
                case 3: case 4: { what = "bitset holding few values"; int n = r.pick<int>({0, 1, 4095, 4096, 4096, 4097}); u64 *nw = (u64 *)calloc(1024, 8); for (int j = 0; j < n; j++) nw[j / 64] |= 1ull << (j % 64); set(&q->words, (uint64_t *)nw); set(&q->cardinality, n); auto prev = undo; undo = [nw, prev] { prev(); free(nw); }; } return true;
            }
        }
        if (t == RUN_CONTAINER_TYPE) {
            run_container_t *q = (run_container_t *)c; int n = q->n_runs;
            switch (r.below(9)) {
                case 0: what = "no run"; set(&q->n_runs, 0); return true;
                case 1: what = "run count beyond capacity"; set(&q->n_runs, q->capacity + (int32_t)r.in(1, 3)); return true;
                case 2: what = "run count negative"; set(&q->n_runs, -1); return true;
                case 3: { what = "run length rewritten"; int j = r.coin() ? (int)r.below(n) : n - 1; set(&q->runs[j].length, r.coin() ? (uint16_t)r.next() : (uint16_t)(q->runs[j].length + r.pick<int>({1, -1}))); } return true;
                case 4: { what = "run start rewritten"; int j = (int)r.below(n); set(&q->runs[j].value, r.coin() ? (uint16_t)r.next() : (uint16_t)(q->runs[j].value + r.pick<int>({1, -1}))); } return true;
                case 5: if (n < 2) return false; { what = "run extended to touch the next"; int j = (int)r.below(n - 1); set(&q->runs[j].length, (uint16_t)(q->runs[j + 1].value - q->runs[j].value - 1)); } return true;
                case 6: if (n < 2) return false; { what = "run extended to overlap the next by one"; int j = (int)r.below(n - 1); set(&q->runs[j].length, (uint16_t)(q->runs[j + 1].value - q->runs[j].value)); } return true;
                case 7: if (n < 2) return false; { what = "runs swapped"; int j = (int)r.below(n - 1); rle16_t x = q->runs[j], y = q->runs[j + 1]; set(&q->runs[j], y); set(&q->runs[j + 1], x); } return true;
                default: { what = "last run past 65535"; rle16_t &z = q->runs[n - 1]; set(&z.length, (uint16_t)(65536 - z.value + r.below(2))); } return true;
            }
        }
        return false;
    }
};
static void judge_validator32(const roaring_bitmap_t *b, const char *what, u64 base) {
    std::string e = wellformed32(b);
    static const char marker[] = "x"; const char *why = marker;
    bool v = roaring_bitmap_internal_validate(b, &why); g_ops++;
    eval_sig(mix(mix(hstr(what), hstr(e.c_str())), base), true);
    cov2(e.empty() ? "validator/accepts" : "validator/rejects", what);
    if (v != e.empty()) fail("internal_validate returned %d after '%s'; the structure is %s%s", v, what, e.empty() ? "well formed" : "ill formed: ", e.c_str());
    if (!v) CHECK(why != marker && why && *why, "internal_validate rejects ('%s') without giving a reason", e.c_str());
    CHECK(roaring_bitmap_internal_validate(b, nullptr) == v, "internal_validate without a reason pointer answers differently");
}
static void validator32(Rng &r) {
    World w = gen_world32(r);
    Eng32 e(r, w); e.judge = 0; e.opname = "build";
    IS s = gen_set(r, w); Bm x = e.build(s); e.pool.push_back(x);
    roaring_bitmap_t *twin = nullptr;
    if (r.chance(1, 4)) { roaring_bitmap_set_copy_on_write(x.b, true); twin = roaring_bitmap_copy(x.b); }
    u64 base = rawhash32(x.b);
    for (int k = 0; k < 8; k++) {
        Edit32 ed{r, x.b};
        if (!ed.edit()) continue;
        LOG(" edit: %s", ed.what.c_str());
        judge_validator32(x.b, ed.what.c_str(), mix(base, k));
        ed.undo();
    }
    judge_validator32(x.b, "nothing (edits undone)", base);
    roaring_bitmap_free(twin);
}
// one edited byte field of a portable image, loaded without validation
static bool edit_image(Rng &r, Bytes &im, size_t off, std::string &what, bool *descriptor) {
    SpecLayout L; if (!spec_layout32(im.data() + off, im.size() - off, L) || L.n == 0) return false;
    *descriptor = false;
    SpecChunk &c = r.of(L.ch); unsigned char *d = im.data() + off + c.data_off;
    auto g = [&](unsigned char *p) { return (unsigned)(p[0] | p[1] << 8); };
    auto s = [&](unsigned char *p, unsigned v) { p[0] = (unsigned char)v; p[1] = (unsigned char)(v >> 8); };
    if (r.chance(1, 8) && L.n > 1) { what = "keys"; size_t j = r.below(L.n - 1); unsigned char *a = im.data() + off + L.ch[j].desc_off, *q = im.data() + off + L.ch[j + 1].desc_off; if (r.coin()) s(q, g(a)); else { unsigned x = g(a); s(a, g(q)); s(q, x); } return true; }
    if (c.kind == 2) {
        size_t n = c.card;
        switch (r.below(3)) {
            case 0: { if (n < 2) return false; what = "array values swapped"; size_t j = r.below(n - 1); unsigned x = g(d + 2 * j); s(d + 2 * j, g(d + 2 * j + 2)); s(d + 2 * j + 2, x); return true; }
            case 1: { if (n < 2) return false; what = "array value repeated"; size_t j = r.below(n - 1); s(d + 2 * j + 2, g(d + 2 * j)); return true; }
            default: { what = "array value rewritten"; size_t j = r.coin() ? r.below(n) : n - 1; s(d + 2 * j, (unsigned)r.below(65536)); return true; }
        }
    }
    if (c.kind == 1) { what = "bitset bit flipped"; d[r.below(8192)] ^= (unsigned char)(1 << r.below(8)); return true; }
    size_t n = c.nruns;
    switch (r.below(5)) {
        case 0: { what = "run length"; size_t j = r.below(n); s(d + 2 + 4 * j + 2, r.coin() ? (unsigned)r.below(65536) : g(d + 2 + 4 * j + 2) + 1); *descriptor = true; return true; }
        case 1: { what = "run start"; size_t j = r.below(n); s(d + 2 + 4 * j, r.coin() ? (unsigned)r.below(65536) : g(d + 2 + 4 * j) + 1); *descriptor = true; return true; }
        case 2: { if (n < 2) return false; what = "run touches next"; size_t j = r.below(n - 1); s(d + 2 + 4 * j + 2, g(d + 2 + 4 * j + 4) - g(d + 2 + 4 * j) - 1); *descriptor = true; return true; }
        case 3: { if (n < 2) return false; what = "run overlaps next"; size_t j = r.below(n - 1); s(d + 2 + 4 * j + 2, g(d + 2 + 4 * j + 4) - g(d + 2 + 4 * j)); *descriptor = true; return true; }
        default: { if (n < 2) return false; what = "runs swapped"; size_t j = r.below(n - 1); for (int q = 0; q < 4; q++) std::swap(d[2 + 4 * j + q], d[2 + 4 * j + 4 + q]); return true; }
    }
}
// run rules of an image, ignoring descriptor cardinalities of run chunks (readers do not record them)
static bool image_wellformed(const Bytes &im, size_t off) {
    SpecLayout L; if (!spec_layout32(im.data() + off, im.size() - off, L)) return false;
    Bytes fixed(im.begin() + off, im.begin() + off + L.end);
    for (auto &c : L.ch) if (c.kind == 3) { u64 n = 0; for (u64 j = 0; j < c.nruns; j++) { unsigned char *p = fixed.data() + c.data_off + 2 + 4 * j; n += (u64)(p[2] | p[3] << 8) + 1; } if (n == 0) return false; n -= 1; fixed[c.desc_off + 2] = (unsigned char)n; fixed[c.desc_off + 3] = (unsigned char)(n >> 8); if (n > 65535) return false; }
    IS o; size_t used; return spec_decode32(fixed.data(), fixed.size(), o, &used, true).empty();
}
static void validator_images(Rng &r) {
    bool six = r.coin();
    World w = six ? gen_world64(r) : gen_world32(r);
    IS s = gen_set(r, w); EncOpt o; o.run_mode = r.pick<int>({0, 1, 2, 3});
    Bytes im = six ? spec_encode64(s, o, &r) : spec_encode32(s, o, &r);
    for (int k = 0; k < 6; k++) {
        Bytes q = im; std::string what = "untouched"; bool desc = false; size_t off = 0; std::vector<size_t> offs;
        if (six) { off = 8; while (off + 4 < q.size()) { SpecLayout L; if (!spec_layout32(q.data() + off + 4, q.size() - off - 4, L)) break; offs.push_back(off + 4); off += 4 + L.end; } if (offs.empty()) return; off = r.of(offs); }
        else offs.push_back(0);
        if (!(k == 0 || edit_image(r, q, off, what, &desc))) continue;
        bool okay = image_wellformed(q, off);
        LOG(" image edit: %s (%s)", what.c_str(), okay ? "still well formed" : "ill formed");
        Buf bf(q.size()); memcpy(bf.p, q.data(), q.size());
        const char *why = nullptr; bool valid = false, loaded;
        if (six) { roaring64_bitmap_t *b = roaring64_bitmap_portable_deserialize_safe(bf.p, q.size()); loaded = b != nullptr; if (b) { valid = roaring64_bitmap_internal_validate(b, &why); if (valid != roaring64_bitmap_internal_validate(b, nullptr)) fail("internal_validate(64) without a reason pointer answers differently"); roaring64_bitmap_free(b); } }
        else { roaring_bitmap_t *b = roaring_bitmap_portable_deserialize_safe(bf.p, q.size()); loaded = b != nullptr; if (b) { valid = roaring_bitmap_internal_validate(b, &why); if (valid != wellformed32(b).empty()) fail("internal_validate returned %d on a deserialized image ('%s'); independent rules say: %s", valid, what.c_str(), wellformed32(b).c_str()); roaring_bitmap_free(b); } }
        g_ops++; cov2(six ? "image64" : "image32", (what + (okay ? "/ok" : loaded ? "/invalid" : "/unreadable")).c_str());
        u64 h = 0; for (unsigned char c : q) h = h * 1099511628211ull + c; eval_sig(h, true);
        if (okay) CHECK(valid, "%s image ('%s', well formed) is %s: %s", six ? "64-bit" : "32-bit", what.c_str(), loaded ? "rejected by internal_validate" : "unreadable", why ? why : "");
        else { CHECK(!valid, "internal_validate accepts a %s bitmap read from an ill-formed image ('%s')", six ? "64-bit" : "32-bit", what.c_str()); if (loaded) CHECK(why && *why, "internal_validate rejects without a reason ('%s')", what.c_str()); }
    }
}
// ---- validator exactness, radix tree --------------------------------------------
// Mirror of the tree node layouts.  It is trusted only for a bitmap on which it
// reproduces exactly the expected chunk keys; otherwise the tree part is skipped
// (and counted as skipped).
namespace mirror {
struct Leaf { uint8_t key[6]; u64 val; };
struct Inner { uint8_t psize; uint8_t prefix[5]; };
struct N4 { Inner base; uint8_t count; uint8_t keys[4]; u64 ch[4]; };
struct N16 { Inner base; uint8_t count; uint8_t keys[16]; u64 ch[16]; };
struct N48 { Inner base; uint8_t count; u64 avail; uint8_t keys[256]; u64 ch[48]; };
struct N256 { Inner base; uint16_t count; u64 ch[256]; };
struct Ref { int type; u64 idx; };
struct Tree {
    art_t *a; std::vector<u64> keys; bool ok = true;
    struct Node { int type; void *p; int depth; };
    std::vector<Node> inner, leaves;
    template <class T> T *at(u64 ref) { int t = (int)(ref & 0xFF); u64 i = ref >> 16; if (i >= a->capacities[t]) { ok = false; return nullptr; } return (T *)a->nodes[t] + i; }
    void walk(u64 ref, int depth) {
        if (!ok || depth > 6 || keys.size() > 200000) { ok = false; return; }
        int t = (int)(ref & 0xFF);
        if (t < 1 || t > 5) { ok = false; return; }
        if (t == 1) { Leaf *l = at<Leaf>(ref); if (!l) return; u64 k = 0; for (int i = 0; i < 6; i++) k = k << 8 | l->key[i]; keys.push_back(k); leaves.push_back({1, l, depth}); return; }
        Inner *in = t == 2 ? &at<N4>(ref)->base : t == 3 ? &at<N16>(ref)->base : t == 4 ? &at<N48>(ref)->base : &at<N256>(ref)->base;
        if (!ok) return;
        int d = depth + in->psize + 1;
        inner.push_back({t, in, depth});
        if (t == 2) { N4 *n = (N4 *)in; if (n->count > 4) { ok = false; return; } for (int i = 0; i < n->count; i++) walk(n->ch[i], d); }
        else if (t == 3) { N16 *n = (N16 *)in; if (n->count > 16) { ok = false; return; } for (int i = 0; i < n->count; i++) walk(n->ch[i], d); }
        else if (t == 4) { N48 *n = (N48 *)in; for (int i = 0; i < 256; i++) if (n->keys[i] < 48) walk(n->ch[n->keys[i]], d); }
        else { N256 *n = (N256 *)in; for (int i = 0; i < 256; i++) if (n->ch[i]) walk(n->ch[i], d); }
    }
};
}
static void validator_tree(Rng &r) {
    World w = gen_world64(r);
    IS s = gen_set(r, w);
    if (r.coin()) { World w2 = gen_world64(r); for (u64 k : w2.keys) s.add(k << 16 | r.below(65536)); }
    if (s.empty() || s.nint() > 20000 || s.card() > 400000) return;
    roaring64_bitmap_t *b = make64(s, (int)r.below(3), r); if (!b) return;
    art_t *a = (art_t *)b;  // first member of the bitmap
    mirror::Tree t; t.a = a;
    std::vector<u64> want; { u64 last = UINT64_MAX; for (auto &p : s.v) for (u64 k = p.first >> 16; k <= p.second >> 16; k++) if (k != last) { want.push_back(k); last = k; } }
    if (a->root) t.walk(a->root, 0);
    std::vector<u64> ks = t.keys;
    if (!t.ok || ks != want) { cov("validator-tree/skipped"); roaring64_bitmap_free(b); return; }
    auto judge = [&](const char *what, bool want_valid) {
        const char *why = nullptr; bool v = roaring64_bitmap_internal_validate(b, &why); g_ops++;
        u64 h = hstr(what); for (u64 k : want) h = mix(h, k); eval_sig(h, true); cov2("validator-tree", what); LOG(" tree edit: %s", what);
        CHECK(v == want_valid, "internal_validate(64) returned %d with '%s'", v, what);
        if (!v) CHECK(why && *why, "internal_validate(64) rejects ('%s') without a reason", what);
    };
    judge("untouched tree", true);
    for (int k = 0; k < 6; k++) {
        if (r.coin()) {
            auto &l = r.of(t.leaves); if (l.depth == 0) continue;
            mirror::Leaf *p = (mirror::Leaf *)l.p; int i = (int)r.below(std::min(l.depth, 6)); uint8_t o = p->key[i];
            p->key[i] ^= (uint8_t)r.in(1, 255); judge("leaf key off its path", false); p->key[i] = o;
        } else if (!t.inner.empty()) {
            auto &n = r.of(t.inner);
            if (n.type == 2 || n.type == 3) {
                uint8_t *keys = n.type == 2 ? ((mirror::N4 *)n.p)->keys : ((mirror::N16 *)n.p)->keys; u64 *ch = n.type == 2 ? ((mirror::N4 *)n.p)->ch : ((mirror::N16 *)n.p)->ch; uint8_t *cnt = n.type == 2 ? &((mirror::N4 *)n.p)->count : &((mirror::N16 *)n.p)->count;
                int j = (int)r.below(*cnt - 1);
                switch (r.below(4)) {
                    case 0: std::swap(keys[j], keys[j + 1]); std::swap(ch[j], ch[j + 1]); judge(n.type == 2 ? "children of a node4 out of order" : "children of a node16 out of order", false); std::swap(keys[j], keys[j + 1]); std::swap(ch[j], ch[j + 1]); break;
                    case 1: { uint8_t o = keys[j + 1]; keys[j + 1] = keys[j]; judge(n.type == 2 ? "node4 key repeated" : "node16 key repeated", false); keys[j + 1] = o; break; }
                    case 2: { u64 o = ch[j + 1]; ch[j + 1] = ch[j]; judge(n.type == 2 ? "node4 child repeated" : "node16 child repeated", false); ch[j + 1] = o; break; }
                    default: { uint8_t o = *cnt; *cnt = n.type == 2 ? (uint8_t)r.pick<int>({0, 1}) : (uint8_t)r.in(0, 4); judge("node with too few children", false); *cnt = o; }
                }
            } else if (n.type == 4) {
                mirror::N48 *q = (mirror::N48 *)n.p; int x = -1, y = -1; for (int i = 0; i < 256; i++) if (q->keys[i] < 48) { if (x < 0) x = i; else if (r.coin()) y = i; } if (y < 0) continue;
                if (r.coin()) { std::swap(q->keys[x], q->keys[y]); judge("children of a node48 exchanged", false); std::swap(q->keys[x], q->keys[y]); }
                else { u64 o = q->ch[q->keys[y]]; q->ch[q->keys[y]] = q->ch[q->keys[x]]; judge("node48 child repeated", false); q->ch[q->keys[y]] = o; }
            } else {
                mirror::N256 *q = (mirror::N256 *)n.p; int x = -1, y = -1; for (int i = 0; i < 256; i++) if (q->ch[i]) { if (x < 0) x = i; else if (r.coin()) y = i; } if (y < 0) continue;
                if (r.coin()) { std::swap(q->ch[x], q->ch[y]); judge("children of a node256 exchanged", false); std::swap(q->ch[x], q->ch[y]); }
                else { uint16_t o = q->count; q->count = (uint16_t)(o + r.pick<int>({1, -1})); judge("node256 count off", false); q->count = o; }
            }
        }
    }
    judge("untouched tree", true);
    roaring64_bitmap_free(b);
}
void run_case(Rng &r, u64 c) {
    switch (r.below(8)) {
        case 0: validator32(r); return;
        case 1: validator_images(r); return;
        case 2: validator_tree(r); return;
        case 3: case 4: {
            World w = gen_world64(r); w.wide = r.chance(1, 80);
            Eng64 e(r, w); e.judge = 0; e.wf = true; e.opname = "build";
            e.populate((unsigned)r.in(1, 3)); for (auto &x : e.pool) e.check_wf(x);
            unsigned n = w.wide ? 6 : (unsigned)r.in(8, 30);
            for (unsigned i = 0; i < n; i++) e.step(C_SET | C_UPD, 2);
            return;
        }
        default: {
            World w = gen_world32(r); w.cow = r.chance(1, 3); w.wide = r.chance(1, 60);
            Eng32 e(r, w); e.judge = 0; e.wf = true; e.toggle_cow = w.cow && r.coin(); e.opname = "build";
            e.populate((unsigned)r.in(1, 3)); for (auto &x : e.pool) e.check_wf(x);
            unsigned n = w.wide ? 8 : (unsigned)r.in(8, 40);
            for (unsigned i = 0; i < n; i++) { e.step(C_SET | C_UPD, 2); if (w.cow) for (auto &x : e.pool) e.check_wf(x); }
            if (c < 8) { std::string s; for (auto &x : e.pool) s += chunk_profile(x.m) + "; "; sample("case %llu final pool: %s", (ull)c, s.c_str()); }
        }
    }
}
