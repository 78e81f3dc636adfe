// bitset_t against a set of positions.
#include <algorithm>
#include "common.hpp"
#include "gen.hpp"
#include "printed.hpp"
#include <roaring/roaring.h>
typedef unsigned long long ull;
using namespace std;
const char *PROP = "C18";
const char *RULE = "a case keeps a pool of up to five bitsets (empty, never sized, one word to a few thousand words) with a set of positions each, and applies a random history of every bitset_t operation with sizes and distances around word boundaries, around the array size and far beyond it; after each operation contents, size and capacity of every bitset involved are read directly and compared, and every query is compared with the set; an evaluation is one operation or query, distinct by operation, contents, sizes and arguments";
void harness_init() { hooks_strict(true); }
struct Bs { bitset_t *b; IS m; };
static thread_local const char *OP = "";
static IS read(const bitset_t *b) {
    IS s; for (size_t i = 0; i < b->arraysize; i++) { u64 x = b->array[i]; if (x == ~0ull) { s.append(i * 64, i * 64 + 63); continue; } while (x) { int a = __builtin_ctzll(x); u64 y = x >> a; int l = ~y == 0 ? 64 : __builtin_ctzll(~y); s.append(i * 64 + a, i * 64 + a + l - 1); x = a + l >= 64 ? 0 : x >> (a + l) << (a + l); } }
    return s;
}
static void shape(const Bs &x) {
    CHECK(x.b->arraysize <= x.b->capacity, "%s: array size %zu exceeds capacity %zu", OP, x.b->arraysize, x.b->capacity);
    if (hooks_installed() && x.b->capacity) CHECK(hooks_usable(x.b->array) >= 8 * x.b->capacity, "%s: %zu words announced, %llu bytes allocated", OP, x.b->capacity, (ull)hooks_usable(x.b->array));
}
static void settle(Bs &x, const IS &e) {
    shape(x); IS g = read(x.b); digest(g.hash()); digest(x.b->arraysize); CHECK(g == e, "%s: %s", OP, diff_str(e, g).c_str()); x.m = e;
}
static u64 hs(const Bs &x) { return mix(mix(x.m.hash(), x.b->arraysize), x.b->capacity); }
static void ev(const char *q, u64 h, bool nt) { g_ops++; cov(q); eval_sig(mix(hstr(q), h), nt); }
static size_t gen_pos(Rng &r, const Bs &x) {
    size_t n = x.b->arraysize * 64;
    switch (r.below(7)) {
        case 0: return r.below(n + 1);
        case 1: return n + r.below(3);
        case 2: return n ? n - 1 - r.below(min<size_t>(n, 3)) : 0;
        case 3: { u64 k = r.below(x.b->arraysize + 3); return k * 64 + r.pick<u64>({0, 1, 62, 63}); }
        case 4: if (!x.m.empty()) { auto &p = x.m.v[r.below(x.m.v.size())]; u64 v = r.coin() ? p.first : p.second; return v + r.below(3) - (v ? r.below(2) : 0); } return r.below(64);
        case 5: return r.below(n + 700);
        default: return r.below(20000);
    }
}
static size_t gen_shift(Rng &r, const Bs &x) {
    size_t n = x.b->arraysize;
    switch (r.below(7)) {
        case 0: return r.below(64); case 1: return 64 * r.below(n + 3); case 2: return 64 * r.below(n + 3) + r.below(64); case 3: return 64 * n + r.pick<size_t>({0, 1, 63, 64, 65}); case 4: return n ? 64 * n - r.below(66) % (64 * n) : 0; case 5: return r.pick<size_t>({0, 1, 63, 64, 65, 127, 128}); default: return r.below(3000);
    }
}
static bitset_t *make(Rng &r, const IS &s) {
    bitset_t *b = r.coin() ? bitset_create() : bitset_create_with_capacity(r.coin() ? 0 : r.below(5000));
    if (!b) fail("creating a bitset returned NULL");
    for (auto &p : s.v) for (u64 v = p.first; v <= p.second; v++) bitset_set(b, v);
    return b;
}
static IS gen(Rng &r) {
    IS s; size_t lim = r.pick<size_t>({1, 64, 65, 128, 500, 500, 3000, 3000, 30000});
    if (r.chance(1, 8)) return s;
    unsigned n = (unsigned)r.below(30); for (unsigned i = 0; i < n; i++) { u64 a = r.below(lim), l = r.chance(1, 3) ? r.below(200) : r.below(3); s.add(a, min<u64>(a + l, lim)); }
    return s;
}
struct Fe { vector<u64> got; size_t stop; };
static bool fe_cb(size_t v, void *p) { Fe *f = (Fe *)p; f->got.push_back(v); return f->got.size() != f->stop; }
static void queries(Rng &r, const Bs &x) {
    u64 h = hs(x); bool nt = !x.m.empty();
    OP = "query";
    ev("count", h, nt); CHECK((u128)bitset_count(x.b) == x.m.card(), "bitset_count: %zu", bitset_count(x.b));
    ev("empty", h, nt); CHECK(bitset_empty(x.b) == x.m.empty(), "bitset_empty");
    ev("minimum", h, nt); CHECK(bitset_minimum(x.b) == (x.m.empty() ? SIZE_MAX : x.m.min()), "bitset_minimum: %zu", bitset_minimum(x.b));
    ev("maximum", h, nt); CHECK(bitset_maximum(x.b) == (x.m.empty() ? 0 : x.m.max()), "bitset_maximum: %zu", bitset_maximum(x.b));
    CHECK(bitset_size_in_words(x.b) == x.b->arraysize && bitset_size_in_bytes(x.b) == 8 * x.b->arraysize && bitset_size_in_bits(x.b) == 64 * x.b->arraysize, "bitset sizes");
    for (int i = 0; i < 5; i++) {
        size_t p = r.chance(1, 20) ? (size_t)r.pick<u64>({UINT64_MAX, UINT64_MAX - 63, 1ull << 63, 1ull << 32}) : gen_pos(r, x);
        ev("get", mix(h, p), nt); CHECK(bitset_get(x.b, p) == x.m.contains(p), "bitset_get(%zu)", p);
        size_t q = p; u64 n; bool has = x.m.next_ge(p, &n), got = bitset_next_set_bit(x.b, &q); ev("next_set_bit", mix(h, p), nt);
        CHECK(got == has && (!has || q == n), "bitset_next_set_bit from %zu: %d at %zu", p, got, q);
        size_t cap = r.pick<size_t>({0, 1, 2, 7, 64, 65, 256, 1000}); Buf out(8 * max<size_t>(cap, 1)); size_t st = p, k = bitset_next_set_bits(x.b, (size_t *)out.p, cap, &st); ev("next_set_bits", mix(mix(h, p), cap), nt);
        vector<u64> want; if (has) { u128 rk = p ? x.m.rank(p - 1) : 0; x.m.values_from(rk, cap, want); }
        CHECK(k == want.size(), "bitset_next_set_bits from %zu, capacity %zu: %zu values instead of %zu", p, cap, k, want.size());
        for (size_t i = 0; i < k; i++) CHECK(((size_t *)out.p)[i] == want[i], "bitset_next_set_bits from %zu: value %zu", p, i);
        CHECK(st == (k ? want.back() : p), "bitset_next_set_bits leaves startfrom at %zu", st);
    }
    { Fe f; f.stop = r.coin() ? 0 : r.in(1, 40); bool done = bitset_for_each(x.b, fe_cb, &f); ev("for_each", mix(h, f.stop), nt); vector<u64> want; x.m.values_from(0, f.stop ? f.stop : (size_t)x.m.card(), want); CHECK(f.got == want, "bitset_for_each visited %zu values", f.got.size()); CHECK(done == !(f.stop && want.size() == f.stop), "bitset_for_each returned %d", done); }
    if (x.m.card() < 3000) { vector<u64> got; size_t buf[37]; size_t n = 0; for (size_t s = 0; (n = bitset_next_set_bits(x.b, buf, 37, &s)) > 0; s++) got.insert(got.end(), buf, buf + n); vector<u64> w; x.m.values_from(0, (size_t)x.m.card(), w); CHECK(got == w, "documented next_set_bits loop visits other values"); got.clear(); for (size_t i = 0; bitset_next_set_bit(x.b, &i); i++) got.push_back(i); CHECK(got == w, "documented next_set_bit loop visits other values"); ev("loops", h, nt); }
    if (x.m.card() < 500 && r.below(20) == 0) {  // "{a, b, }" : the members in order
        std::string s = printed([&] { bitset_print(x.b); }); vector<u64> got, w; x.m.values_from(0, (size_t)x.m.card(), w); ev("print", h, nt);
        for (const char *p = s.c_str(); *p;) if (*p >= '0' && *p <= '9') { char *e; got.push_back(strtoull(p, &e, 10)); p = e; } else p++;
        CHECK(s == "?" || (got == w && !s.empty() && s[0] == '{' && s.back() == '}'), "bitset_print printed %s", s.substr(0, 200).c_str());
    }
    shape(x); CHECK(read(x.b) == x.m, "a query changed a bitset");
}
static void pairq(Rng &, const Bs &x, const Bs &y) {
    u64 h = mix(hs(x), hs(y)); bool nt = !x.m.empty() || !y.m.empty();
    IS a = x.m & y.m, o = x.m | y.m, d = x.m - y.m, s = x.m ^ y.m;
    ev("union_count", h, nt); CHECK((u128)bitset_union_count(x.b, y.b) == o.card(), "bitset_union_count %zu", bitset_union_count(x.b, y.b));
    ev("intersection_count", h, nt); CHECK((u128)bitset_intersection_count(x.b, y.b) == a.card(), "bitset_intersection_count");
    ev("difference_count", h, nt); CHECK((u128)bitset_difference_count(x.b, y.b) == d.card(), "bitset_difference_count");
    ev("symmetric_difference_count", h, nt); CHECK((u128)bitset_symmetric_difference_count(x.b, y.b) == s.card(), "bitset_symmetric_difference_count");
    ev("disjoint", h, nt); CHECK(bitsets_disjoint(x.b, y.b) == a.empty(), "bitsets_disjoint"); CHECK(bitsets_intersect(x.b, y.b) == !a.empty(), "bitsets_intersect");
    ev("contains_all", h, nt); CHECK(bitset_contains_all(x.b, y.b) == y.m.subset_of(x.m), "bitset_contains_all %s in %s", y.m.str().c_str(), x.m.str().c_str());
    CHECK(read(x.b) == x.m && read(y.b) == y.m, "a pair query changed a bitset");
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    {
        vector<Bs> pool;
        auto add = [&](bitset_t *b, const IS &m) { Bs x{b, m}; if (!b) fail("%s returned NULL", OP); settle(x, m); if (pool.size() < 5) pool.push_back(x); else { size_t i = r.below(5); bitset_free(pool[i].b); pool[i] = x; } };
        unsigned np = (unsigned)r.in(1, 3); for (unsigned i = 0; i < np; i++) { IS s = gen(r); OP = "build"; add(make(r, s), s); }
        unsigned n = (unsigned)r.in(15, 60);
        for (unsigned i = 0; i < n; i++) {
            size_t k = r.below(pool.size()); Bs &x = pool[k]; IS e = x.m; u64 h = hs(x); bool nt = !e.empty(); size_t as = x.b->arraysize;
            if (as > 8000) { LOG(" #%zu freed (large)", k); bitset_free(x.b); pool[k] = pool.back(); pool.pop_back(); OP = "create"; add(bitset_create(), IS()); continue; }
            switch (r.below(18)) {
                case 0: case 1: { OP = "bitset_set"; size_t p = gen_pos(r, x); LOG(" #%zu set %zu (words %zu)", k, p, as); bitset_set(x.b, p); e.add(p); settle(x, e); h = mix(h, p); CHECK(x.b->arraysize * 64 > p, "bitset_set(%zu) leaves %zu words", p, x.b->arraysize); CHECK(x.b->arraysize >= as, "bitset_set shrank"); break; }
                case 2: case 3: { OP = "bitset_set_to_value"; size_t p = gen_pos(r, x); bool f = r.coin(); LOG(" #%zu set_to_value %zu %d", k, p, f); bitset_set_to_value(x.b, p, f); if (f) e.add(p); else e.remove(p); settle(x, e); h = mix(h, p * 2 + f); break; }
                case 4: OP = "bitset_clear"; LOG(" #%zu clear", k); bitset_clear(x.b); settle(x, IS()); CHECK(x.b->arraysize == as, "clear changed the size"); break;
                case 5: OP = "bitset_fill"; LOG(" #%zu fill %zu", k, as); bitset_fill(x.b); e.clear(); if (as) e.add(0, as * 64 - 1); settle(x, e); CHECK(x.b->arraysize == as, "fill changed the size"); break;
                case 6: { OP = "bitset_copy"; LOG(" #%zu copy", k); bitset_t *q = bitset_copy(x.b); if (q) CHECK(q->arraysize == as, "a copy has %zu words instead of %zu", q->arraysize, as); settle(x, e); add(q, e); break; }
                case 7: {
                    OP = "bitset_resize"; size_t m = r.pick<size_t>({0, as, as + 1, as ? as - 1 : 0, (size_t)r.below(as + 5), (size_t)r.below(200), x.b->capacity, x.b->capacity + 1}); bool pad = m <= as ? r.coin() : r.chance(4, 5);
                    LOG(" #%zu resize %zu -> %zu pad %d", k, as, m, pad); bool ok = bitset_resize(x.b, m, pad); CHECK(ok, "bitset_resize to %zu words failed", m); CHECK(x.b->arraysize == m, "bitset_resize to %zu leaves %zu", m, x.b->arraysize); h = mix(h, m * 2 + pad);
                    if (m == 0) e.clear(); else if (m < as) e = e.restrict_to(0, m * 64 - 1);
                    if (!pad && m > as) { shape(x); for (size_t j = as; j < m; j++) x.b->array[j] = 0; if (as) CHECK(read(x.b).restrict_to(0, as * 64 - 1) == e, "bitset_resize changed the old part"); }
                    settle(x, e); break;
                }
                case 8: { OP = "bitset_grow"; size_t m = r.pick<size_t>({as, as + 1, as + (size_t)r.below(70), x.b->capacity, x.b->capacity + 1, as ? as - 1 : 0}); LOG(" #%zu grow %zu -> %zu", k, as, m); bool ok = bitset_grow(x.b, m); CHECK(ok == (m >= as), "bitset_grow %zu to %zu returned %d", as, m, ok); CHECK(x.b->arraysize == (m >= as ? m : as), "bitset_grow leaves %zu words", x.b->arraysize); settle(x, e); h = mix(h, m); break; }
                case 9: { OP = "bitset_trim"; size_t cap = x.b->capacity; LOG(" #%zu trim %zu of %zu", k, as, cap); bool ok = bitset_trim(x.b); CHECK(ok, "bitset_trim failed"); CHECK(x.b->capacity <= cap && x.b->arraysize <= as, "bitset_trim grew"); size_t need = e.empty() ? 0 : (size_t)(e.max() / 64 + 1); CHECK(x.b->arraysize == need && x.b->capacity == need, "bitset_trim keeps %zu words and room for %zu where the last member needs %zu", x.b->arraysize, x.b->capacity, need); settle(x, e); break; }
                case 10: case 11: {
                    OP = "bitset_shift_left"; size_t s = gen_shift(r, x); LOG(" #%zu shift_left %zu (words %zu)", k, s, as); bitset_shift_left(x.b, s); e = e.shift((i128)s, 0, UINT64_MAX); settle(x, e); h = mix(h, s); break; }
                case 12: case 13: { OP = "bitset_shift_right"; size_t s = r.chance(1, 12) ? (size_t)r.pick<u64>({UINT64_MAX, 1ull << 63, 1ull << 40}) : gen_shift(r, x); LOG(" #%zu shift_right %zu (words %zu)", k, s, as); bitset_shift_right(x.b, s); e = e.shift(-(i128)s, 0, UINT64_MAX); settle(x, e); h = mix(h, s); break; }
                case 14: case 15: {
                    if (pool.size() < 2) { IS s = gen(r); OP = "build"; add(make(r, s), s); break; }
                    size_t j = r.below(pool.size() - 1); if (j >= k) j++; Bs &y = pool[j]; h = mix(h, hs(y)); LOG(" #%zu op #%zu (words %zu, %zu)", k, j, as, y.b->arraysize); size_t ys = y.b->arraysize;
                    switch (r.below(4)) {
                        case 0: OP = "bitset_inplace_union"; CHECK(bitset_inplace_union(x.b, y.b), "union failed"); e = e | y.m; break;
                        case 1: OP = "bitset_inplace_intersection"; bitset_inplace_intersection(x.b, y.b); e = e & y.m; break;
                        case 2: OP = "bitset_inplace_difference"; bitset_inplace_difference(x.b, y.b); e = e - y.m; break;
                        default: OP = "bitset_inplace_symmetric_difference"; CHECK(bitset_inplace_symmetric_difference(x.b, y.b), "symmetric difference failed"); e = e ^ y.m;
                    }
                    settle(x, e); IS ym = y.m; settle(y, ym); CHECK(y.b->arraysize == ys, "%s resized its const operand", OP); break;
                }
                case 16: { OP = "bitset_create_with_capacity"; size_t m = r.pick<size_t>({0, 1, 63, 64, 65, (size_t)r.below(10000)}); LOG(" create_with_capacity %zu", m); bitset_t *q = bitset_create_with_capacity(m); if (!q) fail("create_with_capacity(%zu) returned NULL", m); CHECK(q->arraysize * 64 >= m && q->arraysize * 64 < m + 64, "create_with_capacity(%zu) gives %zu words", m, q->arraysize); h = mix(h, m); add(q, IS()); break; }
                default: { OP = "free and rebuild"; LOG(" #%zu rebuilt", k); bitset_free(x.b); IS s = r.coin() ? gen(r) : IS(); x.b = make(r, s); settle(x, s); }
            }
            ev(OP, h, nt);
            Bs &q = pool[r.below(pool.size())]; if (r.coin()) queries(r, q);
            if (pool.size() > 1) { size_t a = r.below(pool.size()), b = r.below(pool.size()); if (a != b) pairq(r, pool[a], pool[b]); }
        }
        if (c < 4) { string s; for (auto &x : pool) { char q[64]; snprintf(q, 64, "%zu/%zu words ", x.b->arraysize, x.b->capacity); s += q + x.m.str(4) + "; "; } sample("case %llu: %s", (ull)c, s.c_str()); }
        for (auto &x : pool) { OP = "end"; IS m = x.m; settle(x, m); bitset_free(x.b); }
        bitset_free(nullptr);
    }
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: bitset blocks left allocated");
}
