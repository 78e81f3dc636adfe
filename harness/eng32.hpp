// Driver of 32-bit bitmap histories: a pool of bitmaps, each with its model,
// to which random operations are applied.  Every operation knows the property
// family it belongs to; only the families selected in `judge` are judged, the
// others only drive the state (their model is re-read from the bitmap).
#pragma once
#include <algorithm>
#include <functional>
#include "common.hpp"
#include "gen.hpp"
#include "read32.hpp"
#include "spec.hpp"

#ifndef ENG_CATS
#define ENG_CATS
enum Cat { C_SET = 1, C_UPD = 2, C_OPT = 4, C_SER = 8, C_COPY = 16, C_ANY = 31 };
#endif

struct Bm {
    roaring_bitmap_t *b = nullptr;
    IS m;
};

struct Eng32 {
    Rng &r;
    World w;
    std::vector<Bm> pool;
    int judge = C_ANY;      // families judged
    bool wf = false;        // judge well-formedness after each operation
    bool all = false;       // compare every pool member after each operation
    bool consts = true;     // compare const operands after judged set operations
    bool toggle_cow = false;
    size_t max_pool = 6;
    std::string opname;
    int cur_cat = C_ANY;
    unsigned adopt_num = 1, adopt_den = 3;  // chance that a fresh result joins the pool
    unsigned rebuild = 8;                   // one step in `rebuild` starts from a new bitmap

    struct Op { const char *name; int cat; unsigned weight; void (Eng32::*fn)(); };

    Eng32(Rng &rr, const World &ww) : r(rr), w(ww) {}
    ~Eng32() { for (auto &x : pool) roaring_bitmap_free(x.b); }
    Eng32(const Eng32 &) = delete;

    // ---- building ---------------------------------------------------------
    static void set_cow(roaring_bitmap_t *b, bool cow) { roaring_bitmap_set_copy_on_write(b, cow); }
    roaring_bitmap_t *build_how(const IS &s, int how) {
        roaring_bitmap_t *b = nullptr;
        bool huge = s.card() > 300000 || s.nint() > 40000;
        if (huge && (how == 1 || how == 4 || how == 5)) how = 0;
        if (s.nint() > 3000 && (how == 2 || how == 3)) how = 0;
        switch (how) {
            case 1: case 4: case 5: {
                std::vector<uint32_t> v;
                for (auto &p : s.v) for (u64 x = p.first; x <= p.second; x++) v.push_back((uint32_t)x);
                if (how == 5) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
                if (how == 4) {
                    b = roaring_bitmap_create();
                    roaring_bulk_context_t ctx; memset(&ctx, 0, sizeof ctx);
                    for (uint32_t x : v) roaring_bitmap_add_bulk(b, &ctx, x);
                } else if (r.coin()) b = roaring_bitmap_of_ptr(v.size(), v.data());
                else { b = roaring_bitmap_create_with_capacity((uint32_t)r.below(10)); if (!v.empty()) roaring_bitmap_add_many(b, v.size(), v.data()); }
                break;
            }
            case 2:
                if (r.chance(1, 6)) {  // in memory of the caller, released by clearing
                    roaring_bitmap_t st; memset(&st, 0xEE, sizeof st);
                    if (r.coin()) roaring_bitmap_init_cleared(&st); else if (!roaring_bitmap_init_with_capacity(&st, (uint32_t)r.below(20))) fail("init_with_capacity failed");
                    for (auto &p : s.v) roaring_bitmap_add_range_closed(&st, (uint32_t)p.first, (uint32_t)p.second);
                    b = roaring_bitmap_copy(&st); roaring_bitmap_clear(&st); break;
                }
                b = roaring_bitmap_create();
                for (auto &p : s.v) roaring_bitmap_add_range_closed(b, (uint32_t)p.first, (uint32_t)p.second);
                break;
            case 3: {
                b = roaring_bitmap_create();
                if (s.empty()) break;
                roaring_bitmap_add_range_closed(b, (uint32_t)s.min(), (uint32_t)s.max());
                for (size_t i = 0; i + 1 < s.v.size(); i++) roaring_bitmap_remove_range_closed(b, (uint32_t)s.v[i].second + 1, (uint32_t)s.v[i + 1].first - 1);
                break;
            }
            default: {
                EncOpt o; o.run_mode = (int)r.pick<int>({0, 1, 2, 2, 3});
                Bytes e = spec_encode32(s, o, &r);
                Buf bf(e.size()); memcpy(bf.p, e.data(), e.size());
                b = roaring_bitmap_portable_deserialize_safe(bf.p, e.size());
                if (!b) { if (judge & C_SER) fail("portable_deserialize_safe rejected a conforming encoding"); b = roaring_bitmap_create(); for (auto &p : s.v) roaring_bitmap_add_range_closed(b, (uint32_t)p.first, (uint32_t)p.second); }
            }
        }
        if (!b) fail("building a bitmap returned NULL");
        return b;
    }
    // returns a pool entry whose model is what the bitmap really holds
    Bm build(const IS &s, int how = -1) {
        Bm x;
        if (how < 0) how = (int)r.below(8);
        x.b = build_how(s, how);
        if (r.chance(1, 4)) roaring_bitmap_run_optimize(x.b);
        else if (r.chance(1, 8) && s.card() <= MAX_EXPAND) roaring_bitmap_remove_run_compression(x.b);
        if (r.chance(1, 8)) roaring_bitmap_shrink_to_fit(x.b);
        if (s.card() > MAX_EXPAND && r.coin()) {  // some chunks of a very large set in array or bitmap form
            for (unsigned i = 0, n = (unsigned)r.in(1, 3); i < n; i++) {
                u64 k = r.coin() ? s.max() >> 16 : gen_value(r, w, s) >> 16;
                roaring_bitmap_remove_range(x.b, k << 16, (k + 1) << 16);
                for (auto &p : s.restrict_to(k << 16, k << 16 | 0xFFFF).v) for (u64 v = p.first; v <= p.second; v++) roaring_bitmap_add(x.b, (uint32_t)v);
            }
        }
        if (w.cow) set_cow(x.b, true);
        IS got = read32(x.b);
        if (got != s) {
            if (judge & C_UPD) fail("a bitmap built by method %d does not hold the intended set: %s", how, diff_str(s, got).c_str());
            cov("resync/build");
            x.m = got;
        } else x.m = s;
        LOG("  build how=%d kinds=%s set=%s", how, kinds_str(x.b).c_str(), chunk_profile(x.m).c_str());
        return x;
    }
    void populate(unsigned n) {
        IS last;
        for (unsigned i = 0; i < n; i++) {
            IS s = (i && r.coin()) ? derive_set(r, w, last) : gen_set(r, w);
            last = s;
            pool.push_back(build(s));
            if (w.cow && r.chance(1, 2)) {  // make some containers shared
                Bm c; c.b = roaring_bitmap_copy(pool.back().b); c.m = pool.back().m;
                pool.push_back(c);
            }
        }
    }
    // ---- verdicts ---------------------------------------------------------
    void settle(Bm &x, const IS &exp, int cat) {
        std::string mal;
        IS got = read32(x.b, &mal);
        count_check();
        if (judge & cat) {
            if (!mal.empty()) fail("%s: the bitmap is left malformed (%s)", opname.c_str(), mal.c_str());
            if (got != exp) fail("%s: wrong contents: %s", opname.c_str(), diff_str(exp, got).c_str());
            u64 c = roaring_bitmap_get_cardinality(x.b);
            if ((u128)c != exp.card()) fail("%s: contents right but cardinality reports %llu instead of %llu", opname.c_str(), (unsigned long long)c, (unsigned long long)exp.card());
        } else if (got != exp) cov("resync/op");
        if (wf) check_wf(x);
        digest(got.hash()); digest_image32(x.b);
        x.m = got;
    }
    void check_wf(Bm &x) {
        std::string e = wellformed32(x.b);
        if (!judge) { u64 k[5]; kinds32(x.b, k); eval_sig(mix(hstr(opname.c_str()), rawhash32(x.b)), !x.m.empty()); cov2("wf32", (opname + "/" + kinds_str(x.b)).c_str()); }
        if (!e.empty()) fail("%s: leaves an ill-formed bitmap: %s", opname.c_str(), e.c_str());
        const char *why = nullptr;
        CHECK(roaring_bitmap_internal_validate(x.b, &why), "%s: internal_validate rejects a well-formed bitmap: %s", opname.c_str(), why ? why : "(no reason)");
    }
    void same(Bm &x, const char *what) {  // an untouched bitmap
        std::string mal;
        IS got = read32(x.b, &mal);
        count_check();
        if (got != x.m || !mal.empty()) {
            if (judge) fail("%s: %s changed: %s %s", opname.c_str(), what, diff_str(x.m, got).c_str(), mal.c_str());
            x.m = got;
        }
    }
    void konst(const Bm &x) {
        if (!consts) return;
        std::string mal;
        IS got = read32(x.b, &mal);
        count_check();
        if (got != x.m || !mal.empty()) fail("%s: const operand changed: %s %s", opname.c_str(), diff_str(x.m, got).c_str(), mal.c_str());
    }
    void sig(u64 a, const Bm *x, const Bm *y = nullptr, u64 arg = 0) {
        u64 h = mix(hstr(opname.c_str()), arg);
        bool nt = false;
        if (x) { h = mix(h, x->m.hash()); nt |= !x->m.empty(); u64 k[5]; kinds32(x->b, k); for (int i = 1; i < 5; i++) h = mix(h, k[i]); }
        if (y) { h = mix(h, y->m.hash()); u64 k[5]; kinds32(y->b, k); for (int i = 1; i < 5; i++) h = mix(h, k[i]); }
        ev(mix(h, a), nt);
    }
    void ev(u64 h, bool nt) { if (cur_cat & judge) eval_sig(h, nt); }
    void covpair(const Bm &x, const Bm &y) {
        static const char *const K[] = {"?", "B", "A", "R"};
        // container-type pairs that actually meet
        const roaring_array_t &a = x.b->high_low_container, &b = y.b->high_low_container;
        int i = 0, j = 0, n = 0;
        while (i < a.size && j < b.size && n < 64) {
            if (a.keys[i] < b.keys[j]) i++;
            else if (a.keys[i] > b.keys[j]) j++;
            else {
                int ta = type_of(x.b, i), tb = type_of(y.b, j);
                char k[32]; snprintf(k, sizeof k, "%s%s%s%s", K[ta & 3], K[tb & 3], a.typecodes[i] == 4 ? "s" : "", b.typecodes[j] == 4 ? "s" : "");
                cov2(opname.c_str(), k);
                i++; j++; n++;
            }
        }
    }
    static int type_of(const roaring_bitmap_t *b, int i);
    // ---- picking ----------------------------------------------------------
    int fi = -1, fj = -1;   // operands forced by op_aimed
    size_t pick() { if (fi >= 0) return (size_t)fi; return r.below(pool.size()); }
    size_t other(size_t i) { if (fj >= 0) return (size_t)fj; if (pool.size() < 2) { pool.push_back(build(derive_set(r, w, pool[i].m))); return pool.size() - 1; } size_t j = r.below(pool.size() - 1); return j >= i ? j + 1 : j; }
    void adopt(Bm x) {  // new bitmap enters the pool
        set_cow(x.b, w.cow);
        if (pool.size() < max_pool) { pool.push_back(std::move(x)); return; }
        if (fi >= 0) { roaring_bitmap_free(x.b); return; }
        size_t i = pick();
        roaring_bitmap_free(pool[i].b);
        pool[i] = std::move(x);
    }
    void fresh(roaring_bitmap_t *b, const IS &exp, int cat) {
        if (!b) fail("%s returned NULL", opname.c_str());
        Bm x; x.b = b; x.m = exp;
        settle(x, exp, cat);
        if (r.chance(adopt_num, adopt_den) && x.m.nint() < 60000) adopt(x); else roaring_bitmap_free(b);
    }
    IS all_guide() { return pool[pick()].m; }
    uint32_t val(const IS &g) { return (uint32_t)gen_value(r, w, g); }
    std::vector<uint32_t> vals(const IS &g, size_t maxn = 5000) {
        std::vector<uint32_t> v;
        switch (r.below(8)) {
            case 0: break;
            case 1: { size_t n = r.below(12); for (size_t i = 0; i < n; i++) v.push_back(val(g)); break; }
            case 2: case 3: {
                u64 k = r.of(w.keys); IS c = gen_chunk(r);
                for (auto &p : c.v) for (u64 x = p.first; x <= p.second && v.size() < maxn; x++) v.push_back((uint32_t)((k << 16) | x));
                break;
            }
            case 4: { uint32_t a = val(g); size_t n = r.in(1, 300); for (size_t i = 0; i < n; i++) v.push_back(a + (uint32_t)i); break; }  // may wrap: just values
            case 5: { size_t n = r.in(1, 500); std::vector<u64> t; u64 c = (u64)std::min<u128>(g.card(), (u128)1 << 40); if (c) { g.values_from(r.below(c), n, t); for (u64 x : t) v.push_back((uint32_t)x); } break; }
            case 6: { size_t n = r.in(1, 60); for (size_t i = 0; i < n; i++) { uint32_t x = val(g); v.push_back(x); if (r.coin()) v.push_back(x); if (r.coin()) v.push_back(x ^ 1); } break; }
            default: { // one whole chunk of the guide, then something else
                if (!g.empty()) { u64 k = r.of(const_cast<std::vector<IS::Iv> &>(g.v)).first >> 16; IS c = g.restrict_to(k << 16, (k << 16) | 0xFFFF); for (auto &p : c.v) for (u64 x = p.first; x <= p.second && v.size() < maxn; x++) v.push_back((uint32_t)x); v.push_back(val(g)); v.push_back(val(g)); }
            }
        }
        int ord = (int)r.below(4);
        if (ord == 0) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        else if (ord == 1) std::reverse(v.begin(), v.end());
        else if (ord == 2) std::sort(v.begin(), v.end());
        return v;
    }
    // half-open range, occasionally reaching past 2^32 or empty or inverted
    void hrange(const IS &g, u64 *lo, u64 *hi) {
        u64 a, b; gen_range(r, w, g, &a, &b);
        *lo = a; *hi = b + 1;
        switch (r.below(16)) {
            case 0: *hi = *lo; break;
            case 1: std::swap(*lo, *hi); break;
            case 2: if (w.wide || *lo > 0xFFFFFFFFull - 40 * 65536) *hi = r.pick<u64>({1ull << 32, (1ull << 32) + 1, (1ull << 32) + 70000, (1ull << 33) + 5, 1ull << 63, UINT64_MAX}); break;
            case 3: *lo = r.pick<u64>({1ull << 32, (1ull << 32) + 1, (1ull << 33), UINT64_MAX - 1}); *hi = *lo + r.in(0, 1) * r.below(1000); break;
            case 4: *hi = 1ull << 32; *lo = *hi - 1 - r.below(3 * 65536); break;
            case 5: *hi = (1ull << 32) + 1 + r.below(100000); *lo = (1ull << 32) - 1 - r.below(3 * 65536); break;
            default: break;
        }
    }
    static IS clamp_range(u64 lo, u64 hi) { IS s; if (hi > lo && lo <= 0xFFFFFFFFull) s.add(lo, std::min<u64>(hi - 1, 0xFFFFFFFFull)); return s; }
    // ---- updates ------------------------------------------------------------
    void op_add() { Bm &x = pool[pick()]; uint32_t v = val(x.m); LOG("  v=%u", v); sig(1, &x, 0, v); IS e = x.m; e.add(v); roaring_bitmap_add(x.b, v); settle(x, e, C_UPD); }
    void op_add_checked() {
        Bm &x = pool[pick()]; uint32_t v = val(x.m); LOG("  v=%u", v); sig(1, &x, 0, v); IS e = x.m; bool want = !e.contains(v); e.add(v);
        bool got = roaring_bitmap_add_checked(x.b, v); digest(got);
        if (judge & C_UPD) CHECK(got == want, "add_checked(%u) returned %d", v, got);
        settle(x, e, C_UPD);
    }
    void op_remove() { Bm &x = pool[pick()]; uint32_t v = val(x.m); LOG("  v=%u", v); sig(1, &x, 0, v); IS e = x.m; e.remove(v); roaring_bitmap_remove(x.b, v); settle(x, e, C_UPD); }
    void op_remove_checked() {
        Bm &x = pool[pick()]; uint32_t v = val(x.m); LOG("  v=%u", v); sig(1, &x, 0, v); IS e = x.m; bool want = e.contains(v); e.remove(v);
        bool got = roaring_bitmap_remove_checked(x.b, v); digest(got);
        if (judge & C_UPD) CHECK(got == want, "remove_checked(%u) returned %d", v, got);
        settle(x, e, C_UPD);
    }
    // a burst of single adds/removes around one place: drives container conversions
    void op_burst() {
        Bm &x = pool[pick()]; uint32_t v = val(x.m); size_t n = r.in(1, 200); int step = (int)r.pick<int>({1, 1, -1, 2, 3, 16}); bool add = r.coin(); bool checked = r.coin();
        LOG("  start=%u n=%zu step=%d add=%d checked=%d", v, n, step, add, checked); sig(n, &x, 0, v);
        IS e = x.m;
        for (size_t i = 0; i < n; i++, v += (uint32_t)step) {
            bool had = e.contains(v);
            if (add) { e.add(v); if (checked) { bool g = roaring_bitmap_add_checked(x.b, v); if (judge & C_UPD) CHECK(g == !had, "add_checked(%u) returned %d", v, g); } else roaring_bitmap_add(x.b, v); }
            else { e.remove(v); if (checked) { bool g = roaring_bitmap_remove_checked(x.b, v); if (judge & C_UPD) CHECK(g == had, "remove_checked(%u) returned %d", v, g); } else roaring_bitmap_remove(x.b, v); }
        }
        settle(x, e, C_UPD);
    }
    void op_add_many() {
        Bm &x = pool[pick()]; auto v = vals(x.m); LOG("  n=%zu first=%u", v.size(), v.empty() ? 0 : v[0]);
        IS add; { std::vector<u64> t(v.begin(), v.end()); add = IS::from_values(t); }
        sig(add.hash(), &x);
        IS e = x.m | add;
        Buf bf(v.size() * 4); if (!v.empty()) memcpy(bf.p, v.data(), v.size() * 4);
        roaring_bitmap_add_many(x.b, v.size(), (uint32_t *)bf.p);
        settle(x, e, C_UPD);
    }
    void op_remove_many() {
        Bm &x = pool[pick()]; auto v = vals(x.m); LOG("  n=%zu first=%u", v.size(), v.empty() ? 0 : v[0]);
        IS rem; { std::vector<u64> t(v.begin(), v.end()); rem = IS::from_values(t); }
        sig(rem.hash(), &x);
        IS e = x.m - rem;
        Buf bf(v.size() * 4); if (!v.empty()) memcpy(bf.p, v.data(), v.size() * 4);
        roaring_bitmap_remove_many(x.b, v.size(), (uint32_t *)bf.p);
        settle(x, e, C_UPD);
    }
    void op_add_bulk() {
        Bm &x = pool[pick()]; auto v = vals(x.m, 1500); bool mixq = r.coin(); LOG("  n=%zu first=%u mixed-with-contains=%d", v.size(), v.empty() ? 0 : v[0], mixq);
        IS e = x.m; sig(v.size(), &x, 0, v.empty() ? 0 : v[0]);
        roaring_bulk_context_t ctx; memset(&ctx, 0, sizeof ctx);
        std::vector<u64> added;
        if (mixq && v.size() > 200) v.resize(200);
        for (uint32_t y : v) {
            if (mixq && r.coin()) {
                uint32_t q = r.coin() ? y : val(x.m);
                bool g = roaring_bitmap_contains_bulk(x.b, &ctx, q); digest(g);
                if (judge & C_UPD) CHECK(g == e.contains(q), "contains_bulk(%u) between add_bulk calls returned %d", q, g);
            }
            roaring_bitmap_add_bulk(x.b, &ctx, y);
            if (mixq) e.add(y); else added.push_back(y);
        }
        if (!mixq) e = e | IS::from_values(added);
        settle(x, e, C_UPD);
    }
    void op_add_range() {
        Bm &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b); LOG("  [%llu,%llu)", (unsigned long long)a, (unsigned long long)b); sig(a, &x, 0, b);
        IS e = x.m | clamp_range(a, b); roaring_bitmap_add_range(x.b, a, b); settle(x, e, C_UPD);
    }
    void op_add_range_closed() {
        Bm &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu]", (unsigned long long)a, (unsigned long long)b); sig(a, &x, 0, b);
        IS e = x.m; e.add(a, b); roaring_bitmap_add_range_closed(x.b, (uint32_t)a, (uint32_t)b); settle(x, e, C_UPD);
    }
    void op_remove_range() {
        Bm &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b); LOG("  [%llu,%llu)", (unsigned long long)a, (unsigned long long)b); sig(a, &x, 0, b);
        IS e = x.m - clamp_range(a, b); roaring_bitmap_remove_range(x.b, a, b); settle(x, e, C_UPD);
    }
    void op_remove_range_closed() {
        Bm &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu]", (unsigned long long)a, (unsigned long long)b); sig(a, &x, 0, b);
        IS e = x.m; e.remove(a, b); roaring_bitmap_remove_range_closed(x.b, (uint32_t)a, (uint32_t)b); settle(x, e, C_UPD);
    }
    void op_clear() { Bm &x = pool[pick()]; sig(0, &x); roaring_bitmap_clear(x.b); settle(x, IS(), C_UPD); if (r.coin()) { IS s = derive_set(r, w, IS()); for (auto &p : s.v) roaring_bitmap_add_range_closed(x.b, (uint32_t)p.first, (uint32_t)p.second); settle(x, s, C_UPD); } }
    void op_overwrite() {
        size_t i = pick(), j = other(i); Bm &x = pool[i], &y = pool[j]; LOG("  dest=#%zu src=#%zu", i, j); sig(0, &x, &y);
        bool ok = roaring_bitmap_overwrite(x.b, y.b);
        if (judge & (C_UPD | C_COPY)) { CHECK(ok, "overwrite returned false"); konst(y); }
        settle(x, y.m, C_UPD | C_COPY);
        if (w.cow) set_cow(x.b, true);
    }
    void op_copy() {
        size_t i = pick(); Bm &x = pool[i]; LOG("  src=#%zu", i); sig(0, &x);
        roaring_bitmap_t *b = roaring_bitmap_copy(x.b);
        if (judge & (C_UPD | C_COPY)) { CHECK(b, "copy returned NULL"); konst(x); }
        Bm c; c.b = b; settle(c, x.m, C_UPD | C_COPY);
        if (w.cow || r.coin()) adopt(c); else roaring_bitmap_free(b);
    }
    void op_of_ptr() {
        auto v = vals(all_guide()); LOG("  n=%zu", v.size());
        IS e; { std::vector<u64> t(v.begin(), v.end()); e = IS::from_values(t); }
        ev(mix(hstr("of_ptr"), e.hash()), !e.empty());
        Buf bf(v.size() * 4); if (!v.empty()) memcpy(bf.p, v.data(), v.size() * 4);
        fresh(roaring_bitmap_of_ptr(v.size(), (uint32_t *)bf.p), e, C_UPD);
        if (r.chance(1, 10)) {
            uint32_t a = val(e), b = val(e), c = val(e);
            opname = "from"; fresh(roaring_bitmap_from(a, b, c), IS::from_values({a, b, c}), C_UPD);
            opname = "from()"; fresh(roaring_bitmap_from(), IS(), C_UPD);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
            opname = "of(varargs)"; fresh(roaring_bitmap_of(3, a, b, c), IS::from_values({a, b, c}), C_UPD);
#pragma GCC diagnostic pop
        }
    }
    void op_from_range() {
        u64 a, b; hrange(all_guide(), &a, &b);
        uint32_t step = (uint32_t)r.pick<u64>({1, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 1000, 4096, 65535, 65536, 65537, 100000, 1u << 20, 1u << 30, 0x80000000u, 0xFFFFFFFFu, 0});
        if (r.chance(1, 4)) step = (uint32_t)r.in(1, 70000);
        if (r.chance(1, 12)) { a = r.below(3); b = (1ull << 32) + r.in(0, 3) - 1; step = (uint32_t)r.in(60000, 0xFFFFFFFFu); }
        u64 ub = std::min<u64>(b, 1ull << 32);
        if (step > 1 && ub > a && (ub - a) / step > 200000) b = ub = a + (u64)step * 200000;
        LOG("  [%llu,%llu) step %u", (unsigned long long)a, (unsigned long long)b, step);
        ev(mix(mix(hstr("from_range"), a), mix(b, step)), b > a);
        roaring_bitmap_t *x = roaring_bitmap_from_range(a, b, step);
        IS e;
        if (step && ub > a) { if (step == 1) e.add(a, ub - 1); else for (u64 y = a; y < ub; y += step) e.append(y, y); }
        if (!x) {  // documented: may be NULL in case of errors; only degenerate requests are errors
            if (judge & C_UPD) CHECK(e.empty(), "from_range(%llu,%llu,%u) returned NULL", (unsigned long long)a, (unsigned long long)b, step);
            return;
        }
        fresh(x, e, C_UPD);
    }
    void op_from_scratch() { IS s = r.coin() ? gen_set(r, w) : derive_set(r, w, all_guide()); Bm x = build(s); if (wf) check_wf(x); digest(x.m.hash()); adopt(x); }
    // ---- set operations -------------------------------------------------------
    // operands made for one operator so that the result lands on a decision boundary
    void op_aimed() {
        static const struct { const char *n; int tt; void (Eng32::*fn)(); } K[] = {
            {"and", 1, &Eng32::op_and}, {"or", 7, &Eng32::op_or}, {"xor", 6, &Eng32::op_xor}, {"andnot", 2, &Eng32::op_andnot}, {"and_inplace", 1, &Eng32::op_and_in}, {"or_inplace", 7, &Eng32::op_or_in},
            {"xor_inplace", 6, &Eng32::op_xor_in}, {"andnot_inplace", 2, &Eng32::op_andnot_in}, {"lazy_or", 7, &Eng32::op_lazy_or}, {"lazy_or_inplace", 7, &Eng32::op_lazy_or_in}, {"lazy_xor", 6, &Eng32::op_lazy_xor}, {"lazy_xor_inplace", 6, &Eng32::op_lazy_xor_in}};
        auto &k = K[r.below(sizeof K / sizeof *K)];
        IS a, b; aim_sets(r, w, k.tt, a, b);
        Bm x = build(a, r.chance(2, 3) ? 0 : -1), y = build(b, r.chance(2, 3) ? 0 : -1);
        size_t i, j;
        if (pool.size() < 2) { pool.push_back(x); pool.push_back(y); i = pool.size() - 2; j = pool.size() - 1; }
        else { i = pick(); j = other(i); roaring_bitmap_free(pool[i].b); roaring_bitmap_free(pool[j].b); pool[i] = x; pool[j] = y; }
        fi = (int)i; fj = (int)j; opname = k.n; LOG("  aimed %s", k.n);
        (this->*k.fn)();
        fi = fj = -1;
    }
    typedef roaring_bitmap_t *(*F2)(const roaring_bitmap_t *, const roaring_bitmap_t *);
    void binary(F2 f, int tt) {
        size_t i = pick(), j = r.chance(1, 12) ? i : other(i); Bm &x = pool[i], &y = pool[j];
        LOG("  #%zu %s | #%zu %s", i, kinds_str(x.b).c_str(), j, kinds_str(y.b).c_str()); covpair(x, y); sig(0, &x, &y);
        roaring_bitmap_t *b = f(x.b, y.b);
        IS e = IS::op(x.m, y.m, tt);
        if (judge & C_SET) { konst(x); if (i != j) konst(y); }
        fresh(b, e, C_SET);
    }
    void op_and() { binary(roaring_bitmap_and, 1); }
    void op_or() { binary(roaring_bitmap_or, 7); }
    void op_xor() { binary(roaring_bitmap_xor, 6); }
    void op_andnot() { binary(roaring_bitmap_andnot, 2); }
    typedef void (*F2i)(roaring_bitmap_t *, const roaring_bitmap_t *);
    void inplace(F2i f, int tt, bool self_ok) {
        size_t i = pick(), j = (self_ok && r.chance(1, 12)) ? i : other(i);
        bool on_copy = r.chance(1, 3) && i != j;
        LOG("  #%zu %s |= #%zu %s on_copy=%d", i, kinds_str(pool[i].b).c_str(), j, kinds_str(pool[j].b).c_str(), on_copy); covpair(pool[i], pool[j]); sig(0, &pool[i], &pool[j]);
        IS e = IS::op(pool[i].m, pool[j].m, tt);
        if (on_copy) {
            Bm t; t.b = roaring_bitmap_copy(pool[i].b); t.m = pool[i].m;
            f(t.b, pool[j].b);
            if (judge & C_SET) { konst(pool[j]); konst(pool[i]); }
            fresh(t.b, e, C_SET);
        } else {
            f(pool[i].b, pool[j].b);
            if (i != j && (judge & C_SET)) konst(pool[j]);
            settle(pool[i], e, C_SET);
        }
    }
    void op_and_in() { inplace(roaring_bitmap_and_inplace, 1, true); }
    void op_or_in() { inplace(roaring_bitmap_or_inplace, 7, false); }
    void op_xor_in() { inplace(roaring_bitmap_xor_inplace, 6, false); }
    void op_andnot_in() { inplace(roaring_bitmap_andnot_inplace, 2, false); }
    void op_lazy_or() {
        size_t i = pick(), j = other(i), k; bool conv = r.coin(); int n = (int)r.below(5);
        LOG("  lazy_or #%zu #%zu conv=%d then %d more", i, j, conv, n); covpair(pool[i], pool[j]); sig(n, &pool[i], &pool[j], conv);
        roaring_bitmap_t *b = roaring_bitmap_lazy_or(pool[i].b, pool[j].b, conv);
        IS e = pool[i].m | pool[j].m;
        while (n--) { k = pick(); bool c2 = r.coin(); LOG("    lazy_or_inplace #%zu conv=%d", k, c2); roaring_bitmap_lazy_or_inplace(b, pool[k].b, c2); e = e | pool[k].m; if (judge & C_SET) konst(pool[k]); }
        roaring_bitmap_repair_after_lazy(b);
        if (judge & C_SET) { konst(pool[i]); konst(pool[j]); }
        fresh(b, e, C_SET);
    }
    void op_lazy_or_in() {
        size_t i = pick(); int n = (int)r.in(1, 4);
        LOG("  lazy_or_inplace on #%zu x%d", i, n); sig(n, &pool[i]);
        IS e = pool[i].m;
        while (n--) { size_t k = other(i); bool c2 = r.coin(); covpair(pool[i], pool[k]); LOG("    #%zu conv=%d", k, c2); roaring_bitmap_lazy_or_inplace(pool[i].b, pool[k].b, c2); e = e | pool[k].m; if (judge & C_SET) konst(pool[k]); }
        roaring_bitmap_repair_after_lazy(pool[i].b);
        settle(pool[i], e, C_SET);
    }
    void op_lazy_xor() {
        size_t i = pick(), j = other(i); int n = (int)r.below(5);
        LOG("  lazy_xor #%zu #%zu then %d more", i, j, n); covpair(pool[i], pool[j]); sig(n, &pool[i], &pool[j]);
        roaring_bitmap_t *b = roaring_bitmap_lazy_xor(pool[i].b, pool[j].b);
        IS e = pool[i].m ^ pool[j].m;
        while (n--) { size_t k = pick(); LOG("    lazy_xor_inplace #%zu", k); roaring_bitmap_lazy_xor_inplace(b, pool[k].b); e = e ^ pool[k].m; if (judge & C_SET) konst(pool[k]); }
        roaring_bitmap_repair_after_lazy(b);
        if (judge & C_SET) { konst(pool[i]); konst(pool[j]); }
        fresh(b, e, C_SET);
    }
    void op_lazy_xor_in() {
        size_t i = pick(); int n = (int)r.in(1, 4);
        LOG("  lazy_xor_inplace on #%zu x%d", i, n); sig(n, &pool[i]);
        IS e = pool[i].m;
        while (n--) { size_t k = other(i); covpair(pool[i], pool[k]); LOG("    #%zu", k); roaring_bitmap_lazy_xor_inplace(pool[i].b, pool[k].b); e = e ^ pool[k].m; if (judge & C_SET) konst(pool[k]); }
        roaring_bitmap_repair_after_lazy(pool[i].b);
        settle(pool[i], e, C_SET);
    }
    void many(int which) {
        size_t n = r.below(9);
        if (r.chance(1, 10)) n = r.in(9, 20);
        std::vector<const roaring_bitmap_t *> v; IS e; u64 h = 0; std::vector<size_t> idx; std::vector<Bm> fam;
        if (fi < 0 && r.chance(1, 3)) {  // many bitmaps of similar size, so that intermediate results are combined with each other
            n = r.in(4, 12); for (IS &s : gen_family(r, (unsigned)n)) { Bm x = build(s); fam.push_back(std::move(x)); if (w.cow && r.chance(1, 3)) { Bm y; y.b = roaring_bitmap_copy(fam.back().b); y.m = fam.back().m; fam.push_back(y); } }
            n = r.in(4, fam.size());
        }
        for (size_t i = 0; i < n; i++) { bool own = !fam.empty() && !r.chance(1, 12); size_t k = own ? i : pick(); const Bm &x = own ? fam[k] : pool[k]; v.push_back(x.b); if (!own) idx.push_back(k); e = which == 2 ? (e ^ x.m) : (e | x.m); h = mix(h, x.m.hash()); }
        LOG("  n=%zu%s", n, fam.empty() ? "" : " of similar sizes"); cov2("many", fam.empty() ? "pool" : "similar sizes");
        ev(mix(hstr(opname.c_str()), h), !e.empty());
        roaring_bitmap_t *b = which == 0 ? roaring_bitmap_or_many(n, v.data()) : which == 1 ? roaring_bitmap_or_many_heap((uint32_t)n, v.data()) : roaring_bitmap_xor_many(n, v.data());
        if (judge & C_SET) { for (size_t k : idx) konst(pool[k]); for (Bm &x : fam) konst(x); }
        if (r.coin()) { for (Bm &x : fam) roaring_bitmap_free(x.b); fam.clear(); }  // the result outlives its sources
        fresh(b, e, C_SET);
        for (Bm &x : fam) { if (judge & C_SET) konst(x); roaring_bitmap_free(x.b); }
    }
    void op_or_many() { many(0); }
    void op_or_many_heap() { many(1); }
    void op_xor_many() { many(2); }
    void op_flip() {
        Bm &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b); LOG("  [%llu,%llu) %s", (unsigned long long)a, (unsigned long long)b, kinds_str(x.b).c_str()); sig(a, &x, 0, b); cov2("flip", kinds_str(x.b).c_str());
        IS e = x.m ^ clamp_range(a, b); roaring_bitmap_t *q = roaring_bitmap_flip(x.b, a, b); if (judge & C_SET) konst(x); fresh(q, e, C_SET);
    }
    void op_flip_closed() {
        Bm &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu] %s", (unsigned long long)a, (unsigned long long)b, kinds_str(x.b).c_str()); sig(a, &x, 0, b);
        IS e = x.m; e.flip(a, b); roaring_bitmap_t *q = roaring_bitmap_flip_closed(x.b, (uint32_t)a, (uint32_t)b); if (judge & C_SET) konst(x); fresh(q, e, C_SET);
    }
    void op_flip_in() {
        Bm &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b); LOG("  [%llu,%llu) %s", (unsigned long long)a, (unsigned long long)b, kinds_str(x.b).c_str()); sig(a, &x, 0, b);
        IS e = x.m ^ clamp_range(a, b); roaring_bitmap_flip_inplace(x.b, a, b); settle(x, e, C_SET);
    }
    void op_flip_in_closed() {
        Bm &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu] %s", (unsigned long long)a, (unsigned long long)b, kinds_str(x.b).c_str()); sig(a, &x, 0, b);
        IS e = x.m; e.flip(a, b); roaring_bitmap_flip_inplace_closed(x.b, (uint32_t)a, (uint32_t)b); settle(x, e, C_SET);
    }
    void op_add_offset() {
        Bm &x = pool[pick()]; int64_t off;
        switch (r.below(6)) {
            case 0: off = r.pick<int64_t>({0, 1, -1, 63, 64, -64, 65535, 65536, 65537, -65536, -65537, 4294967295ll, 4294967296ll, -4294967295ll, -4294967296ll, 4294967297ll}); break;
            case 1: off = (int64_t)r.below(65536 * 4) - 65536 * 2; break;
            case 2: off = ((int64_t)r.below(131072) - 65536) * 65536; break;
            case 3: off = x.m.empty() ? 0 : r.coin() ? -(int64_t)gen_value(r, w, x.m) : (int64_t)(0xFFFFFFFFull - gen_value(r, w, x.m)); break;
            case 4: off = r.pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 65535, INT64_MIN + 65536, 1ll << 40, -(1ll << 40), 1ll << 48, (1ll << 48) + 5}); break;
            default: off = (int64_t)r.in(0, 1ull << 33) - (1ll << 32); break;
        }
        LOG("  offset %lld %s", (long long)off, kinds_str(x.b).c_str()); sig(0, &x, 0, (u64)off); cov2("add_offset", kinds_str(x.b).c_str());
        IS e = x.m.shift((i128)off, 0, 0xFFFFFFFFull);
        roaring_bitmap_t *q = roaring_bitmap_add_offset(x.b, off); if (judge & C_SET) konst(x); fresh(q, e, C_SET);
    }
    void op_cards() {
        size_t i = pick(), j = r.chance(1, 12) ? i : other(i); Bm &x = pool[i], &y = pool[j]; LOG("  #%zu %s #%zu %s", i, kinds_str(x.b).c_str(), j, kinds_str(y.b).c_str()); covpair(x, y); sig(0, &x, &y);
        u64 a = roaring_bitmap_and_cardinality(x.b, y.b), o = roaring_bitmap_or_cardinality(x.b, y.b), d = roaring_bitmap_andnot_cardinality(x.b, y.b), s = roaring_bitmap_xor_cardinality(x.b, y.b);
        digest(a); digest(o); digest(d); digest(s);
        if (judge & C_SET) {
            CHECK((u128)a == (x.m & y.m).card(), "and_cardinality %llu", (unsigned long long)a); CHECK((u128)o == (x.m | y.m).card(), "or_cardinality %llu", (unsigned long long)o);
            CHECK((u128)d == (x.m - y.m).card(), "andnot_cardinality %llu", (unsigned long long)d); CHECK((u128)s == (x.m ^ y.m).card(), "xor_cardinality %llu", (unsigned long long)s);
            konst(x); konst(y);
        }
    }
    // ---- optimisation ----------------------------------------------------------
    void op_run_optimize();
    void op_remove_runs();
    void op_shrink();
    // ---- representation churn via serialization ----------------------------------
    void op_portable() {
        Bm &x = pool[pick()]; LOG("  portable round trip %s", kinds_str(x.b).c_str()); sig(0, &x);
        size_t n = roaring_bitmap_portable_size_in_bytes(x.b); Buf bf(n); size_t k = roaring_bitmap_portable_serialize(x.b, bf.p);
        if (judge & C_SER) CHECK(k == n, "portable_serialize wrote %zu, announced %zu", k, n);
        digest_bytes(bf.p, n);
        roaring_bitmap_t *q = r.coin() ? roaring_bitmap_portable_deserialize(bf.p) : roaring_bitmap_portable_deserialize_safe(bf.p, n);
        if (!q) fail("portable reader rejects the library's own image");
        fresh(q, x.m, C_SER);
    }
    void op_native() {
        Bm &x = pool[pick()]; LOG("  native round trip %s", kinds_str(x.b).c_str()); sig(0, &x);
        size_t n = roaring_bitmap_size_in_bytes(x.b); Buf bf(n); size_t k = roaring_bitmap_serialize(x.b, bf.p);
        if (judge & C_SER) CHECK(k == n, "serialize wrote %zu, announced %zu", k, n);
        roaring_bitmap_t *q = r.coin() ? roaring_bitmap_deserialize(bf.p) : roaring_bitmap_deserialize_safe(bf.p, n);
        if (!q) fail("native reader rejects the library's own image");
        fresh(q, x.m, C_SER);
    }
    void op_frozen_copy() {
        Bm &x = pool[pick()]; LOG("  frozen round trip %s", kinds_str(x.b).c_str()); sig(0, &x);
        size_t n = roaring_bitmap_frozen_size_in_bytes(x.b); Buf bf(n, 32); roaring_bitmap_frozen_serialize(x.b, bf.p);
        const roaring_bitmap_t *v = roaring_bitmap_frozen_view(bf.p, n);
        if (!v) fail("frozen_view rejects the library's own image");
        roaring_bitmap_t *q = roaring_bitmap_copy(v);
        roaring_bitmap_free(v);
        if (!q) fail("copy of a frozen view returned NULL");
        fresh(q, x.m, C_SER);
    }
    void op_free() { if (pool.size() < 2) return; size_t i = pick(); LOG("  free #%zu", i); roaring_bitmap_free(pool[i].b); pool.erase(pool.begin() + i); }
    // the flag is switched for every bitmap at once: mixing both kinds is documented as unsafe
    void op_toggle() {
        if (!toggle_cow) return;
        bool c = r.coin(); w.cow = c; LOG("  set_copy_on_write(%d) on all", c);
        for (auto &x : pool) { set_cow(x.b, c); CHECK(roaring_bitmap_get_copy_on_write(x.b) == c, "get_copy_on_write does not report the flag"); settle(x, x.m, C_COPY); }
    }

    static const std::vector<Op> &ops();
    void step(int cats_favoured, unsigned favour) {
        const auto &o = ops();
        if (r.chance(1, rebuild)) { for (auto &q : o) if (q.fn == &Eng32::op_from_scratch) { apply(q); return; } }
        static thread_local std::vector<unsigned> cum;
        unsigned tot = 0;
        for (auto &q : o) tot += q.weight * ((q.cat & cats_favoured) ? favour : 1);
        unsigned x = (unsigned)r.below(tot);
        for (auto &q : o) {
            unsigned k = q.weight * ((q.cat & cats_favoured) ? favour : 1);
            if (x < k) { apply(q); return; }
            x -= k;
        }
    }
    void apply(const Op &q) {
        opname = q.name; cur_cat = q.cat; g_ops++;
        LOG(" op %s", q.name);
        cov2("op", q.name);
        (this->*q.fn)();
        opname = q.name;
        if (all) for (auto &x : pool) same(x, "another bitmap");
        while (pool.size() > max_pool + 4) { roaring_bitmap_free(pool.back().b); pool.pop_back(); }
        for (auto &x : pool) if (x.m.nint() > 150000) { roaring_bitmap_clear(x.b); x.m.clear(); }
    }
};
