#include "eng64.hpp"
typedef unsigned long long ull;
Bytes image64(const roaring64_bitmap_t *b) {
    size_t n = roaring64_bitmap_portable_size_in_bytes(b);
    Buf bf(n);
    size_t k = roaring64_bitmap_portable_serialize(b, bf.p);
    if (k > n) fail("portable_serialize(64) wrote %zu bytes, announced %zu", k, n);
    return Bytes((unsigned char *)bf.p, (unsigned char *)bf.p + k);
}
IS read64_portable(const roaring64_bitmap_t *b, std::string *err) {
    Bytes i = image64(b);
    IS s; size_t used = 0;
    std::string e = spec_decode64(i.data(), i.size(), s, &used);
    if (e.empty() && used != i.size()) e = "image longer than its contents";
    if (err) *err = e;
    return s;
}
namespace { struct Col { IS s; bool ok; u64 n; }; }
static bool col_cb(uint64_t v, void *p) { Col *c = (Col *)p; c->ok &= c->s.append(v, v); return ++c->n < 20000000; }
IS read64_iterate(const roaring64_bitmap_t *b, bool *ordered) {
    Col c; c.ok = true; c.n = 0;
    roaring64_bitmap_iterate(b, col_cb, &c);
    *ordered = c.ok;
    return c.s;
}
IS read64_array(const roaring64_bitmap_t *b, bool *ordered) {
    u64 n = roaring64_bitmap_get_cardinality(b);
    if (n > 20000000) n = 0;
    Buf bf((size_t)n * 8);
    *ordered = true; IS s;
    if (n) roaring64_bitmap_to_uint64_array(b, (uint64_t *)bf.p);
    for (u64 i = 0; i < n; i++) { u64 v; memcpy(&v, bf.p + 8 * i, 8); *ordered &= s.append(v, v); }
    return s;
}
std::string kinds64(const roaring64_bitmap_t *b) {
    roaring64_statistics_t s; roaring64_bitmap_statistics(b, &s);
    std::string k;
    if (s.n_array_containers) k += "A"; if (s.n_bitset_containers) k += "B"; if (s.n_run_containers) k += "R";
    return k.empty() ? "-" : k;
}
roaring64_bitmap_t *make64(const IS &s, int how, Rng &r) {
    roaring64_bitmap_t *b = nullptr;
    bool huge = s.card() > 200000;
    if (huge && (how == 1 || how == 4)) how = 0;
    if (s.nint() > 3000 && (how == 2 || how == 3)) how = 0;
    if (how == 3 && !s.empty() && s.max() - s.min() > (300ull << 16)) how = 2;
    switch (how) {
        case 1: case 4: {
            std::vector<u64> v; s.values_from(0, (size_t)s.card(), v);
            if (how == 4) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
            if (r.coin()) b = roaring64_bitmap_of_ptr(v.size(), v.data());
            else { b = roaring64_bitmap_create(); roaring64_bulk_context_t c; memset(&c, 0, sizeof c); for (u64 x : v) roaring64_bitmap_add_bulk(b, &c, x); }
            break;
        }
        case 2: b = roaring64_bitmap_create(); for (auto &p : s.v) roaring64_bitmap_add_range_closed(b, p.first, p.second); break;
        case 3:
            b = roaring64_bitmap_create(); if (s.empty()) break;
            roaring64_bitmap_add_range_closed(b, s.min(), s.max());
            for (size_t i = 0; i + 1 < s.v.size(); i++) roaring64_bitmap_remove_range_closed(b, s.v[i].second + 1, s.v[i + 1].first - 1);
            break;
        default: {
            EncOpt o; o.run_mode = (int)r.pick<int>({0, 1, 2, 2, 3});
            Bytes e = spec_encode64(s, o, &r); Buf bf(e.size()); if (!e.empty()) memcpy(bf.p, e.data(), e.size());
            b = roaring64_bitmap_portable_deserialize_safe(bf.p, e.size());
        }
    }
    return b;
}
IS Eng64::observe(const roaring64_bitmap_t *b, const IS &exp, std::string *how) {
    std::string e;
    IS a = read64_portable(b, &e);
    how->clear();
    if (e.empty() && a == exp) return a;
    bool o1, o2;
    IS c = read64_iterate(b, &o1);
    if (o1 && c == exp) { cov("observer/portable-disagrees"); return c; }
    IS d = read64_array(b, &o2);
    if (o2 && d == exp) { cov("observer/two-disagree"); return d; }
    *how = e.empty() ? "" : " (image: " + e + ")";
    if (!e.empty() && !o1) *how += " (iteration not increasing)";
    return e.empty() ? a : o1 ? c : a;
}
void Eng64::settle(Bm64 &x, const IS &exp, int cat) {
    std::string how;
    IS got = observe(x.b, exp, &how);
    count_check();
    if (judge & cat) {
        if (got != exp || !how.empty()) fail("%s: wrong contents: %s%s", opname.c_str(), diff_str(exp, got).c_str(), how.c_str());
        u64 c = roaring64_bitmap_get_cardinality(x.b);
        if (c != (u64)exp.card()) fail("%s: contents right but cardinality reports %llu instead of %llu", opname.c_str(), (ull)c, (ull)exp.card());
    } else if (got != exp) cov("resync/op64");
    if (wf) check_wf(x);
    digest(got.hash());
    if (g_digest_on) { Bytes i = image64(x.b); digest_bytes(i.data(), i.size()); }
    x.m = got;
}
void Eng64::konst(const Bm64 &x) {
    if (!consts) return;
    std::string how; IS got = observe(x.b, x.m, &how); count_check();
    if (got != x.m || !how.empty()) fail("%s: const operand changed: %s%s", opname.c_str(), diff_str(x.m, got).c_str(), how.c_str());
}
void Eng64::check_wf(Bm64 &x) {
    const char *why = nullptr;
    CHECK(roaring64_bitmap_internal_validate(x.b, &why), "%s: internal_validate rejects a 64-bit bitmap: %s", opname.c_str(), why ? why : "(no reason)");
    if (!judge) { eval_sig(mix(hstr(opname.c_str()), mix(x.m.hash(), hstr(kinds64(x.b).c_str()))), !x.m.empty()); cov2("wf64", (opname + "/" + kinds64(x.b)).c_str()); }
    std::string e; IS s = read64_portable(x.b, &e);  // strict decoder: kinds, order, cardinalities
    if (!e.empty()) fail("%s: leaves an ill-formed 64-bit bitmap: %s", opname.c_str(), e.c_str());
    bool o; if (s.card() < 30000) { IS t = read64_array(x.b, &o); if (!o || t != s) fail("%s: 64-bit bitmap lists %s when iterated but %s when serialized", opname.c_str(), t.str(4).c_str(), s.str(4).c_str()); }
}
Bm64 Eng64::build(const IS &s) {
    Bm64 x; int how = (int)r.below(7);
    x.b = make64(s, how, r);
    if (!x.b) { if (judge & (C_UPD | C_SER)) fail("building a 64-bit bitmap (method %d) returned NULL", how); x.b = roaring64_bitmap_create(); for (auto &p : s.v) roaring64_bitmap_add_range_closed(x.b, p.first, p.second); }
    if (r.chance(1, 4)) roaring64_bitmap_run_optimize(x.b);
    if (r.chance(1, 8)) roaring64_bitmap_shrink_to_fit(x.b);
    std::string hw; IS got = observe(x.b, s, &hw);
    if (got != s || !hw.empty()) { if (judge & C_UPD) fail("a 64-bit bitmap built by method %d does not hold the intended set: %s%s", how, diff_str(s, got).c_str(), hw.c_str()); cov("resync/build64"); }
    x.m = got;
    LOG("  build64 how=%d kinds=%s set=%s", how, kinds64(x.b).c_str(), chunk_profile(x.m).c_str());
    return x;
}
void Eng64::fresh(roaring64_bitmap_t *b, const IS &exp, int cat) {
    if (!b) fail("%s returned NULL", opname.c_str());
    Bm64 x; x.b = b; x.m = exp; settle(x, exp, cat);
    if (r.chance(1, 3) && x.m.nint() < 50000) adopt(x); else roaring64_bitmap_free(b);
}
void Eng64::sig(u64 a, const Bm64 *x, const Bm64 *y, u64 arg) {
    u64 h = mix(hstr(opname.c_str()), arg); bool nt = false;
    if (x) { h = mix(h, x->m.hash()); nt = !x->m.empty(); h = mix(h, hstr(kinds64(x->b).c_str())); }
    if (y) { h = mix(h, y->m.hash()); h = mix(h, hstr(kinds64(y->b).c_str())); cov2(opname.c_str(), (kinds64(x->b) + "x" + kinds64(y->b)).c_str()); }
    ev(mix(h, a), nt);
}
std::vector<u64> Eng64::vals(const IS &g, size_t maxn) {
    std::vector<u64> v;
    switch (r.below(8)) {
        case 0: break;
        case 1: { size_t n = r.below(12); while (n--) v.push_back(val(g)); break; }
        case 2: case 3: { u64 k = r.of(w.keys); IS c = gen_chunk(r); for (auto &p : c.v) for (u64 x = p.first; x <= p.second && v.size() < maxn; x++) v.push_back((k << 16) | x); break; }
        case 4: { u64 a = val(g); size_t n = r.in(1, 300); for (size_t i = 0; i < n; i++) v.push_back(a + i); break; }
        case 5: { size_t n = r.in(1, 400); u64 c = (u64)std::min<u128>(g.card(), (u128)1 << 60); if (c) g.values_from(r.below(c), n, v); break; }
        case 6: { size_t n = r.in(1, 60); while (n--) { u64 x = val(g); v.push_back(x); if (r.coin()) v.push_back(x); if (r.coin()) v.push_back(x ^ 1); if (r.chance(1, 4)) v.push_back(x ^ (1ull << r.in(16, 63))); } break; }
        default: if (!g.empty()) { u64 k = g.v[r.below(g.v.size())].first >> 16; IS c = g.restrict_to(k << 16, (k << 16) | 0xFFFF); for (auto &p : c.v) { for (u64 x = p.first; v.size() < maxn; x++) { v.push_back(x); if (x == p.second) break; } } v.push_back(val(g)); v.push_back(r.coin() && !v.empty() ? v[0] : val(g)); v.push_back(val(g)); }
    }
    int ord = (int)r.below(4);
    if (ord == 0) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    else if (ord == 1) std::reverse(v.begin(), v.end());
    else if (ord == 2) std::sort(v.begin(), v.end());
    return v;
}
// half-open; lo>=hi (empty) possible.  `unlimited`: may span the whole space
void Eng64::hrange(const IS &g, u64 *lo, u64 *hi, bool unlimited) {
    u64 a, b; gen_range(r, w, g, &a, &b);
    *lo = a; *hi = b == UINT64_MAX ? b : b + 1;
    if (r.chance(1, 3)) *hi = (*hi + 0xFFFF) & ~0xFFFFull;  // on a chunk boundary
    if (*hi < *lo) *hi = *lo;
    switch (r.below(14)) {
        case 0: *hi = *lo; break;
        case 1: std::swap(*lo, *hi); break;
        case 2: *hi = UINT64_MAX; *lo = *hi - r.below(3 * 65536); break;
        case 3: if (unlimited) { *lo = r.coin() ? 0 : val(g); *hi = r.coin() ? UINT64_MAX : val(g); } break;
        case 4: if (unlimited) { *lo = val(g); *hi = val(g); if (*lo > *hi) std::swap(*lo, *hi); } break;
        default: break;
    }
}
static IS half(u64 lo, u64 hi) { IS s; if (hi > lo) s.add(lo, hi - 1); return s; }
// ---- updates -------------------------------------------------------------------
void Eng64::op_add() { Bm64 &x = pool[pick()]; u64 v = val(x.m); LOG("  v=%llu", (ull)v); sig(1, &x, 0, v); IS e = x.m; e.add(v); roaring64_bitmap_add(x.b, v); settle(x, e, C_UPD); }
void Eng64::op_add_checked() {
    Bm64 &x = pool[pick()]; u64 v = val(x.m); LOG("  v=%llu", (ull)v); sig(1, &x, 0, v); IS e = x.m; bool want = !e.contains(v); e.add(v);
    bool got = roaring64_bitmap_add_checked(x.b, v); digest(got); if (judge & C_UPD) CHECK(got == want, "add_checked(%llu) returned %d", (ull)v, got); settle(x, e, C_UPD);
}
void Eng64::op_remove() { Bm64 &x = pool[pick()]; u64 v = val(x.m); LOG("  v=%llu", (ull)v); sig(1, &x, 0, v); IS e = x.m; e.remove(v); roaring64_bitmap_remove(x.b, v); settle(x, e, C_UPD); }
void Eng64::op_remove_checked() {
    Bm64 &x = pool[pick()]; u64 v = val(x.m); LOG("  v=%llu", (ull)v); sig(1, &x, 0, v); IS e = x.m; bool want = e.contains(v); e.remove(v);
    bool got = roaring64_bitmap_remove_checked(x.b, v); digest(got); if (judge & C_UPD) CHECK(got == want, "remove_checked(%llu) returned %d", (ull)v, got); settle(x, e, C_UPD);
}
void Eng64::op_burst() {
    Bm64 &x = pool[pick()]; u64 v = val(x.m); size_t n = r.in(1, 200); u64 step = (u64)r.pick<int64_t>({1, 1, -1, 2, 3, 65536, 65536, 1ll << 24, 1ll << 32, 1ll << 40, 1ll << 56}); bool add = r.coin(), checked = r.coin();
    LOG("  start=%llu n=%zu step=%lld add=%d", (ull)v, n, (long long)step, add); sig(n, &x, 0, v); IS e = x.m;
    for (size_t i = 0; i < n; i++, v += step) {
        bool had = e.contains(v);
        if (add) { e.add(v); if (checked) { bool g = roaring64_bitmap_add_checked(x.b, v); if (judge & C_UPD) CHECK(g == !had, "add_checked(%llu) returned %d", (ull)v, g); } else roaring64_bitmap_add(x.b, v); }
        else { e.remove(v); if (checked) { bool g = roaring64_bitmap_remove_checked(x.b, v); if (judge & C_UPD) CHECK(g == had, "remove_checked(%llu) returned %d", (ull)v, g); } else roaring64_bitmap_remove(x.b, v); }
    }
    settle(x, e, C_UPD);
}
// remove most chunks one value at a time: shrinks the tree
void Eng64::op_drain() {
    Bm64 &x = pool[pick()]; sig(0, &x); IS e = x.m; int mode = (int)r.below(4);
    std::vector<u64> t; e.values_from(0, 3000, t);
    if (r.coin()) for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[r.below(i)]);
    LOG("  mode=%d n=%zu", mode, t.size());
    roaring64_bulk_context_t c; memset(&c, 0, sizeof c);
    if (mode == 2) roaring64_bitmap_remove_many(x.b, t.size(), t.data());
    for (u64 v : t) {
        e.remove(v);
        if (mode == 0) roaring64_bitmap_remove(x.b, v);
        else if (mode == 1) { bool g = roaring64_bitmap_remove_checked(x.b, v); if (judge & C_UPD) CHECK(g, "remove_checked(%llu) of a present value returned false", (ull)v); }
        else if (mode == 3) roaring64_bitmap_remove_bulk(x.b, &c, v);
        if (mode != 2 && r.chance(1, 400)) break;
    }
    settle(x, e, C_UPD);
    if (r.coin()) { t.resize(std::min<size_t>(t.size(), 500)); std::vector<u64> u(t); IS add = IS::from_values(u); e = e | add; opname = "add_many after drain"; roaring64_bitmap_add_many(x.b, t.size(), t.data()); settle(x, e, C_UPD); }
}
void Eng64::op_add_many() {
    Bm64 &x = pool[pick()]; auto v = vals(x.m); LOG("  n=%zu", v.size()); IS a = IS::from_values(v); sig(a.hash(), &x); IS e = x.m | a;
    Buf bf(v.size() * 8); if (!v.empty()) memcpy(bf.p, v.data(), v.size() * 8); roaring64_bitmap_add_many(x.b, v.size(), (uint64_t *)bf.p); settle(x, e, C_UPD);
}
void Eng64::op_remove_many() {
    Bm64 &x = pool[pick()]; auto v = vals(x.m); LOG("  n=%zu", v.size()); IS a = IS::from_values(v); sig(a.hash(), &x); IS e = x.m - a;
    Buf bf(v.size() * 8); if (!v.empty()) memcpy(bf.p, v.data(), v.size() * 8); roaring64_bitmap_remove_many(x.b, v.size(), (uint64_t *)bf.p); settle(x, e, C_UPD);
}
// one context shared by add_bulk, remove_bulk and contains_bulk
void Eng64::op_bulk() {
    Bm64 &x = pool[pick()]; auto v = vals(x.m, 1500); int mode = (int)r.below(4); LOG("  n=%zu mode=%d", v.size(), mode); IS a = IS::from_values(v); sig(mix(a.hash(), mode), &x); IS e = x.m;
    roaring64_bulk_context_t c; memset(&c, 0, sizeof c);
    for (u64 y : v) {
        int q = mode == 3 ? (int)r.below(3) : mode;
        if (q == 0) { e.add(y); roaring64_bitmap_add_bulk(x.b, &c, y); }
        else if (q == 1) { e.remove(y); roaring64_bitmap_remove_bulk(x.b, &c, y); }
        else { bool g = roaring64_bitmap_contains_bulk(x.b, &c, y); digest(g); if (judge & C_UPD) CHECK(g == e.contains(y), "contains_bulk(%llu) = %d during bulk updates", (ull)y, g); }
    }
    settle(x, e, C_UPD);
}
void Eng64::op_add_range() { Bm64 &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b, false); LOG("  [%llu,%llu)", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m | half(a, b); roaring64_bitmap_add_range(x.b, a, b); settle(x, e, C_UPD); }
void Eng64::op_remove_range() { Bm64 &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b, true); LOG("  [%llu,%llu)", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m - half(a, b); roaring64_bitmap_remove_range(x.b, a, b); settle(x, e, C_UPD); }
void Eng64::op_add_range_closed() { Bm64 &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu]", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m; if (a <= b) e.add(a, b); roaring64_bitmap_add_range_closed(x.b, a, b); settle(x, e, C_UPD); }
void Eng64::op_remove_range_closed() {
    Bm64 &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 4)) { a = val(x.m); b = val(x.m); if (a > b) std::swap(a, b); } if (r.chance(1, 20)) { a = 0; b = UINT64_MAX; } if (r.chance(1, 16)) std::swap(a, b);
    LOG("  [%llu,%llu]", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m; if (a <= b) e.remove(a, b); roaring64_bitmap_remove_range_closed(x.b, a, b); settle(x, e, C_UPD);
}
void Eng64::op_clear() { Bm64 &x = pool[pick()]; sig(0, &x); roaring64_bitmap_clear(x.b); settle(x, IS(), C_UPD); }
void Eng64::op_copy() { Bm64 &x = pool[pick()]; sig(0, &x); roaring64_bitmap_t *b = roaring64_bitmap_copy(x.b); if (judge & (C_UPD | C_COPY)) konst(x); fresh(b, x.m, C_UPD | C_COPY); }
void Eng64::op_of_ptr() {
    auto v = vals(guide()); IS e = IS::from_values(v); LOG("  n=%zu", v.size()); ev(mix(hstr("of_ptr64"), e.hash()), !e.empty());
    Buf bf(v.size() * 8); if (!v.empty()) memcpy(bf.p, v.data(), v.size() * 8);
    fresh(roaring64_bitmap_of_ptr(v.size(), (uint64_t *)bf.p), e, C_UPD);
    if (r.chance(1, 8)) { u64 a = val(e), b = val(e), c = val(e); opname = "roaring64_bitmap_from"; fresh(roaring64_bitmap_from(a, b, c), IS::from_values({a, b, c}), C_UPD); }
}
void Eng64::op_from_range() {
    u64 a, b; hrange(guide(), &a, &b, true);
    u64 step = r.pick<u64>({1, 1, 2, 3, 7, 16, 17, 63, 64, 65, 100, 1000, 4096, 65535, 65536, 65537, 1ull << 20, 1ull << 32, (1ull << 32) + 1, 1ull << 48, 1ull << 63, UINT64_MAX, 0});
    if (r.chance(1, 4)) step = r.in(1, 70000);
    if (b > a && step) {
        u64 lim = step < 65536 ? 60ull << 16 : step > UINT64_MAX / 2000 ? UINT64_MAX : step * 2000;
        if (b - a > lim) b = a + lim;
    }
    LOG("  [%llu,%llu) step %llu", (ull)a, (ull)b, (ull)step); ev(mix(mix(hstr("from_range64"), a), mix(b, step)), b > a);
    roaring64_bitmap_t *x = roaring64_bitmap_from_range(a, b, step);
    IS e;
    if (step && b > a) { if (step == 1) e.add(a, b - 1); else for (u64 y = a; y < b;) { e.append(y, y); if (y > UINT64_MAX - step) break; y += step; } }
    if (!x) { if (judge & C_UPD) CHECK(e.empty(), "from_range(%llu,%llu,%llu) returned NULL", (ull)a, (ull)b, (ull)step); return; }
    fresh(x, e, C_UPD);
}
void Eng64::op_move32() {
    World w32 = gen_world32(r); IS s = gen_set(r, w32);
    EncOpt o; o.run_mode = 2; Bytes e = spec_encode32(s, o, &r);
    roaring_bitmap_t *q = roaring_bitmap_portable_deserialize_safe((const char *)e.data(), e.size());
    if (!q) return;
    bool cow = r.chance(1, 3); roaring_bitmap_t *twin = nullptr;
    if (cow) { roaring_bitmap_set_copy_on_write(q, true); if (r.coin()) twin = roaring_bitmap_copy(q); }
    LOG("  from %s cow=%d twin=%d", chunk_profile(s).c_str(), cow, twin != nullptr); ev(mix(hstr("move32"), s.hash() + cow), !s.empty());
    roaring64_bitmap_t *x = roaring64_bitmap_move_from_roaring32(q);
    if (judge & C_UPD) CHECK(roaring_bitmap_is_empty(q), "move_from_roaring32 left the source non-empty");
    roaring_bitmap_add(q, 5); roaring_bitmap_free(q);
    if (!x) fail("move_from_roaring32 returned NULL");
    Bm64 y; y.b = x; y.m = s; settle(y, s, C_UPD);
    if (twin) {  // the twin keeps its own value whatever happens to the moved containers
        IS t = s; for (int i = 0; i < 6; i++) { u64 v = gen_value(r, w32, t) & 0xFFFFFFFF; if (r.coin()) { t.add(v); roaring64_bitmap_add(x, v); } else { t.remove(v); roaring64_bitmap_remove(x, v); } }
        opname = "updates after move_from_roaring32"; settle(y, t, C_UPD);
        if (judge & C_UPD) { CHECK((u128)roaring_bitmap_get_cardinality(twin) == s.card(), "a copy of the moved 32-bit bitmap changed"); }
        roaring_bitmap_free(twin);
    }
    adopt(y);
}
void Eng64::op_scratch() { Bm64 x = build(r.coin() ? gen_set(r, w) : derive_set(r, w, guide())); if (wf) check_wf(x); digest(x.m.hash()); adopt(x); }
// ---- set operations ---------------------------------------------------------------
void Eng64::binary(F2 f, int tt) {
    size_t i = pick(), j = r.chance(1, 12) ? i : other(i); LOG("  #%zu %s | #%zu %s", i, kinds64(pool[i].b).c_str(), j, kinds64(pool[j].b).c_str()); sig(0, &pool[i], &pool[j]);
    roaring64_bitmap_t *b = f(pool[i].b, pool[j].b); IS e = IS::op(pool[i].m, pool[j].m, tt);
    if (judge & C_SET) { konst(pool[i]); if (i != j) konst(pool[j]); }
    fresh(b, e, C_SET);
}
void Eng64::inplace(F2i f, int tt, bool self_ok) {
    size_t i = pick(), j = (self_ok && r.chance(1, 10)) ? i : other(i); LOG("  #%zu %s |= #%zu %s", i, kinds64(pool[i].b).c_str(), j, kinds64(pool[j].b).c_str()); sig(0, &pool[i], &pool[j]);
    IS e = IS::op(pool[i].m, pool[j].m, tt);
    if (i != j && r.chance(1, 3)) { roaring64_bitmap_t *t = roaring64_bitmap_copy(pool[i].b); f(t, pool[j].b); if (judge & C_SET) { konst(pool[i]); konst(pool[j]); } fresh(t, e, C_SET); return; }
    f(pool[i].b, pool[j].b);
    if (i != j && (judge & C_SET)) konst(pool[j]);
    settle(pool[i], e, C_SET);
}
void Eng64::op_aimed() {
    static const struct { const char *n; int tt; void (Eng64::*fn)(); } K[] = {
        {"and", 1, &Eng64::op_and}, {"or", 7, &Eng64::op_or}, {"xor", 6, &Eng64::op_xor}, {"andnot", 2, &Eng64::op_andnot}, {"and_inplace", 1, &Eng64::op_and_in}, {"or_inplace", 7, &Eng64::op_or_in}, {"xor_inplace", 6, &Eng64::op_xor_in}, {"andnot_inplace", 2, &Eng64::op_andnot_in}};
    auto &k = K[r.below(sizeof K / sizeof *K)];
    IS a, b; aim_sets(r, w, k.tt, a, b);
    Bm64 x = build(a), y = build(b);
    size_t i, j;
    if (pool.size() < 2) { pool.push_back(x); pool.push_back(y); i = pool.size() - 2; j = pool.size() - 1; }
    else { i = pick(); j = other(i); roaring64_bitmap_free(pool[i].b); roaring64_bitmap_free(pool[j].b); pool[i] = x; pool[j] = y; }
    fi = (int)i; fj = (int)j; opname = k.n; LOG("  aimed %s", k.n);
    (this->*k.fn)();
    fi = fj = -1;
}
void Eng64::op_and() { binary(roaring64_bitmap_and, 1); }
void Eng64::op_or() { binary(roaring64_bitmap_or, 7); }
void Eng64::op_xor() { binary(roaring64_bitmap_xor, 6); }
void Eng64::op_andnot() { binary(roaring64_bitmap_andnot, 2); }
void Eng64::op_and_in() { inplace(roaring64_bitmap_and_inplace, 1, true); }
void Eng64::op_or_in() { inplace(roaring64_bitmap_or_inplace, 7, false); }
void Eng64::op_xor_in() { inplace(roaring64_bitmap_xor_inplace, 6, false); }
void Eng64::op_andnot_in() { inplace(roaring64_bitmap_andnot_inplace, 2, false); }
void Eng64::op_cards() {
    size_t i = pick(), j = r.chance(1, 12) ? i : other(i); Bm64 &x = pool[i], &y = pool[j]; sig(0, &x, &y);
    u64 a = roaring64_bitmap_and_cardinality(x.b, y.b), o = roaring64_bitmap_or_cardinality(x.b, y.b), d = roaring64_bitmap_andnot_cardinality(x.b, y.b), s = roaring64_bitmap_xor_cardinality(x.b, y.b);
    digest(a); digest(o); digest(d); digest(s);
    if (judge & C_SET) { CHECK(a == (u64)(x.m & y.m).card(), "and_cardinality %llu", (ull)a); CHECK(o == (u64)(x.m | y.m).card(), "or_cardinality %llu", (ull)o); CHECK(d == (u64)(x.m - y.m).card(), "andnot_cardinality %llu", (ull)d); CHECK(s == (u64)(x.m ^ y.m).card(), "xor_cardinality %llu", (ull)s); konst(x); konst(y); }
}
void Eng64::op_flip() { Bm64 &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b, false); LOG("  [%llu,%llu)", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m ^ half(a, b); roaring64_bitmap_t *q = roaring64_bitmap_flip(x.b, a, b); if (judge & C_SET) konst(x); fresh(q, e, C_SET); }
void Eng64::op_flip_closed() { Bm64 &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu]", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m; if (a <= b) e.flip(a, b); roaring64_bitmap_t *q = roaring64_bitmap_flip_closed(x.b, a, b); if (judge & C_SET) konst(x); fresh(q, e, C_SET); }
void Eng64::op_flip_in() { Bm64 &x = pool[pick()]; u64 a, b; hrange(x.m, &a, &b, false); LOG("  [%llu,%llu)", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m ^ half(a, b); roaring64_bitmap_flip_inplace(x.b, a, b); settle(x, e, C_SET); }
void Eng64::op_flip_in_closed() { Bm64 &x = pool[pick()]; u64 a, b; gen_range(r, w, x.m, &a, &b); if (r.chance(1, 16)) std::swap(a, b); LOG("  [%llu,%llu]", (ull)a, (ull)b); sig(a, &x, 0, b); IS e = x.m; if (a <= b) e.flip(a, b); roaring64_bitmap_flip_closed_inplace(x.b, a, b); settle(x, e, C_SET); }
// ---- optimisation, serialization ------------------------------------------------------
void Eng64::op_run_optimize() {
    Bm64 &x = pool[pick()]; LOG("  %s", kinds64(x.b).c_str()); sig(0, &x);
    size_t before = 0;
    if (judge & C_OPT) { Bytes im = image64(x.b); before = payload64(im.data(), im.size()); }
    bool ret = roaring64_bitmap_run_optimize(x.b); digest(ret);
    settle(x, x.m, C_OPT);
    if (judge & C_OPT) {
        roaring64_statistics_t s; roaring64_bitmap_statistics(x.b, &s);
        CHECK(ret == (s.n_run_containers > 0), "run_optimize(64) returned %d with %llu run containers", ret, (ull)s.n_run_containers);
        Bytes im = image64(x.b); size_t off = 8, after = payload64(im.data(), im.size());
        CHECK(after <= before, "run_optimize(64) grew the serialized containers from %zu to %zu bytes", before, after);
        while (off + 4 <= im.size()) { u64 k = im[off] | im[off + 1] << 8 | im[off + 2] << 16 | (u64)im[off + 3] << 24; off += smallest_forms(im.data() + off + 4, im.size() - off - 4, x.m.restrict_to(k << 32, k << 32 | 0xFFFFFFFFull), k << 32) + 4; }
        CHECK(roaring64_bitmap_run_optimize(x.b) == ret, "run_optimize(64) not idempotent"); settle(x, x.m, C_OPT);
    }
}
void Eng64::op_shrink() {
    Bm64 &x = pool[pick()]; LOG("  %s", kinds64(x.b).c_str()); sig(0, &x);
    HookStats a = hooks_stats(); size_t saved = roaring64_bitmap_shrink_to_fit(x.b); HookStats b = hooks_stats();
    settle(x, x.m, C_OPT);
    if ((judge & C_OPT) && hooks_installed()) {
        CHECK(b.live_bytes <= a.live_bytes, "shrink_to_fit(64) grew memory in use from %llu to %llu bytes", (ull)a.live_bytes, (ull)b.live_bytes);
        CHECK(saved == a.live_bytes - b.live_bytes, "shrink_to_fit(64) reports %zu bytes freed, memory in use went down by %llu", saved, (ull)(a.live_bytes - b.live_bytes));
    }
}
void Eng64::op_portable() {
    Bm64 &x = pool[pick()]; sig(0, &x);
    size_t n = roaring64_bitmap_portable_size_in_bytes(x.b); Buf bf(n); size_t k = roaring64_bitmap_portable_serialize(x.b, bf.p);
    if (judge & C_SER) CHECK(k == n, "portable_serialize(64) wrote %zu, announced %zu", k, n);
    digest_bytes(bf.p, n);
    roaring64_bitmap_t *q = roaring64_bitmap_portable_deserialize_safe(bf.p, n);
    if (!q) fail("64-bit portable reader rejects the library's own image");
    fresh(q, x.m, C_SER);
}
void Eng64::op_frozen() {
    Bm64 &x = pool[pick()]; sig(0, &x);
    roaring64_bitmap_shrink_to_fit(x.b);
    size_t n = roaring64_bitmap_frozen_size_in_bytes(x.b);
    if (n == 0) { if (judge & C_SER) fail("frozen_size_in_bytes is 0 after shrink_to_fit"); return; }
    Buf bf(n, 64); size_t k = roaring64_bitmap_frozen_serialize(x.b, bf.p);
    if (judge & C_SER) CHECK(k == n, "frozen_serialize(64) wrote %zu, announced %zu", k, n);
    roaring64_bitmap_t *v = roaring64_bitmap_frozen_view(bf.p, n);
    if (!v) fail("frozen_view(64) rejects the library's own image");
    roaring64_bitmap_t *q = roaring64_bitmap_copy(v);
    roaring64_bitmap_free(v);
    fresh(q, x.m, C_SER);
}
void Eng64::op_free() { if (pool.size() < 2) return; size_t i = pick(); roaring64_bitmap_free(pool[i].b); pool.erase(pool.begin() + i); }
const std::vector<Eng64::Op> &Eng64::ops() {
    static const std::vector<Op> o = {
        {"add", C_UPD, 5, &Eng64::op_add}, {"add_checked", C_UPD, 5, &Eng64::op_add_checked}, {"remove", C_UPD, 5, &Eng64::op_remove}, {"remove_checked", C_UPD, 5, &Eng64::op_remove_checked}, {"burst", C_UPD, 8, &Eng64::op_burst}, {"drain", C_UPD, 4, &Eng64::op_drain},
        {"add_many", C_UPD, 6, &Eng64::op_add_many}, {"remove_many", C_UPD, 6, &Eng64::op_remove_many}, {"bulk", C_UPD, 7, &Eng64::op_bulk},
        {"add_range", C_UPD, 5, &Eng64::op_add_range}, {"add_range_closed", C_UPD, 5, &Eng64::op_add_range_closed}, {"remove_range", C_UPD, 6, &Eng64::op_remove_range}, {"remove_range_closed", C_UPD, 6, &Eng64::op_remove_range_closed},
        {"clear", C_UPD, 1, &Eng64::op_clear}, {"copy", C_UPD | C_COPY, 4, &Eng64::op_copy}, {"of_ptr", C_UPD, 3, &Eng64::op_of_ptr}, {"from_range", C_UPD, 5, &Eng64::op_from_range}, {"move_from_roaring32", C_UPD, 2, &Eng64::op_move32}, {"build", 0, 12, &Eng64::op_scratch},
        {"aimed", C_SET, 12, &Eng64::op_aimed}, {"and", C_SET, 5, &Eng64::op_and}, {"or", C_SET, 5, &Eng64::op_or}, {"xor", C_SET, 5, &Eng64::op_xor}, {"andnot", C_SET, 5, &Eng64::op_andnot},
        {"and_inplace", C_SET, 5, &Eng64::op_and_in}, {"or_inplace", C_SET, 5, &Eng64::op_or_in}, {"xor_inplace", C_SET, 5, &Eng64::op_xor_in}, {"andnot_inplace", C_SET, 5, &Eng64::op_andnot_in}, {"cardinalities", C_SET, 6, &Eng64::op_cards},
        {"flip", C_SET, 4, &Eng64::op_flip}, {"flip_closed", C_SET, 4, &Eng64::op_flip_closed}, {"flip_inplace", C_SET, 4, &Eng64::op_flip_in}, {"flip_closed_inplace", C_SET, 4, &Eng64::op_flip_in_closed},
        {"run_optimize", C_OPT, 5, &Eng64::op_run_optimize}, {"shrink_to_fit", C_OPT, 4, &Eng64::op_shrink}, {"portable", C_SER, 3, &Eng64::op_portable}, {"frozen", C_SER, 3, &Eng64::op_frozen}, {"free", 0, 2, &Eng64::op_free},
    };
    return o;
}
