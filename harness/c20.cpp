// The C++ Roaring64Map class: a pool of maps, each with its model; after every
// member call every map of the pool is compared with its model through its
// portable image, decoded independently.
#include <memory>
#include "eng64.hpp"
#include "roaring64map.hh"
#include "printed.hpp"
typedef unsigned long long ull;
using roaring::Roaring; using roaring::Roaring64Map;
typedef roaring::Roaring64MapSetBitBiDirectionalIterator RIt;
const char *PROP = "C20";
const char *RULE = "a case keeps a pool of 2-5 Roaring64Map objects over a few buckets of 2^32 values (adjacent buckets, the first and the last one, buckets left empty inside) and applies a random history of member calls, operators, ranges across bucket boundaries, copies, moves, reads, writes and iterator walks; after each call every map is compared with its model; an evaluation is one call, distinct by call, arguments and contents of the maps involved";
void harness_init() { hooks_strict(true); }
namespace {
IS read_map(const Roaring64Map &x, std::string *err) {
    size_t n = x.getSizeInBytes(); Buf o(n); memset(o.p, 0xEE, n); size_t k = x.write(o.p);
    if (k != n) { *err = "write returned another size than getSizeInBytes"; return IS(); }
    IS s; size_t u = 0; *err = spec_decode64((unsigned char *)o.p, n, s, &u); if (err->empty() && u != n) *err = "image longer than the format describes"; return s;
}
struct MOb { Roaring64Map *p = nullptr; IS m; bool frozen = false; std::shared_ptr<Buf> back; };
struct MT {
    Rng &r; World w; std::vector<MOb> pool; std::string op; u64 budget = 4; bool heavy = false;  // wide operations left
    MT(Rng &rr, const World &ww) : r(rr), w(ww) {}
    ~MT() { while (!pool.empty()) { delete pool.back().p; pool.pop_back(); } }
    size_t pick() { return r.below(pool.size()); }
    size_t mut() { std::vector<size_t> v; for (size_t i = 0; i < pool.size(); i++) if (!pool[i].frozen) v.push_back(i); return r.of(v); }
    size_t other(size_t i) { if (pool.size() == 1) return i; size_t j = r.below(pool.size() - 1); return j >= i ? j + 1 : j; }
    void begin(const char *o, u64 a = 0, u64 b = 0, const MOb *x = nullptr, const MOb *y = nullptr) {
        op = o; g_ops++; cov2("op", o); if (x && x->frozen) cov2("frozen", o); if (w.cow) cov2("cow", o);
        eval_sig(mix(mix(hstr(o), mix(a, b)), mix(x ? x->m.hash() : 0, y ? y->m.hash() + 1 : 0)), (x && !x->m.empty()) || (y && !y->m.empty()) || (!x && !y));
        LOG("  [%llu/%llu] %s %llu %llu on #%zd%s #%zd", (ull)hooks_stats().live_blocks, (ull)hooks_stats().total, o, (ull)a, (ull)b, x ? x - pool.data() : -1, x && x->frozen ? "[frozen]" : "", y ? y - pool.data() : -1);
    }
    void cmp(const Roaring64Map &p, const IS &m, const char *what) {
        std::string e; IS got = read_map(p, &e); count_check();
        if (!e.empty()) fail("%s: %s: image does not conform: %s", op.c_str(), what, e.c_str());
        if (got != m) fail("%s: %s holds other contents: %s", op.c_str(), what, diff_str(m, got).c_str());
    }
    void verify() { for (size_t i = 0; i < pool.size(); i++) { char b[40]; snprintf(b, sizeof b, "map %zu", i); cmp(*pool[i].p, pool[i].m, b); digest(pool[i].m.hash()); } }
    bool big(const MOb &x) { return x.m.card() > 200000; }
    u64 val(const MOb &x) {
        if (r.chance(1, 5)) { u64 k = w.keys[r.below(w.keys.size())] >> 16 << 32; return k + r.pick<u64>({0, 1, 0xFFFFFFFF, 0xFFFFFFFE, 65535, 65536}); }
        u64 v = gen_value(r, w, x.m); bool known = false; for (u64 k : w.keys) known |= k >> 16 == v >> 32;
        return known ? v : w.keys[r.below(w.keys.size())] << 16 | (v & 0xFFFF);
    }
    // a range of moderate cost: inside a bucket, across a bucket boundary, rarely over a whole bucket
    void range(const MOb &x, u64 *lo, u64 *hi) {
        u64 a, b;
        switch (r.below(8)) {
            case 0: case 1: { u64 k = w.keys[r.below(w.keys.size())] >> 16; u64 edge = (k << 32) + (r.coin() && k != 0xFFFFFFFF ? 1ull << 32 : 0); u64 d = r.pick<u64>({0, 1, 65535, 65536, 70000, 300000}), f = r.pick<u64>({0, 1, 2, 65536, 65537, 140000}); a = edge < d ? 0 : edge - d; b = edge > UINT64_MAX - f ? UINT64_MAX : edge + f; break; }
            case 2: if (budget && r.chance(1, 3)) { budget--; u64 k = w.keys[r.below(w.keys.size())] >> 16; if (r.chance(1, 3)) { a = k << 32; b = a | 0xFFFFFFFF; cov("whole bucket"); break; } a = (k << 32) + (r.coin() ? 0 : r.below(1ull << 32)); u64 n = r.chance(1, 4) ? 2 : 1; u64 e = k + n > 0xFFFFFFFF ? 0xFFFFFFFF : k + n; b = (e << 32) + (r.coin() ? r.below(1ull << 32) : r.pick<u64>({0, 1, 0xFFFFFFFF})); if (b < a) std::swap(a, b); cov("wide range"); break; }
            // fall through
            case 3: if (!x.m.empty()) { auto &p = x.m.v[r.below(x.m.v.size())]; a = p.first; b = p.second; if (r.chance(1, 3) && a) a--; if (r.chance(1, 3) && b < UINT64_MAX) b++; break; }
            // fall through
            default: a = val(x); b = r.coin() ? val(x) : a + r.below(200000); if (b < a) std::swap(a, b); if (b - a > 400000) b = a + r.below(400000); if (b < a) b = UINT64_MAX;
        }
        if (b - a > 20000000 && !(b - a > 1ull << 31 && budget < 4)) { b = a + r.below(20000000); }
        *lo = a; *hi = b;
    }
    IS set() {
        IS s = gen_set(r, w); if (s.card() > 2000000 || s.nint() > 8000) { s.clear(); s.add(w.keys[0] << 16, (w.keys[0] << 16) + r.below(70000)); }
        if (r.coin()) { MOb t; t.m = s; u64 a, b; range(t, &a, &b); if (b - a < 1000000) s.add(a, b); }
        return s;
    }
    IS derive(const IS &m) { IS s = derive_set(r, w, m); if (s.nint() > 8000 || s.card() > 3000000) return m; return s; }
    void add_obj(MOb o) { pool.push_back(o); while (pool.size() > (heavy ? 3u : 5u)) drop(r.below(pool.size() - 1)); }
    void drop(size_t i) { if (pool.size() <= 1) return; bool last = true; for (size_t j = 0; j < pool.size(); j++) if (j != i && !pool[j].frozen) last = false; if (last) return; delete pool[i].p; pool.erase(pool.begin() + i); }
    // an image of m with some extra, empty buckets
    Bytes image(const IS &m, bool empties) {
        std::vector<u64> ks; for (auto &p : m.v) for (u64 k = p.first >> 32; k <= p.second >> 32; k++) ks.push_back(k);
        if (empties) for (int i = 0; i < 3; i++) { u64 k = w.keys[r.below(w.keys.size())] >> 16; if (r.coin()) k += r.below(3) - 1; if (k <= 0xFFFFFFFF) ks.push_back(k); }
        std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
        Bytes out(8); u64 n = ks.size(); memcpy(out.data(), &n, 8);
        for (u64 k : ks) { EncOpt o; o.run_mode = (int)r.below(4); IS c = m.restrict_to(k << 32, (k << 32) | 0xFFFFFFFF).shift(-(i128)(k << 32), 0, 0xFFFFFFFF); Bytes e = spec_encode32(c, o, &r); uint32_t q = (uint32_t)k; out.insert(out.end(), (unsigned char *)&q, (unsigned char *)&q + 4); out.insert(out.end(), e.begin(), e.end()); if (c.empty()) cov("empty bucket/read"); }
        return out;
    }
    MOb make(const IS &s) {
        MOb o; o.m = s; op = "construction";
        switch (s.card() > 30000 ? r.below(3) : r.below(5)) {
            case 0: case 1: { Bytes e = image(s, r.coin()); Buf b(e.size()); memcpy(b.p, e.data(), e.size()); o.p = new Roaring64Map(Roaring64Map::readSafe(b.p, e.size())); break; }
            case 2: if (s.nint() < 2000) { o.p = new Roaring64Map(); for (auto &p : s.v) o.p->addRangeClosed(p.first, p.second); break; }
            // fall through
            case 3: { std::vector<uint64_t> v; for (auto &p : s.v) { if (p.second - p.first > 100000) { o.p = new Roaring64Map(); for (auto &q : s.v) o.p->addRangeClosed(q.first, q.second); break; } for (u64 x = p.first;; x++) { v.push_back(x); if (x == p.second) break; } } if (!o.p) { if (r.coin()) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); o.p = new Roaring64Map(v.size(), v.data()); } break; }
            default: o.p = new Roaring64Map(); for (auto &p : s.v) for (u64 x = p.first;; x++) { o.p->add((uint64_t)x); if (x == p.second) break; }
        }
        o.p->setCopyOnWrite(w.cow); if (r.chance(1, 4)) o.p->runOptimize();
        cmp(*o.p, o.m, "new map"); return o;
    }
    // ---- updates -----------------------------------------------------------
    void update() {
        size_t i = mut(); MOb &x = pool[i]; Roaring64Map &R = *x.p; u64 a, b; range(x, &a, &b); u64 v = val(x); u64 hi = b + 1; bool half = b != UINT64_MAX;
        uint32_t l = (uint32_t)(r.coin() ? v : r.below(200000)), h = (uint32_t)std::min<u64>(0xFFFFFFFF, (u64)l + r.below(200000)); if (r.chance(1, 10)) std::swap(l, h);
        switch (r.below(22)) {
            case 0: begin("add", v, 0, &x); R.add((uint64_t)v); x.m.add(v); break;
            case 1: begin("add 32-bit", l, 0, &x); R.add(l); x.m.add(l); break;
            case 2: { begin("addChecked", v, 0, &x); bool k = R.addChecked((uint64_t)v); CHECK(k == !x.m.contains(v), "addChecked(%llu) returned %d", (ull)v, k); x.m.add(v); break; }
            case 3: { begin("addChecked 32-bit", l, 0, &x); bool k = R.addChecked(l); CHECK(k == !x.m.contains(l), "addChecked(%u) returned %d", l, k); x.m.add(l); break; }
            case 4: if (!half) return; if (r.chance(1, 12)) { hi = r.pick<u64>({a, 0, a / 2}); } begin("addRange", a, hi, &x); R.addRange(a, hi); if (a < hi) x.m.add(a, hi - 1); break;
            case 5: if (r.chance(1, 12) && a != b) { begin("addRangeClosed reversed", b, a, &x); R.addRangeClosed((uint64_t)b, (uint64_t)a); break; } begin("addRangeClosed", a, b, &x); R.addRangeClosed((uint64_t)a, (uint64_t)b); x.m.add(a, b); break;
            case 6: begin("addRangeClosed 32-bit", l, h, &x); R.addRangeClosed(l, h); if (l <= h) x.m.add(l, h); break;
            case 7: case 8: {
                std::vector<uint64_t> q; size_t n = r.below(60); for (size_t k = 0; k < n; k++) { q.push_back(val(x)); if (r.coin()) q.push_back(q.back() + r.below(3)); } u64 g = 0; for (u64 y : q) g = mix(g, y);
                begin("addMany", g, q.size(), &x); R.addMany(q.size(), q.data()); for (u64 y : q) x.m.add(y); break; }
            case 9: { std::vector<uint32_t> q; size_t n = r.below(20); for (size_t k = 0; k < n; k++) q.push_back((uint32_t)val(x)); begin("addMany 32-bit", n, n ? q[0] : 0, &x); R.addMany(q.size(), q.data()); for (u64 y : q) x.m.add(y); break; }
            case 10: if (!x.m.empty() && r.coin()) { u64 y; x.m.select(r.below((u64)std::min<u128>(x.m.card(), (u128)1 << 60)), &y); v = y; } begin("remove", v, 0, &x); R.remove((uint64_t)v); x.m.remove(v); break;
            case 11: begin("remove 32-bit", l, 0, &x); R.remove(l); x.m.remove(l); break;
            case 12: { begin("removeChecked", v, 0, &x); bool k = R.removeChecked((uint64_t)v); CHECK(k == x.m.contains(v), "removeChecked(%llu) returned %d", (ull)v, k); x.m.remove(v); break; }
            case 13: { begin("removeChecked 32-bit", l, 0, &x); bool k = R.removeChecked(l); CHECK(k == x.m.contains(l), "removeChecked(%u) returned %d", l, k); x.m.remove(l); break; }
            case 14: case 15: if (r.chance(1, 5)) { a = val(x); b = val(x); if (b < a) std::swap(a, b); if (r.chance(1, 5)) b = UINT64_MAX; if (r.chance(1, 5)) a = 0; half = b != UINT64_MAX; hi = b + 1; cov("removal over several buckets"); }
                if (half && r.coin()) { begin("removeRange", a, hi, &x); R.removeRange(a, hi); } else { begin("removeRangeClosed", a, b, &x); R.removeRangeClosed((uint64_t)a, (uint64_t)b); } x.m.remove(a, b); break;
            case 16: begin("removeRangeClosed 32-bit", l, h, &x); R.removeRangeClosed(l, h); if (l <= h) x.m.remove(l, h); break;
            case 17: if (half && r.coin()) { begin("flip", a, hi, &x); R.flip(a, hi); } else { begin("flipClosed", a, b, &x); R.flipClosed((uint64_t)a, (uint64_t)b); } x.m.flip(a, b); break;
            case 18: begin("flipClosed 32-bit", l, h, &x); R.flipClosed(l, h); if (l <= h) x.m.flip(l, h); break;
            case 19: { begin("runOptimize", 0, 0, &x); bool k = R.runOptimize(); bool runs = has_runs(R); CHECK(k == runs, "runOptimize returned %d, the result has %s run container", k, runs ? "a" : "no"); break; }
            case 20: { if (x.m.card() > MAX_EXPAND) return; bool runs = has_runs(R); begin("removeRunCompression", 0, 0, &x); bool k = R.removeRunCompression(); CHECK(!has_runs(R), "removeRunCompression leaves run containers"); CHECK(k == runs, "removeRunCompression returned %d, the map had %s run container", k, runs ? "a" : "no"); break; }
            default: if (r.coin()) { begin("shrinkToFit", 0, 0, &x); R.shrinkToFit(); } else if (r.chance(1, 5)) { begin("clear", 0, 0, &x); R.clear(); x.m.clear(); } else return;
        }
        verify();
    }
    static bool has_runs(const Roaring64Map &R) {
        size_t n = R.getSizeInBytes(); Buf o(n); R.write(o.p); u64 k; memcpy(&k, o.p, 8); size_t at = 8; bool any = false;
        for (u64 i = 0; i < k; i++) { at += 4; SpecLayout L; if (!spec_layout32((unsigned char *)o.p + at, n - at, L)) fail("inner image does not parse"); for (auto &c : L.ch) any |= c.kind == 3; at += L.end; }
        return any;
    }
    // ---- operators ---------------------------------------------------------
    void finish(MOb o) { cmp(*o.p, o.m, "result"); o.p->setCopyOnWrite(!w.cow); o.p->setCopyOnWrite(w.cow); verify(); if (r.coin()) add_obj(o); else delete o.p; verify(); }
    void setop() {
        size_t i = pick(), j = r.chance(1, 8) ? i : other(i); MOb &x = pool[i], &y = pool[j]; if (w.cow && (x.frozen || y.frozen)) return;
        static const char *const nm[] = {"&", "-", "|", "^"}; static const int tt[] = {1, 2, 7, 6}; int k = (int)r.below(4);
        if (r.coin() && !x.frozen) {
            begin((std::string("operator") + nm[k] + (i == j ? "= self" : "=")).c_str(), 0, 0, &x, &y); IS e = IS::op(x.m, y.m, tt[k]); Roaring64Map *q;
            switch (k) { case 0: q = &(*x.p &= *y.p); break; case 1: q = &(*x.p -= *y.p); break; case 2: q = &(*x.p |= *y.p); break; default: q = &(*x.p ^= *y.p); }
            CHECK(q == x.p, "%s does not return the object", op.c_str()); x.m = e; verify();
        } else {
            MOb o; o.m = IS::op(x.m, y.m, tt[k]); begin((std::string("operator") + nm[k] + (i == j ? " self" : "")).c_str(), 0, 0, &x, &y);
            switch (k) { case 0: o.p = new Roaring64Map(*x.p & *y.p); break; case 1: o.p = new Roaring64Map(*x.p - *y.p); break; case 2: o.p = new Roaring64Map(*x.p | *y.p); break; default: o.p = new Roaring64Map(*x.p ^ *y.p); }
            finish(o);
        }
    }
    void fastunion() {
        std::vector<const Roaring64Map *> v; IS e; size_t n = r.below(6); u64 h = 0; for (size_t k = 0; k < n; k++) { MOb &x = pool[pick()]; if (w.cow && x.frozen) continue; v.push_back(x.p); e = e | x.m; h = mix(h, x.m.hash()); }
        begin("fastunion", h, v.size()); MOb o; o.m = e; const Roaring64Map *none = nullptr; o.p = new Roaring64Map(Roaring64Map::fastunion(v.size(), v.empty() ? &none : v.data())); finish(o);
    }
    void relations() {
        size_t i = pick(), j = r.chance(1, 8) ? i : other(i); MOb &x = pool[i], &y = pool[j]; const Roaring64Map &X = *x.p, &Y = *y.p; begin("relations", 0, 0, &x, &y);
        CHECK((X == Y) == (x.m == y.m), "operator== is %d", X == Y); CHECK(X.isSubset(Y) == x.m.subset_of(y.m), "isSubset is %d", X.isSubset(Y)); CHECK(X.isStrictSubset(Y) == (x.m.subset_of(y.m) && x.m != y.m), "isStrictSubset");
        if (big(x)) { verify(); return; }
        Bytes e = image(x.m, true); Buf b(e.size()); memcpy(b.p, e.data(), e.size()); Roaring64Map Z = Roaring64Map::read(b.p); CHECK(X == Z && Z == X && X.isSubset(Z) && Z.isSubset(X) && !Z.isStrictSubset(X), "a map with empty buckets compares differently"); CHECK((Z == Y) == (x.m == y.m) && (Y == Z) == (x.m == y.m), "operator== with empty buckets inside"); verify();
    }
    void queries() {
        size_t which = pick(); if (heavy && r.coin()) for (size_t i = 0; i < pool.size(); i++) if (pool[i].m.card() > pool[which].m.card()) which = i;
        MOb &x = pool[which]; const IS &m = x.m; u64 v = val(x); begin("queries", v, 0, &x);
        std::unique_ptr<Roaring64Map> alt; const Roaring64Map *pX = x.p; if (r.chance(1, 3) && !big(x)) { Bytes e = image(m, true); Buf b(e.size()); memcpy(b.p, e.data(), e.size()); alt.reset(new Roaring64Map(Roaring64Map::read(b.p))); pX = alt.get(); cov("queries with empty buckets"); }
        const Roaring64Map &X = *pX;
        CHECK((u128)X.cardinality() == m.card(), "cardinality %llu", (ull)X.cardinality()); CHECK(X.isEmpty() == m.empty(), "isEmpty %d", X.isEmpty()); CHECK(!X.isFull(), "isFull");
        CHECK(X.minimum() == (m.empty() ? UINT64_MAX : m.min()), "minimum %llu", (ull)X.minimum()); CHECK(X.maximum() == (m.empty() ? 0 : m.max()), "maximum %llu", (ull)X.maximum());
        for (int k = 0; k < 6; k++) {
            v = val(x); if (heavy && r.coin()) v |= 0xFFFFFFFF; CHECK(X.contains((uint64_t)v) == m.contains(v), "contains(%llu)", (ull)v); uint32_t s = (uint32_t)v; CHECK(X.contains(s) == m.contains(s), "contains(%u)", s);
            CHECK(X.rank(v) == (u64)m.rank(v), "rank(%llu) = %llu", (ull)v, (ull)X.rank(v)); int64_t g = m.contains(v) ? (int64_t)(u64)m.rank(v) - 1 : -1; CHECK(X.getIndex(v) == g, "getIndex(%llu) = %lld", (ull)v, (long long)X.getIndex(v));
            u64 c = (u64)m.card(), q = r.chance(1, 5) ? c : r.chance(1, 4) && m.contains(v) ? (u64)m.rank(v) : r.below(c + 2), e = 7, want; bool wk = m.select(q, &want), ok = X.select(q, (uint64_t *)&e); CHECK(ok == wk && (!ok || e == want), "select(%llu) = %d %llu", (ull)q, ok, (ull)e);
        }
        if (!big(x)) {
            u64 c = (u64)m.card(); std::vector<u64> t; m.values_from(0, (size_t)c, t);
            { Buf o(c * 8); X.toUint64Array((uint64_t *)o.p); for (u64 k = 0; k < c; k++) { u64 e; memcpy(&e, o.p + 8 * k, 8); if (e != t[k]) fail("toUint64Array: element %llu is %llu, expected %llu", (ull)k, (ull)e, (ull)t[k]); } }
            if (c < 2000) { std::string s = "{"; for (size_t k = 0; k < t.size(); k++) { if (k) s += ','; s += std::to_string(t[k]); } s += '}'; CHECK(X.toString() == s, "toString gives %s", X.toString().substr(0, 80).c_str()); if (r.below(8) == 0) { std::string q = printed([&] { X.printf(); }); CHECK(q == s + "\n" || q == "?", "printf gives %s", q.substr(0, 200).c_str()); } cov("string"); }
            struct S { std::vector<u64> *t; size_t i, stop; bool bad; } st{&t, 0, (size_t)r.below(c + 2), false};
            X.iterate([](uint64_t y, void *p) -> bool { S *s = (S *)p; if (s->i >= s->t->size() || (*s->t)[s->i] != y) { s->bad = true; return false; } s->i++; return s->i < s->stop; }, &st);
            CHECK(!st.bad, "iterate: wrong value at index %zu", st.i); CHECK(st.i == std::min<size_t>(t.size(), st.stop ? st.stop : 1), "iterate visited %zu values, told to stop at %zu of %zu", st.i, st.stop, t.size());
        }
        verify();
    }
    // ---- value semantics ---------------------------------------------------
    void values() {
        size_t i = pick(), j = r.chance(1, 6) ? i : other(i); MOb &x = pool[i], &y = pool[j];
        switch (r.below(11)) {
            case 0: { begin("copy constructor", 0, 0, &x); MOb o; o.p = new Roaring64Map(*x.p); o.m = x.m; finish(o); break; }
            case 1: case 2: { begin(i == j ? "copy assignment to itself" : y.frozen ? "copy assignment over a frozen view" : "copy assignment", 0, 0, &x, &y); *y.p = *x.p; if (i != j) { y.m = x.m; y.frozen = false; y.back.reset(); y.p->setCopyOnWrite(w.cow); } verify(); break; }
            case 3: { begin("move constructor", 0, 0, &x); MOb o; o.p = new Roaring64Map(std::move(*x.p)); o.m = x.m; o.frozen = x.frozen; o.back = x.back; refill(x); if (o.frozen) { add_obj(o); verify(); } else finish(o); break; }
            case 4: { if (i == j) return; begin(y.frozen ? "move assignment over a frozen view" : "move assignment", 0, 0, &x, &y); *y.p = std::move(*x.p); y.m = x.m; y.frozen = x.frozen; y.back = x.back; refill(x); verify(); break; }
            case 5: { begin("swap", 0, 0, &x, &y); if (r.coin()) x.p->swap(*y.p); else if (i != j) std::swap(*x.p, *y.p); else return; if (i != j) { std::swap(x.m, y.m); std::swap(x.frozen, y.frozen); std::swap(x.back, y.back); if (!x.frozen) x.p->setCopyOnWrite(w.cow); if (!y.frozen) y.p->setCopyOnWrite(w.cow); } verify(); break; }
            case 6: { u64 a = val(x), b = val(x), c = val(y); begin(y.frozen ? "list assignment over a frozen view" : "list assignment", mix(a, b), c, &y); *y.p = {a, b, c, a}; y.m = IS::from_values({a, b, c}); y.frozen = false; y.back.reset(); y.p->setCopyOnWrite(w.cow); verify(); break; }
            case 7: { u64 a = val(x), b = val(x), c = val(x); MOb o; o.m = IS::from_values({a, b, c}); begin("constructors from values", mix(a, b), c); uint64_t d[4] = {a, b, c, b}; uint32_t d32[3] = {(uint32_t)a, (uint32_t)b, (uint32_t)c};
                switch (r.below(7)) { case 0: o.p = new Roaring64Map({a, b, c, b}); break; case 1: o.p = new Roaring64Map(4, d); break; case 2: o.p = new Roaring64Map(Roaring64Map::bitmapOf(4, (uint64_t)a, (uint64_t)b, (uint64_t)c, (uint64_t)b)); break; case 3: o.p = new Roaring64Map(Roaring64Map::bitmapOfList({a, b, c, b})); break;
                    case 4: o.p = new Roaring64Map(3, d32); o.m = IS::from_values({d32[0], d32[1], d32[2]}); break;
                    case 5: { Roaring q(3, d32); if (r.coin()) o.p = new Roaring64Map(q); else o.p = new Roaring64Map(std::move(q)); o.m = IS::from_values({d32[0], d32[1], d32[2]}); break; }
                    default: { roaring_bitmap_t *q = roaring_bitmap_of_ptr(3, d32); o.p = new Roaring64Map(q); o.m = IS::from_values({d32[0], d32[1], d32[2]}); } }
                finish(o); break; }
            case 8: begin("destructor", 0, 0, &x); drop(i); verify(); break;
            case 9: { begin("view object", 0, 0, &x); MOb o; o.m = x.m; o.frozen = true;
                if (r.coin()) { size_t n = x.p->getFrozenSizeInBytes(); o.back = std::make_shared<Buf>(n, 32); x.p->writeFrozen(o.back->p); o.p = new Roaring64Map(Roaring64Map::frozenView(o.back->p)); }
                else { size_t n = x.p->getSizeInBytes(); o.back = std::make_shared<Buf>(n); x.p->write(o.back->p); o.p = new Roaring64Map(Roaring64Map::portableDeserializeFrozen(o.back->p)); }
                if (i < pool.size() && r.chance(1, 3) && pool.size() > 1) drop(i); verify(); add_obj(o); verify(); break; }
            default: add_obj(make(r.coin() ? set() : derive(x.m))); verify();
        }
        bool any = false; for (auto &z : pool) any |= !z.frozen;
        if (!any) add_obj(make(set()));
    }
    void refill(MOb &x) { x.frozen = false; x.back.reset(); switch (r.below(3)) { case 0: delete x.p; x.p = new Roaring64Map(); x.m.clear(); break; case 1: { MOb n = make(set()); *x.p = *n.p; x.m = n.m; delete n.p; break; } default: x.p->clear(); x.p->add((uint64_t)5); x.m = IS::from_values({5}); } x.p->setCopyOnWrite(w.cow); }
    // ---- input and output --------------------------------------------------
    void io() {
        MOb &x = pool[pick()]; int how = (int)r.below(5); static const char *const nm[] = {"write/readSafe", "write/read", "write/read native", "frozen round trip", "portable frozen round trip"}; begin(nm[how], 0, 0, &x);
        MOb o; o.m = x.m; bool portable = how != 2;
        if (how == 3) {
            size_t n = x.p->getFrozenSizeInBytes(); Buf b(n, 32); memset(b.p, 0xEE, n); x.p->writeFrozen(b.p);
            const Roaring64Map v = Roaring64Map::frozenView(b.p); CHECK(v == *x.p && *x.p == v, "a frozen view is not equal to the map written"); cmp(v, x.m, "frozen view"); o.p = new Roaring64Map(v);
        } else {
            size_t n = x.p->getSizeInBytes(portable); Buf b(n, 16, r.below(8)); memset(b.p, 0xEE, n); size_t k = x.p->write(b.p, portable); CHECK(k == n, "write wrote %zu bytes, getSizeInBytes announced %zu", k, n);
            { Buf c(n, 16, r.below(8)); memset(c.p, 0x11, n); x.p->write(c.p, portable); CHECK(!memcmp(b.p, c.p, n), "write leaves announced bytes unwritten"); }
            try {
                switch (how) { case 0: { size_t sl = r.below(20); Buf c(n + sl); memcpy(c.p, b.p, n); o.p = new Roaring64Map(Roaring64Map::readSafe(c.p, n + sl)); break; }
                    case 1: case 2: o.p = new Roaring64Map(Roaring64Map::read(b.p, portable)); break;
                    default: { const Roaring64Map v = Roaring64Map::portableDeserializeFrozen(b.p); CHECK(v == *x.p, "a view of the portable image is not equal to the map written"); cmp(v, x.m, "view of the portable image"); o.p = new Roaring64Map(v); } }
            } catch (std::exception &e) { fail("reading back a written map throws '%s'", e.what()); }
            for (int t = 0; t < 4 && portable; t++) { size_t cut = r.coin() ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 6)); Buf c(cut); memcpy(c.p, b.p, cut); bool threw = false; u64 live = hooks_stats().live_blocks; try { Roaring64Map q = Roaring64Map::readSafe(c.p, cut); } catch (std::exception &) { threw = true; } CHECK(threw, "readSafe accepts %zu of %zu bytes", cut, n); if (hooks_installed()) CHECK(hooks_stats().live_blocks == live, "memory: a throwing readSafe leaves memory allocated"); cov("truncated read throws"); }
        }
        CHECK(*o.p == *x.p && *x.p == *o.p, "a map read back is not equal to the one written"); finish(o);
    }
    // ---- iterators ---------------------------------------------------------
    struct Cu { int st; u64 v; };
    void iterate() {
        MOb &x = pool[pick()]; const IS &m = x.m; begin("iterators", 0, 0, &x);
        std::unique_ptr<Roaring64Map> alt; const Roaring64Map *pX = x.p; if (r.coin() && !big(x)) { Bytes e = image(m, true); Buf b(e.size()); memcpy(b.p, e.data(), e.size()); alt.reset(new Roaring64Map(Roaring64Map::read(b.p))); pX = alt.get(); cov("iterators with empty buckets"); }
        const Roaring64Map &X = *pX; const RIt end = X.end();
        CHECK((X.begin() == X.end()) == m.empty() && (X.begin() != X.end()) == !m.empty() && (X.end() == X.begin()) == m.empty() && (X.end() != X.begin()) == !m.empty(), "begin() and end() of a map that is %s", m.empty() ? "empty" : "not empty");
        if (m.card() < 30000 && r.chance(1, 3)) {
            std::vector<u64> t; m.values_from(0, (size_t)m.card(), t); size_t k = 0; for (u64 v : X) { if (k >= t.size() || t[k] != v) fail("range for: element %zu is %llu", k, (ull)v); k++; } CHECK(k == t.size(), "range for visits %zu of %zu values", k, t.size());
            if (!t.empty()) { RIt it = X.end(); size_t q = t.size(); bool post = r.coin(); do { if (post) it--; else --it; q--; if (*it != t[q]) fail("walking back from the end (%s): element %zu is %llu", post ? "it--" : "--it", q, (ull)*it); } while (q); CHECK(it == X.begin(), "walking back from the end does not arrive at begin()"); }
        }
        std::vector<std::pair<RIt, Cu>> its; for (int k = 0; k < 3; k++) its.push_back({k == 2 ? X.end() : X.begin(), k == 2 || m.empty() ? Cu{2, 0} : Cu{0, m.min()}});
        for (int s = 0; s < 30; s++) {
            size_t k = r.below(its.size()); RIt &it = its[k].first; Cu &c = its[k].second; Cu old = c; int o = (int)r.below(7); const char *nm = "";
            if (o <= 1) { if (c.st != 0) continue; nm = o ? "it++" : "++it"; if (c.v == m.max()) c.st = 2; else m.next_ge(c.v + 1, &c.v); if (o) { RIt p = it++; CHECK(*p == old.v, "it++ returns %llu, expected %llu", (ull)*p, (ull)old.v); } else { RIt &p = ++it; CHECK(&p == &it, "++it"); } }
            else if (o <= 3) { if (m.empty() || (c.st == 0 && c.v == m.min())) continue; nm = o == 2 ? "it--" : "--it"; if (c.st == 2) { c.st = 0; c.v = m.max(); } else m.prev_le(c.v - 1, &c.v); if (o == 2) { RIt p = it--; if (old.st == 0) CHECK(*p == old.v, "it-- returns %llu", (ull)*p); else CHECK(p == end, "it-- from the end does not return the end"); } else { RIt &p = --it; CHECK(&p == &it, "--it"); } }
            else if (o <= 5) { u64 v = val(x); if (r.chance(1, 4)) { u64 y = (v >> 32) + r.below(3) - 1; v = y << 32 | (v & 0xFFFFFFFF); } u64 y; nm = "move_equalorlarger"; LOG("    seek %llu", (ull)v); if (m.next_ge(v, &y)) { c.st = 0; c.v = y; } else c.st = 2; bool ok = r.chance(1, 4) ? it.move(v) : it.move_equalorlarger(v); CHECK(ok == (c.st == 0), "move_equalorlarger(%llu) returned %d", (ull)v, ok); }
            else { nm = "copy"; its[k] = its[r.below(its.size())]; }
            g_ops++; cov2("iterator", nm); LOG("    it%zu %s -> %s %llu", k, nm, c.st == 0 ? "at" : "end", (ull)c.v);
            const RIt &A = its[k].first; Cu ca = its[k].second;
            if (ca.st == 0) CHECK(*A == ca.v, "%s: *it is %llu, expected %llu", nm, (ull)*A, (ull)ca.v);
            CHECK((A == end) == (ca.st == 2) && (A != end) == (ca.st != 2) && (end == A) == (ca.st == 2) && (end != A) == (ca.st != 2), "%s: comparison with the end iterator gives ==%d !=%d, reversed ==%d !=%d at %s", nm, A == end, A != end, end == A, end != A, ca.st == 0 ? "a value" : "the end");
            const RIt &B = its[r.below(its.size())].first; Cu cb = {0, 0}; for (auto &z : its) if (&z.first == &B) cb = z.second;
            u128 pa = ca.st == 0 ? (u128)ca.v : (u128)1 << 64, pb = cb.st == 0 ? (u128)cb.v : (u128)1 << 64;
            CHECK((A == B) == (pa == pb) && (A != B) == (pa != pb), "%s: equality of iterators", nm);
            CHECK((A < B) == (pa < pb) && (A <= B) == (pa <= pb) && (A > B) == (pa > pb) && (A >= B) == (pa >= pb), "%s: order of iterators: < %d <= %d > %d >= %d", nm, A < B, A <= B, A > B, A >= B);
        }
        verify();
    }
    void step() {
        switch (r.below(20)) {
            case 0: case 1: case 2: case 3: case 4: case 5: case 6: update(); break;
            case 7: case 8: case 9: setop(); break;
            case 10: fastunion(); break;
            case 11: relations(); break;
            case 12: case 13: queries(); break;
            case 14: io(); break;
            case 15: case 16: iterate(); break;
            default: values(); break;
        }
        if (heavy && r.coin()) queries();
    }
};
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    {
        World w = gen_world64(r); w.cow = r.chance(1, 3); w.wide = false;
        // a few buckets of 2^32 values, with chunks at their edges
        u64 base = r.pick<u64>({0, 0, 1, 0x7FFFFFFF, 0xFFFFFFFD, 0xFFFFFFFF, 5, r.below(1ull << 32)}); std::vector<u64> bs; for (u64 k = 0; k < r.in(1, 4); k++) if (base + k <= 0xFFFFFFFF) bs.push_back(base + k);
        if (r.coin()) bs.push_back(r.pick<u64>({0, 0xFFFFFFFF, 0x80000000, r.below(1ull << 32)}));
        w.keys.clear(); for (u64 b : bs) for (u64 n = r.in(1, 3); n; n--) w.keys.push_back(b << 16 | r.pick<u64>({0, 0, 1, 0xFFFF, 0xFFFF, 0xFFFE, r.below(65536)}));
        std::sort(w.keys.begin(), w.keys.end()); w.keys.erase(std::unique(w.keys.begin(), w.keys.end()), w.keys.end());
        MT t(r, w); t.budget = r.chance(1, 12) ? 1 : 0; t.heavy = t.budget > 0; size_t n = r.in(2, 3);
        for (size_t i = 0; i < n; i++) t.pool.push_back(t.make(i && r.coin() ? t.derive(t.pool[0].m) : t.set()));
        t.op = "construction"; t.verify();
        unsigned k = t.heavy ? 10 : (unsigned)r.in(8, 36); for (unsigned i = 0; i < k; i++) t.step();
        if (c < 3) { std::string s; for (auto &x : t.pool) s += chunk_profile(x.m) + (x.frozen ? " (view); " : "; "); sample("case %llu (%s) final pool: %s", (ull)c, w.cow ? "cow" : "no cow", s.c_str()); }
    }
    if (hooks_installed() && hooks_stats().live_blocks != h0.live_blocks) hooks_dump_live();
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: %lld blocks left allocated after destroying every map", (long long)(hooks_stats().live_blocks - h0.live_blocks));
}
