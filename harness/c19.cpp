// The C++ Roaring class as a value type: a pool of objects, each with its model;
// after every member call every object of the pool is compared with its model.
#include <memory>
#include <sstream>
#include "eng32.hpp"
#include "roaring.hh"
#include "printed.hpp"
typedef unsigned long long ull;
using roaring::Roaring; using roaring::BulkContext;
typedef roaring::RoaringSetBitBiDirectionalIterator RIt;
const char *PROP = "C19";
const char *RULE = "a case keeps a pool of 2-6 Roaring objects (plain or copy-on-write, some of them frozen views) and applies a random history of member calls, operators, copies, moves, assignments (also to itself and to objects holding a frozen view), swaps, reads, writes and iterator walks; after each call every object is compared with its own model; an evaluation is one call, distinct by call, arguments and contents of the objects involved";
void harness_init() { hooks_strict(true); }
namespace {
struct Ob { Roaring *p = nullptr; IS m; bool cow = false, frozen = false; std::shared_ptr<Buf> back; };
struct T {
    Rng &r; World w; Eng32 g; std::vector<Ob> pool; std::string op; bool judge = true;
    T(Rng &rr, const World &ww) : r(rr), w(ww), g(rr, ww) { g.judge = 0; g.opname = "build"; }
    ~T() { while (!pool.empty()) { delete pool.back().p; pool.pop_back(); } }
    size_t pick() { return r.below(pool.size()); }
    size_t mut() { std::vector<size_t> v; for (size_t i = 0; i < pool.size(); i++) if (!pool[i].frozen) v.push_back(i); return r.of(v); }
    size_t other(size_t i) { if (pool.size() == 1) return i; size_t j = r.below(pool.size() - 1); return j >= i ? j + 1 : j; }
    bool mixes(size_t i, size_t j) { return pool[i].cow != pool[j].cow; }
    void begin(const char *o, u64 a = 0, u64 b = 0, const Ob *x = nullptr, const Ob *y = nullptr) {
        op = o; g_ops++; cov2("op", o); if (x && x->frozen) cov2("frozen", o); if (x && x->cow) cov2("cow", o); if (y && y->frozen) cov2("frozen operand", o);
        eval_sig(mix(mix(hstr(o), mix(a, b)), mix(x ? x->m.hash() * 2 + x->frozen : 0, y ? y->m.hash() * 2 + y->frozen + 1 : 0)), (x && !x->m.empty()) || (y && !y->m.empty()) || (!x && !y));
        LOG("  %s %llu %llu on %s%s%s %s", o, (ull)a, (ull)b, x ? kinds_str(&x->p->roaring).c_str() : "", x && x->frozen ? "[frozen]" : "", x && x->cow ? "[cow]" : "", y ? kinds_str(&y->p->roaring).c_str() : "");
    }
    void verify() {
        for (size_t i = 0; i < pool.size(); i++) {
            Ob &x = pool[i]; std::string mal; IS got = read32(&x.p->roaring, &mal); count_check();
            if (!mal.empty()) fail("%s: object %zu is left malformed: %s", op.c_str(), i, mal.c_str());
            if (got != x.m) fail("%s: object %zu holds other contents: %s", op.c_str(), i, diff_str(x.m, got).c_str());
            if (x.p->getCopyOnWrite() != x.cow) fail("%s: object %zu has copy-on-write %d", op.c_str(), i, !x.cow);
            digest(got.hash());
        }
    }
    void add_obj(Ob o) { pool.push_back(o); while (pool.size() > 6) drop(r.below(pool.size() - 1)); }
    void drop(size_t i) { if (pool.size() <= 1) return; bool last = true; for (size_t j = 0; j < pool.size(); j++) if (j != i && !pool[j].frozen) last = false; if (last) return; LOG("  destroy %zu", i); delete pool[i].p; pool.erase(pool.begin() + i); }
    Ob make(const IS &s) {
        Ob o; Bm b = g.build(s); o.m = b.m;
        o.p = new Roaring(b.b); o.cow = w.cow; return o;
    }
    Ob frozen_of(size_t i) {
        Ob &x = pool[i]; Ob o; o.m = x.m; o.frozen = true;
        if (r.coin()) {
            size_t n = x.p->getFrozenSizeInBytes(); o.back = std::make_shared<Buf>(n, 32); memset(o.back->p, 0xEE, n); x.p->writeFrozen(o.back->p);
            o.p = new Roaring(Roaring::frozenView(o.back->p, n));
        } else {
            size_t n = x.p->getSizeInBytes(); o.back = std::make_shared<Buf>(n, 32); memset(o.back->p, 0xEE, n); CHECK(x.p->write(o.back->p) == n, "write wrote another size than getSizeInBytes announced");
            o.p = new Roaring(Roaring::portableDeserializeFrozen(o.back->p));
        }
        return o;
    }
    u64 val(const Ob &x) { return gen_value(r, w, x.m); }
    bool big(const Ob &x) { return x.m.card() > 400000; }
    // ---- updates -----------------------------------------------------------
    void update() {
        size_t i = mut(); Ob &x = pool[i]; Roaring &R = *x.p;
        u64 a, b; gen_range(r, w, x.m, &a, &b); u64 hi = b + 1;
        if (r.chance(1, 10)) hi = r.pick<u64>({a, 0, 1ull << 32, (1ull << 32) + 5, UINT64_MAX});
        u64 top = std::min<u64>(hi, 1ull << 32);
        switch (r.below(16)) {
            case 0: { u64 v = val(x); begin("add", v, 0, &x); R.add((uint32_t)v); x.m.add(v); break; }
            case 1: { u64 v = val(x); begin("addChecked", v, 0, &x); bool k = R.addChecked((uint32_t)v); CHECK(k == !x.m.contains(v), "addChecked(%llu) returned %d", (ull)v, k); x.m.add(v); break; }
            case 2: if (top > a && !w.wide && top - a > 3000000) return; begin("addRange", a, hi, &x); R.addRange(a, hi); if (top > a) x.m.add(a, top - 1); break;
            case 3: if (r.chance(1, 10)) std::swap(a, b); begin("addRangeClosed", a, b, &x); R.addRangeClosed((uint32_t)a, (uint32_t)b); if (a <= b) x.m.add(a, b); break;
            case 4: case 5: {
                std::vector<uint32_t> v; size_t n = r.below(60); for (size_t k = 0; k < n; k++) { v.push_back((uint32_t)val(x)); if (r.coin()) v.push_back(v.back() + (uint32_t)r.below(3)); }
                u64 h = 0; for (uint32_t q : v) h = mix(h, q);
                if (r.coin()) { begin("addMany", h, v.size(), &x); R.addMany(v.size(), v.data()); }
                else { begin("addBulk", h, v.size(), &x); BulkContext c; for (uint32_t q : v) { R.addBulk(c, q); if (r.chance(1, 20)) { BulkContext d(std::move(c)); c = BulkContext(); (void)d; } } }
                for (uint32_t q : v) x.m.add(q); break;
            }
            case 6: { u64 v = val(x); begin("remove", v, 0, &x); R.remove((uint32_t)v); x.m.remove(v); break; }
            case 7: { u64 v = val(x); begin("removeChecked", v, 0, &x); bool k = R.removeChecked((uint32_t)v); CHECK(k == x.m.contains(v), "removeChecked(%llu) returned %d", (ull)v, k); x.m.remove(v); break; }
            case 8: begin("removeRange", a, hi, &x); R.removeRange(a, hi); if (top > a) x.m.remove(a, top - 1); break;
            case 9: if (r.chance(1, 10)) std::swap(a, b); begin("removeRangeClosed", a, b, &x); R.removeRangeClosed((uint32_t)a, (uint32_t)b); if (a <= b) x.m.remove(a, b); break;
            case 10: if (top > a && !w.wide && top - a > 3000000) return; begin("flip", a, hi, &x); R.flip(a, hi); if (top > a) x.m.flip(a, top - 1); break;
            case 11: begin("flipClosed", a, b, &x); R.flipClosed((uint32_t)a, (uint32_t)b); if (a <= b) x.m.flip(a, b); break;
            case 12: { begin("runOptimize", 0, 0, &x); bool k = R.runOptimize(); u64 c[5]; kinds32(&R.roaring, c); CHECK(k == (c[3] > 0), "runOptimize returned %d with %llu run containers", k, (ull)c[3]); break; }
            case 13: { if (x.m.card() > MAX_EXPAND) return; u64 c[5]; kinds32(&R.roaring, c); begin("removeRunCompression", 0, 0, &x); bool k = R.removeRunCompression(); CHECK(k == (c[3] > 0), "removeRunCompression returned %d with %llu run containers", k, (ull)c[3]); break; }
            case 14: begin("shrinkToFit", 0, 0, &x); R.shrinkToFit(); break;
            default: if (!r.chance(1, 4)) return; begin("clear", 0, 0, &x); R.clear(); x.m.clear(); break;
        }
        verify();
    }
    // ---- operators ---------------------------------------------------------
    void setop() {
        size_t i = pick(), j = r.chance(1, 8) ? i : other(i); if (mixes(i, j)) return; Ob &x = pool[i], &y = pool[j];
        static const char *const nm[] = {"&", "-", "|", "^"}; static const int tt[] = {1, 2, 7, 6}; int k = (int)r.below(4);
        Ob o; o.m = IS::op(x.m, y.m, tt[k]);
        begin((std::string("operator") + nm[k] + (i == j ? " self" : "")).c_str(), 0, 0, &x, &y);
        switch (k) { case 0: o.p = new Roaring(*x.p & *y.p); break; case 1: o.p = new Roaring(*x.p - *y.p); break; case 2: o.p = new Roaring(*x.p | *y.p); break; default: o.p = new Roaring(*x.p ^ *y.p); }
        o.cow = o.p->getCopyOnWrite(); finish(o);
    }
    void finish(Ob o) {  // a fresh result: judged, then kept or dropped
        std::string mal; IS got = read32(&o.p->roaring, &mal); count_check();
        if (!mal.empty() || got != o.m) fail("%s: wrong result: %s %s", op.c_str(), diff_str(o.m, got).c_str(), mal.c_str());
        if (o.cow != w.cow && !o.frozen) { o.p->setCopyOnWrite(w.cow); o.cow = w.cow; }
        verify();
        if (r.coin()) add_obj(o); else delete o.p;
        verify();
    }
    void inplace() {
        size_t i = mut(), j = r.chance(1, 8) ? i : other(i); if (mixes(i, j)) return; Ob &x = pool[i], &y = pool[j];
        static const char *const nm[] = {"&=", "-=", "|=", "^="}; static const int tt[] = {1, 2, 7, 6}; int k = (int)r.below(4);
        begin((std::string("operator") + nm[k] + (i == j ? " self" : "")).c_str(), 0, 0, &x, &y);
        IS e = IS::op(x.m, y.m, tt[k]); Roaring *q;
        switch (k) { case 0: q = &(*x.p &= *y.p); break; case 1: q = &(*x.p -= *y.p); break; case 2: q = &(*x.p |= *y.p); break; default: q = &(*x.p ^= *y.p); }
        CHECK(q == x.p, "%s does not return the object", op.c_str());
        x.m = e; verify();
    }
    void fastunion() {
        std::vector<const Roaring *> v; IS e; size_t n = r.below(5); u64 h = 0;
        for (size_t k = 0; k < n; k++) { Ob &x = pool[pick()]; if (x.cow != w.cow) continue; v.push_back(x.p); e = e | x.m; h = mix(h, x.m.hash()); }
        begin("fastunion", h, v.size());
        Ob o; o.m = e; const Roaring *none = nullptr; o.p = new Roaring(Roaring::fastunion(v.size(), v.empty() ? &none : v.data())); o.cow = o.p->getCopyOnWrite(); finish(o);
    }
    void relations() {
        size_t i = pick(), j = r.chance(1, 8) ? i : other(i); Ob &x = pool[i], &y = pool[j]; const Roaring &X = *x.p, &Y = *y.p;
        begin("relations", 0, 0, &x, &y);
        IS in = x.m & y.m, un = x.m | y.m;
        CHECK((X == Y) == (x.m == y.m), "operator== is %d", X == Y);
        CHECK(X.isSubset(Y) == x.m.subset_of(y.m), "isSubset"); CHECK(X.isStrictSubset(Y) == (x.m.subset_of(y.m) && x.m != y.m), "isStrictSubset");
        CHECK(X.intersect(Y) == !in.empty(), "intersect");
        CHECK(X.and_cardinality(Y) == (u64)in.card(), "and_cardinality"); CHECK(X.or_cardinality(Y) == (u64)un.card(), "or_cardinality");
        CHECK(X.andnot_cardinality(Y) == (u64)(x.m - y.m).card(), "andnot_cardinality"); CHECK(X.xor_cardinality(Y) == (u64)(x.m ^ y.m).card(), "xor_cardinality");
        if (!un.empty()) { double q = X.jaccard_index(Y), e = (double)(u64)in.card() / (double)(u64)un.card(); CHECK(q - e < 1e-12 && e - q < 1e-12, "jaccard_index %.17g, expected %.17g", q, e); }
        verify();
    }
    void queries() {
        Ob &x = pool[pick()]; const Roaring &X = *x.p; const IS &m = x.m; u64 v = val(x), a, b; gen_range(r, w, m, &a, &b);
        begin("queries", v, mix(a, b), &x);
        CHECK((u128)X.cardinality() == m.card(), "cardinality %llu", (ull)X.cardinality()); CHECK(X.isEmpty() == m.empty(), "isEmpty"); CHECK(X.isFull() == (m.card() == (u128)1 << 32), "isFull");
        if (!m.empty()) { CHECK(X.minimum() == m.min(), "minimum %u", X.minimum()); CHECK(X.maximum() == m.max(), "maximum %u", X.maximum()); }
        CHECK(X.contains((uint32_t)v) == m.contains(v), "contains(%llu)", (ull)v); CHECK(X.rank((uint32_t)v) == (u64)m.rank(v), "rank(%llu)", (ull)v);
        CHECK(X.getIndex((uint32_t)v) == (m.contains(v) ? (int64_t)m.rank(v) - 1 : -1), "getIndex(%llu) = %lld", (ull)v, (long long)X.getIndex((uint32_t)v));
        CHECK(X.containsRange(a, b + 1) == m.contains_range(a, b), "containsRange(%llu,%llu)", (ull)a, (ull)b + 1); CHECK(X.containsRangeClosed((uint32_t)a, (uint32_t)b) == m.contains_range(a, b), "containsRangeClosed(%llu,%llu)", (ull)a, (ull)b);
        { u64 c = (u64)m.card(), k = r.chance(1, 5) ? c : r.below(c + 2); if (k <= UINT32_MAX) { uint32_t e = 7; u64 want; bool wk = m.select(k, &want), ok = X.select((uint32_t)k, &e); CHECK(ok == wk && (!ok || e == want), "select(%llu) = %d %u", (ull)k, ok, e); } }
        { std::vector<uint32_t> q; for (int k = 0; k < 12; k++) q.push_back((uint32_t)val(x)); BulkContext c; for (uint32_t y : q) CHECK(X.containsBulk(c, y) == m.contains(y), "containsBulk(%u)", y);
          std::sort(q.begin(), q.end()); std::vector<uint64_t> ans(q.size(), 0x77); X.rank_many(q.data(), q.data() + q.size(), ans.data()); for (size_t k = 0; k < q.size(); k++) CHECK(ans[k] == (u64)m.rank(q[k]), "rank_many(%u) = %llu", q[k], (ull)ans[k]); }
        if (!big(x)) {
            u64 c = (u64)m.card(); std::vector<u64> t; m.values_from(0, (size_t)c, t);
            if (r.coin()) { Buf o(c * 4); X.toUint32Array((uint32_t *)o.p); for (u64 k = 0; k < c; k++) { uint32_t e; memcpy(&e, o.p + 4 * k, 4); if (e != t[k]) fail("toUint32Array: element %llu is %u", (ull)k, e); } }
            else { u64 off = r.below(c + 2), lim = r.below(c + 3), n = off >= c ? 0 : std::min(lim, c - off); Buf o(lim * 4); X.rangeUint32Array((uint32_t *)o.p, off, lim); for (u64 k = 0; k < n; k++) { uint32_t e; memcpy(&e, o.p + 4 * k, 4); if (e != t[off + k]) fail("rangeUint32Array(%llu,%llu): element %llu is %u", (ull)off, (ull)lim, (ull)k, e); } }
            if (c < 3000) { std::string s = "{"; for (size_t k = 0; k < t.size(); k++) { if (k) s += ','; s += std::to_string(t[k]); } s += '}'; CHECK(X.toString() == s, "toString gives %s", X.toString().substr(0, 80).c_str()); if (r.below(8) == 0) { std::string q = printed([&] { X.printf(); }); CHECK(q == s || q == "?", "printf gives %s", q.substr(0, 200).c_str()); } cov("string"); }
            struct S { std::vector<u64> *t; size_t i, stop; bool bad; } st{&t, 0, (size_t)r.below(c + 2), false};
            X.iterate([](uint32_t y, void *p) -> bool { S *s = (S *)p; if (s->i >= s->t->size() || (*s->t)[s->i] != y) { s->bad = true; return false; } s->i++; return s->i < s->stop; }, &st);
            CHECK(!st.bad, "iterate: wrong value at index %zu", st.i); CHECK(st.i == std::min<size_t>(t.size(), st.stop ? st.stop : 1), "iterate visited %zu values", st.i);
        }
        verify();
    }
    // ---- value semantics ---------------------------------------------------
    void values() {
        size_t i = pick(), j = r.chance(1, 6) ? i : other(i); Ob &x = pool[i], &y = pool[j];
        switch (r.below(17)) {
            case 0: case 1: { begin("copy constructor", 0, 0, &x); Ob o; o.p = new Roaring(*x.p); o.m = x.m; o.cow = x.cow; finish(o); break; }
            case 2: case 3: case 4: {  // copy assignment, to itself and over a frozen view too
                begin(i == j ? "copy assignment to itself" : y.frozen ? "copy assignment over a frozen view" : "copy assignment", 0, 0, &x, &y);
                Roaring &q = (*y.p = *x.p); CHECK(&q == y.p, "operator= does not return the object");
                if (i != j) { y.m = x.m; y.cow = x.cow; y.frozen = false; y.back.reset(); } else if (y.frozen && !(y.p->roaring.high_low_container.flags & ROARING_FLAG_FROZEN)) { y.frozen = false; y.back.reset(); }
                verify(); break; }
            case 5: case 6: {  // move construction; the source must be usable as an empty value
                begin("move constructor", 0, 0, &x); Ob o; o.p = new Roaring(std::move(*x.p)); o.m = x.m; o.cow = x.cow; o.frozen = x.frozen; o.back = x.back;
                refill(x, "move constructor"); if (o.frozen) { verify(); add_obj(o); verify(); } else finish(o); break; }
            case 7: case 8: case 9: {
                if (i == j) { begin("move assignment to itself", 0, 0, &x); Roaring &s = *x.p; *x.p = std::move(s); refill(x, "move assignment to itself", true); verify(); break; }
                begin(y.frozen ? "move assignment over a frozen view" : "move assignment", 0, 0, &x, &y);
                Roaring &q = (*y.p = std::move(*x.p)); CHECK(&q == y.p, "operator= does not return the object");
                y.m = x.m; y.cow = x.cow; y.frozen = x.frozen; y.back = x.back; refill(x, "move assignment"); verify(); break; }
            case 10: { begin(i == j ? "swap with itself" : "swap", 0, 0, &x, &y); x.p->swap(*y.p); if (i != j) { std::swap(x.m, y.m); std::swap(x.cow, y.cow); std::swap(x.frozen, y.frozen); std::swap(x.back, y.back); } verify(); break; }
            case 11: { begin("std::swap", 0, 0, &x, &y); if (i != j) { std::swap(*x.p, *y.p); std::swap(x.m, y.m); std::swap(x.cow, y.cow); std::swap(x.frozen, y.frozen); std::swap(x.back, y.back); } verify(); break; }
            case 12: { uint32_t a = (uint32_t)val(x), b = (uint32_t)val(x), c = (uint32_t)val(y);
                begin(y.frozen ? "list assignment over a frozen view" : "list assignment", mix(a, b), c, &y); *y.p = {a, b, c, a}; y.m = IS::from_values({a, b, c}); y.frozen = false; y.back.reset(); y.cow = y.p->getCopyOnWrite(); if (y.cow != w.cow) { y.p->setCopyOnWrite(w.cow); y.cow = w.cow; } verify(); break; }
            case 13: { uint32_t a = (uint32_t)val(x), b = (uint32_t)val(x), c = (uint32_t)val(x); Ob o; o.m = IS::from_values({a, b, c}); begin("constructors from values", mix(a, b), c);
                uint32_t d[4] = {a, b, c, b};
                switch (r.below(4)) { case 0: o.p = new Roaring({a, b, c, b}); break; case 1: o.p = new Roaring(4, d); break; case 2: o.p = new Roaring(Roaring::bitmapOf(4, a, b, c, b)); break; default: o.p = new Roaring(Roaring::bitmapOfList({a, b, c, b})); }
                o.cow = o.p->getCopyOnWrite(); finish(o); break; }
            case 14: {  // a standard container of values: growth, insertion in the middle, erasure
                begin("vector of objects", 0, 0, &x, &y); if (mixes(i, j)) return;
                std::vector<Roaring> v; std::vector<IS> mv; size_t n = r.in(1, 6);
                for (size_t k = 0; k < n; k++) { Ob &z = pool[pick()]; if (r.coin()) { v.push_back(*z.p); mv.push_back(z.m); } else { size_t at = r.below(v.size() + 1); v.insert(v.begin() + at, *z.p); mv.insert(mv.begin() + at, z.m); } if (r.chance(1, 3)) { size_t at = r.below(v.size()); v.erase(v.begin() + at); mv.erase(mv.begin() + at); } if (r.chance(1, 3) && !v.empty()) { size_t at = r.below(v.size()); uint32_t q = (uint32_t)val(x); v[at].add(q); mv[at].add(q); } }
                for (size_t k = 0; k < v.size(); k++) { std::string mal; IS got = read32(&v[k].roaring, &mal); CHECK(mal.empty() && got == mv[k], "vector of objects: element %zu: %s", k, diff_str(mv[k], got).c_str()); }
                verify(); v.clear(); verify(); break; }
            case 15: begin("destructor", 0, 0, &x); drop(i); verify(); break;
            default: { begin("frozen view object", 0, 0, &x); Ob o = frozen_of(i); verify(); add_obj(o); verify(); break; }
        }
        if (pool.size() < 2 || r.chance(1, 12)) { add_obj(make(pool.empty() || r.coin() ? gen_set(r, w) : derive_set(r, w, pool[0].m))); }
        bool any = false; for (auto &z : pool) any |= !z.frozen;
        if (!any) add_obj(make(gen_set(r, w)));
    }
    // a moved-from object is valid: destroy it, assign to it or go on using it
    void refill(Ob &x, const char *what, bool self = false) {
        x.frozen = false; x.back.reset();
        std::string mal; IS got = read32(&x.p->roaring, &mal); CHECK(mal.empty(), "%s leaves a malformed source: %s", what, mal.c_str()); (void)self;
        switch (r.below(3)) {
            case 0: delete x.p; x.p = new Roaring(); x.m.clear(); break;
            case 1: { Ob n = make(gen_set(r, w)); *x.p = *n.p; x.m = n.m; delete n.p; break; }
            default: x.m = got; x.p->add(5); x.m.add(5); break;
        }
        if (x.p->getCopyOnWrite() != w.cow) x.p->setCopyOnWrite(w.cow);
        x.cow = w.cow;
    }
    // ---- input and output --------------------------------------------------
    void io() {
        Ob &x = pool[pick()]; bool portable = r.chance(2, 3); begin(portable ? "write/read portable" : "write/read native", 0, 0, &x);
        size_t n = x.p->getSizeInBytes(portable); Buf b(n, 16, r.below(8)); memset(b.p, 0xEE, n); size_t k = x.p->write(b.p, portable); CHECK(k == n, "write wrote %zu bytes, getSizeInBytes announced %zu", k, n);
        if (portable) { IS s; size_t u; std::string e = spec_decode32((unsigned char *)b.p, n, s, &u); CHECK(e.empty() && u == n && s == x.m, "written image is wrong: %s", e.c_str()); }
        Ob o; o.m = x.m; bool safe = portable && r.coin();
        try { if (safe) { size_t sl = r.below(20); Buf c(n + sl); memcpy(c.p, b.p, n); o.p = new Roaring(Roaring::readSafe(c.p, n + sl)); } else o.p = new Roaring(Roaring::read(b.p, portable)); } catch (std::exception &e) { fail("reading back a written image throws '%s'", e.what()); }
        CHECK(*o.p == *x.p, "an object read back is not equal to the one written");
        for (int t = 0; t < 4 && portable; t++) { size_t cut = r.coin() ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 4)); Buf c(cut); memcpy(c.p, b.p, cut); bool threw = false; u64 live = hooks_stats().live_blocks; try { Roaring q = Roaring::readSafe(c.p, cut); } catch (std::exception &) { threw = true; } CHECK(threw, "readSafe accepts %zu of %zu bytes", cut, n); if (hooks_installed()) CHECK(hooks_stats().live_blocks == live, "memory: a throwing readSafe leaves memory allocated"); cov("truncated read throws"); }
        if (r.chance(1, 3)) { size_t f = x.p->getFrozenSizeInBytes(); Buf c(f, 32); x.p->writeFrozen(c.p); size_t len = r.coin() ? f - 1 : f + 1; Buf d(len, 32); memcpy(d.p, c.p, std::min(f, len)); if (len > f) d.p[f] = (char)r.next(); bool threw = false; try { const Roaring q = Roaring::frozenView(d.p, len); } catch (std::exception &) { threw = true; } CHECK(threw, "frozenView accepts length %zu for an image of %zu bytes", len, f); cov("wrong frozen length throws"); }
        if (r.chance(1, 3)) { Ob f = frozen_of(r.below(pool.size())); CHECK(f.p->cardinality() == (u64)f.m.card(), "cardinality of a frozen view"); const Roaring copy(*f.p); CHECK(copy == *f.p, "a copy of a frozen view differs"); delete f.p; std::string mal; CHECK(read32(&copy.roaring, &mal) == f.m && mal.empty(), "a copy of a frozen view changed when the view was destroyed"); }
        o.cow = o.p->getCopyOnWrite(); finish(o);
    }
    // ---- iterators ---------------------------------------------------------
    struct Cu { int st; u64 v; };  // 0 at v, 1 before the first, 2 past the end
    void iterate() {
        Ob &x = pool[pick()]; const Roaring &X = *x.p; const IS &m = x.m; begin("iterators", 0, 0, &x);
        const RIt end(X, true);
        CHECK((X.begin() == X.end()) == m.empty() && (X.begin() != X.end()) == !m.empty(), "begin() and end() of a set that is %s", m.empty() ? "empty" : "not empty");
        if (m.card() < 50000 && r.chance(1, 3)) {
            std::vector<u64> t; m.values_from(0, (size_t)m.card(), t); size_t k = 0; for (uint32_t v : X) { if (k >= t.size() || t[k] != v) fail("range for: element %zu is %u", k, v); k++; } CHECK(k == t.size(), "range for visits %zu of %zu values", k, t.size());
            if (!t.empty()) { RIt it(X, true); size_t q = t.size(); do { --it; q--; if (*it != t[q]) fail("walking back from the end: element %zu is %u", q, *it); } while (q); CHECK(it == X.begin(), "walking back from the end does not arrive at begin()"); }
        }
        std::vector<std::pair<RIt, Cu>> its; for (int k = 0; k < 3; k++) its.push_back({RIt(X, k == 2), k == 2 || m.empty() ? Cu{2, 0} : Cu{0, m.min()}});
        for (int s = 0; s < 30; s++) {
            size_t k = r.below(its.size()); RIt &it = its[k].first; Cu &c = its[k].second; Cu old = c; int o = (int)r.below(7); const char *nm = "";
            if (o <= 1) { if (c.st != 0) continue; nm = o ? "it++" : "++it"; if (c.v == m.max()) c.st = 2; else m.next_ge(c.v + 1, &c.v); if (o) { RIt p = it++; CHECK(*p == old.v, "it++ returns %u, expected %llu", *p, (ull)old.v); } else { RIt &p = ++it; CHECK(&p == &it, "++it"); } }
            else if (o <= 3) { if (m.empty() || (c.st == 0 && c.v == m.min())) continue; nm = o == 2 ? "it--" : "--it"; if (c.st == 2) { c.st = 0; c.v = m.max(); } else m.prev_le(c.v - 1, &c.v); if (o == 2) { RIt p = it--; if (old.st == 0) CHECK(*p == old.v, "it-- returns %u", *p); else CHECK(p == end, "it-- from the end does not return the end"); } else { RIt &p = --it; CHECK(&p == &it, "--it"); } }
            else if (o <= 5) { nm = "move_equalorlarger"; u64 v = val(x); u64 y; if (m.next_ge(v, &y)) { c.st = 0; c.v = y; } else c.st = 2; bool ok; if (r.chance(1, 4)) { it.equalorlarger((uint32_t)v); ok = c.st == 0; } else ok = it.move_equalorlarger((uint32_t)v); CHECK(ok == (c.st == 0), "move_equalorlarger(%llu) returned %d", (ull)v, ok); }
            else { nm = "copy"; size_t q = r.below(its.size()); its[k] = its[q]; }
            g_ops++; cov2("iterator", nm); LOG("    it%zu %s -> %s %llu", k, nm, c.st == 0 ? "at" : "end", (ull)c.v);
            const RIt &A = its[k].first; Cu ca = its[k].second;
            if (ca.st == 0) CHECK(*A == ca.v, "%s: *it is %u, expected %llu", nm, *A, (ull)ca.v);
            CHECK((A == end) == (ca.st == 2) && (A != end) == (ca.st != 2), "%s: comparison with the end iterator gives ==%d !=%d at %s", nm, A == end, A != end, ca.st == 0 ? "a value" : "the end");
            size_t q = r.below(its.size()); const RIt &B = its[q].first; Cu cb = its[q].second;
            u64 pa = ca.st == 0 ? ca.v : 1ull << 32, pb = cb.st == 0 ? cb.v : 1ull << 32;
            CHECK((A == B) == (pa == pb) && (A != B) == (pa != pb), "%s: equality of iterators at %llu and %llu", nm, (ull)pa, (ull)pb);
            CHECK((A < B) == (pa < pb) && (A <= B) == (pa <= pb) && (A > B) == (pa > pb) && (A >= B) == (pa >= pb), "%s: order of iterators at %llu and %llu: < %d <= %d > %d >= %d", nm, (ull)pa, (ull)pb, A < B, A <= B, A > B, A >= B);
        }
        verify();
    }
    void step() {
        switch (r.below(20)) {
            case 0: case 1: case 2: case 3: update(); break;
            case 4: case 5: setop(); break;
            case 6: case 7: inplace(); break;
            case 8: fastunion(); break;
            case 9: relations(); break;
            case 10: queries(); break;
            case 11: io(); break;
            case 12: iterate(); break;
            default: values(); break;
        }
    }
};
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    {
        World w = gen_world32(r); w.cow = r.chance(1, 3); w.wide = r.chance(1, 100);
        T t(r, w); size_t n = r.in(2, 4);
        for (size_t i = 0; i < n; i++) t.pool.push_back(t.make(i && r.coin() ? derive_set(r, w, t.pool[0].m) : gen_set(r, w)));
        t.op = "construction"; t.verify();
        unsigned k = (unsigned)r.in(10, 40); if (w.wide) k = 6; for (unsigned i = 0; i < k; i++) t.step();
        if (c < 3) { std::string s; for (auto &x : t.pool) s += chunk_profile(x.m) + (x.frozen ? " (frozen); " : "; "); sample("case %llu (%s) final pool: %s", (ull)c, w.cow ? "cow" : "no cow", s.c_str()); }
    }
    if (hooks_installed() && hooks_stats().live_blocks != h0.live_blocks) hooks_dump_live();
    if (hooks_installed()) CHECK(hooks_stats().live_blocks == h0.live_blocks, "memory: %lld blocks left allocated after destroying every object", (long long)(hooks_stats().live_blocks - h0.live_blocks));
}
