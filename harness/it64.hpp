// 64-bit iterators against a cursor over the model.
#pragma once
#include "eng64.hpp"
struct Cur64 { int st; u64 v; };  // st: 0 at value, 1 before the first, 2 after the last
struct It64 { roaring64_iterator_t *p; Cur64 c; const roaring64_bitmap_t *b; const IS *m; };
inline void agree64(const It64 &i, const char *what, bool ret, bool use_ret) {
    bool has = i.c.st == 0; bool hv = roaring64_iterator_has_value(i.p);
    CHECK(hv == has, "64-bit %s: has_value is %d, cursor says %d (set %s)", what, hv, has, i.m->str(4).c_str());
    if (use_ret) CHECK(ret == has, "64-bit %s returned %d, has_value should be %d", what, ret, has);
    if (has) { u64 x = roaring64_iterator_value(i.p); CHECK(x == i.c.v, "64-bit %s: value %llu, cursor at %llu", what, (unsigned long long)x, (unsigned long long)i.c.v); digest(x); }
    digest(has);
}
struct Walk64 {
    Rng &r; const World &w; std::vector<std::pair<const roaring64_bitmap_t *, const IS *>> tgts; std::vector<It64> its;
    typedef unsigned long long ull;
    ~Walk64() { for (auto &i : its) roaring64_iterator_free(i.p); }
    void start(size_t k, bool last) {
        It64 i; i.b = tgts[k].first; i.m = tgts[k].second;
        i.p = last ? roaring64_iterator_create_last(i.b) : roaring64_iterator_create(i.b); if (!i.p) fail("64-bit iterator_create returned NULL");
        place(i, last); agree64(i, last ? "create_last" : "create", false, false); its.push_back(i);
    }
    static void place(It64 &i, bool last) { if (i.m->empty()) i.c = {last ? 1 : 2, 0}; else i.c = {0, last ? i.m->max() : i.m->min()}; }
    void step() {
        size_t k = r.below(its.size()); It64 &it = its[k]; Cur64 &c = it.c; const IS &m = *it.m;
        int op = (int)r.below(17); g_ops++;
        auto ev = [&](const char *q) { cov2("step", q); eval_sig(mix(mix(m.hash(), hstr(q)), mix(c.st, c.v)), !m.empty()); LOG("  it#%zu %s (cursor %s %llu)", k, q, c.st == 0 ? "at" : c.st == 1 ? "before" : "after", (ull)c.v); };
        if (op < 5) {
            int n = r.chance(1, 4) ? (int)r.in(1, 80) : 1;
            while (n--) {
                if (c.st == 2) return;
                ev("advance");
                if (c.st == 1) { if (m.empty()) return; c.st = 0; c.v = m.min(); }
                else if (c.v == m.max()) c.st = 2; else m.next_ge(c.v + 1, &c.v);
                agree64(it, "advance", roaring64_iterator_advance(it.p), true);
            }
        } else if (op < 9) {
            int n = r.chance(1, 4) ? (int)r.in(1, 80) : 1;
            while (n--) {
                if (c.st == 1) return;
                ev("previous");
                if (c.st == 2) { if (m.empty()) return; c.st = 0; c.v = m.max(); }
                else if (c.v == m.min()) c.st = 1; else m.prev_le(c.v - 1, &c.v);
                agree64(it, "previous", roaring64_iterator_previous(it.p), true);
            }
        } else if (op < 12) {
            u64 v = gen_value(r, w, m);
            if (c.st == 0) switch (r.below(4)) { case 0: v = c.v > UINT64_MAX - 300 ? UINT64_MAX : c.v + r.below(200); break; case 1: v = c.v | 0xFFFF; break; case 2: if (c.v < UINT64_MAX - 65536) v = (c.v | 0xFFFF) + 1 + r.below(3); break; default: break; }
            ev("move_equalorlarger"); LOG("   to %llu", (ull)v);
            // "the first value >= v at or after the current position": when v lies
            // behind the cursor, both staying put and rewinding satisfy callers
            u64 y; bool back = c.st == 2 || (c.st == 0 && v <= c.v);
            bool ret = roaring64_iterator_move_equalorlarger(it.p, v);
            bool fnd = m.next_ge(v, &y);
            if (back && c.st == 0 && ret && roaring64_iterator_has_value(it.p) && roaring64_iterator_value(it.p) == c.v) cov("step/move-stays");
            else if (c.st == 2 && !ret) cov("step/move-from-end-stays");
            else if (fnd) { c.st = 0; c.v = y; } else c.st = 2;
            agree64(it, "move_equalorlarger", ret, true);
        } else if (op < 14) {
            if (c.st == 1) return;
            u64 n; switch (r.below(6)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = r.in(2, 70); break; case 3: n = r.in(60, 3000); break; case 4: n = r.in(1, 20000); break; default: n = (u64)std::min<u128>(m.card(), 200000) + r.below(3); }
            if (c.st == 0 && r.chance(1, 5)) {  // up to the end of an interval or of a chunk
            size_t q = std::lower_bound(m.v.begin(), m.v.end(), c.v, [](const std::pair<u64, u64> &a, u64 x) { return a.second < x; }) - m.v.begin(); n = m.v[q].second - c.v + 1; for (u64 h = r.below(3); h-- && ++q < m.v.size();) n += m.v[q].second - m.v[q].first + 1;
            if (r.chance(1, 4)) n = (u64)(m.rank(c.v | 0xFFFF) - m.rank(c.v) + 1); if (n > 150000) n = 150000; if (r.chance(1, 4)) n += r.coin() ? 1 : (u64)-1;
        }
        if (c.st == 0 && r.chance(1, 4)) { n = (u64)std::min<u128>(m.card() - m.rank(c.v) + 1, 150000); if (r.coin() && n) n--; }
            ev("read"); LOG("   count %llu", (ull)n);
            std::vector<u64> t; if (c.st == 0 && n) m.values_from(m.rank(c.v) - 1, n, t);
            Buf o(n * 8);
            u64 got = roaring64_iterator_read(it.p, (uint64_t *)o.p, n);
            CHECK(got == t.size(), "64-bit read(%llu) returned %llu, %zu values remain", (ull)n, (ull)got, t.size());
            for (size_t i = 0; i < got; i++) { u64 x; memcpy(&x, o.p + 8 * i, 8); if (x != t[i]) fail("64-bit read: element %zu is %llu, expected %llu", i, (ull)x, (ull)t[i]); }
            digest_bytes(o.p, 8 * (size_t)got);
            if (!t.empty()) { if (t.back() == m.max()) c.st = 2; else m.next_ge(t.back() + 1, &c.v); }
            agree64(it, "read", false, false);
        } else if (op == 14) {
            ev("copy");
            It64 n = it; n.p = roaring64_iterator_copy(it.p); if (!n.p) fail("64-bit iterator copy returned NULL");
            agree64(n, "copy", false, false);
            if (its.size() < 5) its.push_back(n); else { size_t j = r.below(its.size()); roaring64_iterator_free(its[j].p); its[j] = n; }
        } else if (op == 15) {
            bool last = r.coin(); ev(last ? "reinit_last" : "reinit");
            size_t q = r.below(tgts.size()); it.b = tgts[q].first; it.m = tgts[q].second;   // also onto another bitmap
            if (last) roaring64_iterator_reinit_last(it.b, it.p); else roaring64_iterator_reinit(it.b, it.p);
            place(it, last); agree64(it, last ? "reinit_last" : "reinit", false, false);
        } else if (m.card() < 3000 && !m.empty()) {  // run off one end and come back
            ev("sweep"); bool fwd = r.coin(); u64 guard = 0;
            if (fwd ? c.st == 2 : c.st == 1) return;
            if (c.st != 0) { (fwd ? roaring64_iterator_advance : roaring64_iterator_previous)(it.p); c.st = 0; c.v = fwd ? m.min() : m.max(); }
            for (;; guard++) {
                if (guard > 4000) fail("64-bit iteration does not end");
                bool end = c.v == (fwd ? m.max() : m.min());
                bool ret = (fwd ? roaring64_iterator_advance : roaring64_iterator_previous)(it.p);
                if (end) c.st = fwd ? 2 : 1; else if (fwd) m.next_ge(c.v + 1, &c.v); else m.prev_le(c.v - 1, &c.v);
                agree64(it, fwd ? "forward sweep" : "backward sweep", ret, true);
                if (end) break;
            }
        }
    }
};
