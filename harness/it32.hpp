// 32-bit iterators against a cursor over the model.
#pragma once
#include "eng32.hpp"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
struct Cur { int st; u64 v; };  // st: 0 at value, 1 before the first, 2 after the last
struct It { roaring_uint32_iterator_t *p; bool heap; Cur c; };

static void agree(const It &i, const IS &m, const char *what, bool ret, bool use_ret) {
    bool has = i.c.st == 0;
    CHECK(i.p->has_value == has, "%s: has_value is %d, cursor says %d (set %s)", what, i.p->has_value, has, m.str(4).c_str());
    if (use_ret) CHECK(ret == has, "%s returned %d, has_value should be %d", what, ret, has);
    if (has) CHECK(i.p->current_value == i.c.v, "%s: current_value %u, cursor at %llu", what, i.p->current_value, (unsigned long long)i.c.v);
    digest(has); if (has) digest(i.p->current_value);
}
static void step(Rng &r, const World &w, const roaring_bitmap_t *b, const IS &m, std::vector<It> &its, u64 base) {
    size_t k = r.below(its.size()); It &it = its[k]; Cur &c = it.c;
    int op = (int)r.below(16); g_ops++;
    auto ev = [&](const char *q) { cov2("step", q); eval_sig(mix(mix(base, hstr(q)), mix(c.st, c.v)), !m.empty()); LOG("  it#%zu %s (cursor %s %llu)", k, q, c.st == 0 ? "at" : c.st == 1 ? "before" : "after", (unsigned long long)c.v); };
    if (op < 5) {  // advance
        int n = r.chance(1, 4) ? (int)r.in(1, 80) : 1;
        while (n--) {
            if (c.st == 2) return;
            ev("advance");
            if (c.st == 1) { if (m.empty()) return; c.st = 0; c.v = m.min(); }
            else if (c.v == m.max()) c.st = 2; else m.next_ge(c.v + 1, &c.v);
            bool ret = r.chance(1, 8) ? roaring_advance_uint32_iterator(it.p) : roaring_uint32_iterator_advance(it.p);
            agree(it, m, "advance", ret, true);
        }
    } else if (op < 9) {
        int n = r.chance(1, 4) ? (int)r.in(1, 80) : 1;
        while (n--) {
            if (c.st == 1) return;
            ev("previous");
            if (c.st == 2) { if (m.empty()) return; c.st = 0; c.v = m.max(); }
            else if (c.v == m.min()) c.st = 1; else m.prev_le(c.v - 1, &c.v);
            bool ret = r.chance(1, 8) ? roaring_previous_uint32_iterator(it.p) : roaring_uint32_iterator_previous(it.p);
            agree(it, m, "previous", ret, true);
        }
    } else if (op < 12) {
        u64 v = gen_value(r, w, m);
        if (c.st == 0 && r.chance(1, 3)) v = std::min<u64>(0xFFFFFFFF, c.v + r.below(200));
        ev("move_equalorlarger"); LOG("   to %llu", (unsigned long long)v);
        u64 y; if (m.next_ge(v, &y)) { c.st = 0; c.v = y; } else c.st = 2;
        bool ret = r.chance(1, 8) ? roaring_move_uint32_iterator_equalorlarger(it.p, (uint32_t)v) : roaring_uint32_iterator_move_equalorlarger(it.p, (uint32_t)v);
        agree(it, m, "move_equalorlarger", ret, true);
    } else if (op < 14) {
        if (c.st == 1) return;  // reading before the first element is not defined
        u64 n; switch (r.below(6)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = r.in(2, 70); break; case 3: n = r.in(60, 3000); break; case 4: n = r.in(1, 20000); break; default: n = (u64)std::min<u128>(m.card(), 200000) + r.below(3); }
        if (c.st == 0 && r.chance(1, 5)) {  // up to the end of an interval or of a chunk
            size_t q = std::lower_bound(m.v.begin(), m.v.end(), c.v, [](const std::pair<u64, u64> &a, u64 x) { return a.second < x; }) - m.v.begin(); n = m.v[q].second - c.v + 1; for (u64 h = r.below(3); h-- && ++q < m.v.size();) n += m.v[q].second - m.v[q].first + 1;
            if (r.chance(1, 4)) n = (u64)(m.rank(c.v | 0xFFFF) - m.rank(c.v) + 1); if (n > 150000) n = 150000; if (r.chance(1, 4)) n += r.coin() ? 1 : (u64)-1;
        }
        if (c.st == 0 && r.chance(1, 4)) { u64 rest = (u64)std::min<u128>(m.card() - m.rank(c.v) + 1, 150000); n = rest; if (r.coin() && n) n--; }
        ev("read"); LOG("   count %llu", (unsigned long long)n);
        std::vector<u64> t; if (c.st == 0) m.values_from(m.rank(c.v) - 1, n, t);
        if (n == 0) t.clear();
        Buf o(n * 4);
        uint32_t got = r.chance(1, 8) ? roaring_read_uint32_iterator(it.p, (uint32_t *)o.p, (uint32_t)n) : roaring_uint32_iterator_read(it.p, (uint32_t *)o.p, (uint32_t)n);
        CHECK(got == t.size(), "read(%llu) returned %u, %zu values remain", (unsigned long long)n, got, t.size());
        for (size_t i = 0; i < got; i++) { uint32_t x; memcpy(&x, o.p + 4 * i, 4); if (x != t[i]) fail("read: element %zu is %u, expected %llu", i, x, (unsigned long long)t[i]); }
        digest_bytes(o.p, 4 * (size_t)got);
        if (!t.empty()) { if (t.back() == m.max()) c.st = 2; else m.next_ge(t.back() + 1, &c.v); }
        agree(it, m, "read", false, false);
    } else if (op == 14) {
        ev("copy");
        It n; n.p = r.chance(1, 8) ? roaring_copy_uint32_iterator(it.p) : roaring_uint32_iterator_copy(it.p); n.heap = true; n.c = c;
        if (!n.p) fail("iterator copy returned NULL");
        agree(n, m, "copy", false, false);
        if (its.size() < 5) its.push_back(n);
        else { size_t j = r.below(its.size()); if (its[j].heap) roaring_uint32_iterator_free(its[j].p); else delete its[j].p; its[j] = n; }
    } else {
        bool last = r.coin(); ev(last ? "init_last" : "init");
        bool old = r.chance(1, 8);
        if (last) { if (old) roaring_init_iterator_last(b, it.p); else roaring_iterator_init_last(b, it.p); } else if (old) roaring_init_iterator(b, it.p); else roaring_iterator_init(b, it.p);
        if (m.empty()) c.st = last ? 1 : 2; else { c.st = 0; c.v = last ? m.max() : m.min(); }
        agree(it, m, last ? "init_last" : "init", false, false);
    }
}
struct CB { const IS *m; size_t iv; u64 v; u64 count, stop; bool bad; u64 badv; u64 high; };
static bool cb32(uint32_t x, void *p) { CB *c = (CB *)p; if (c->iv >= c->m->v.size() || x != c->v) { c->bad = true; c->badv = x; return false; } if (c->v == c->m->v[c->iv].second) { c->iv++; if (c->iv < c->m->v.size()) c->v = c->m->v[c->iv].first; } else c->v++; return ++c->count != c->stop; }
static bool cb64(uint64_t x, void *p) { CB *c = (CB *)p; if ((x & 0xFFFFFFFF00000000ull) != c->high) { c->bad = true; c->badv = x; return false; } return cb32((uint32_t)x, p); }
static void callbacks(Rng &r, const roaring_bitmap_t *b, const IS &m, u64 base) {
    if (m.card() > 300000) return;
    u64 card = (u64)m.card();
    u64 stop = r.coin() ? 0 : r.in(1, card + 1);
    u64 high = r.pick<u64>({0, 1ull << 32, 0xFFFFFFFF00000000ull, 0x1234567800000000ull});
    bool six = r.coin();
    CB c = {&m, 0, m.empty() ? 0 : m.min(), 0, stop, false, 0, high};
    cov2("step", six ? "iterate64" : "iterate"); eval_sig(mix(mix(base, stop), high + six), !m.empty()); g_ops++;
    LOG("  callback iteration stop=%llu", (unsigned long long)stop);
    bool ret = six ? roaring_iterate64(b, cb64, high, &c) : roaring_iterate(b, cb32, &c);
    if (c.bad) fail("iterate%s: visited %llu out of order, expected %llu after %llu visits", six ? "64" : "", (unsigned long long)c.badv, (unsigned long long)c.v, (unsigned long long)c.count);
    bool stopped = stop && stop <= card;
    CHECK(c.count == (stopped ? stop : card), "iterate: %llu visits of %llu (stop at %llu)", (unsigned long long)c.count, (unsigned long long)card, (unsigned long long)stop);
    CHECK(ret == !stopped, "iterate returned %d", ret);
}
