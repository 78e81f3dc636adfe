#include "gen.hpp"
#include <algorithm>

const char *const SHAPE_NAMES[] = {"single", "tiny", "sparse", "mid", "threshold", "dense", "nearfull", "full", "fewruns", "manyruns",
                                   "alternating", "wordedge", "runtie", "prefix-suffix", "cluster", "blocks", "densewindow", "simdtail", "nearempty-bitset", "longgap", "window", "window-background"};
const int N_SHAPES = sizeof(SHAPE_NAMES) / sizeof(*SHAPE_NAMES);

extern thread_local u64 g_win_lo, g_win_len;
u64 edge16(Rng &r) {
    switch (r.below(9)) {
        case 8: { u64 x = g_win_lo + r.below(g_win_len + 2); return x > 65535 ? 65535 : x; }
        case 0: return 0;
        case 1: return 65535;
        case 2: return r.pick<u64>({1, 2, 62, 63, 64, 65, 127, 128, 255, 256, 511, 512, 4095, 4096, 32767, 32768, 65534, 65472, 65471, 65473});
        case 3: { u64 w = r.below(1024) * 64; return r.pick<u64>({w, w + 63, w ? w - 1 : 0}); }
        default: return r.below(65536);
    }
}
// n distinct values of [a,b], uniformly
static void rand_distinct(Rng &r, u64 a, u64 b, u64 n, IS &out) {
    u64 span = b - a + 1;
    if (n > span) n = span;
    if (n * 3 > span) {  // selection sampling
        u64 need = n;
        for (u64 i = 0; i < span && need; i++)
            if (r.below(span - i) < need) { out.append(a + i, a + i); need--; }
        return;
    }
    std::vector<u64> v;
    while (v.size() < n) {
        while (v.size() < n) v.push_back(a + r.below(span));
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
    }
    for (u64 x : v) out.append(x, x);
}
static IS runs(Rng &r, u64 n, u64 maxlen, u64 a, u64 b) {
    // n runs separated by gaps, random lengths; stops at b
    IS s; u64 x = a;
    u64 room = (b - a + 1) / (n ? n : 1);
    for (u64 i = 0; i < n && x <= b; i++) {
        u64 len = r.in(1, std::max<u64>(1, std::min(maxlen, room)));
        u64 gap = r.in(1, std::max<u64>(1, room > len ? room - len : 1));
        u64 hi = std::min(b, x + len - 1);
        s.append(x, hi);
        x = hi + 1 + gap;
    }
    return s;
}
// A small window of a chunk shared by all sets of a case: contents generated
// independently there meet in every relative position.
thread_local u64 g_win_lo = 0, g_win_len = 64;
static void pick_window(Rng &r) {
    u64 n = r.pick<u64>({5, 8, 16, 40, 40, 64, 66, 130, 300, 1000}), w = r.below(1024) * 64;
    g_win_len = n;
    switch (r.below(5)) {
        case 0: g_win_lo = 0; break;
        case 1: g_win_lo = 65536 - n; break;
        case 2: g_win_lo = w > n / 2 ? w - n / 2 : w; break;
        case 3: g_win_lo = w; break;
        default: g_win_lo = r.below(65536);
    }
    if (g_win_lo + n > 65536) g_win_lo = 65536 - n;
}
void gen_reset() { g_win_lo = 0; g_win_len = 64; }
static IS window(Rng &r) {
    IS s; u64 x = g_win_lo + (r.coin() ? 0 : r.below(std::min<u64>(g_win_len, 4))), e = g_win_lo + g_win_len - 1;
    if (r.chance(1, 8)) { s.add(x, e); return s; }
    u64 ml = r.pick<u64>({1, 2, 3, 8, 30, std::max<u64>(1, g_win_len / 2)}), mg = r.pick<u64>({1, 2, 4, 8, std::max<u64>(1, g_win_len / 3)}), stop = r.coin() ? e : r.in(x, e);
    while (x <= stop) { u64 h = std::min(e, x + r.below(ml)); s.append(x, h); x = h + 1 + r.in(1, mg); }
    return s;
}
IS gen_chunk_shape(Rng &r, int shape) {
    IS s;
    switch (shape) {
        case 0: { u64 x = edge16(r); s.add(x, x); break; }
        case 1: {
            u64 n = r.in(2, 40), a = r.coin() ? 0 : edge16(r) / 2, b = r.coin() ? 65535 : std::min<u64>(65535, a + r.in(n, 400));
            rand_distinct(r, a, b, n, s);
            if (r.chance(1, 3)) s.add(edge16(r));
            break;
        }
        case 2: rand_distinct(r, 0, 65535, r.in(41, 1000), s); break;
        case 3: rand_distinct(r, 0, 65535, r.in(1000, 4095), s); break;
        case 4: {
            u64 a = r.coin() ? 0 : r.below(50000), b = r.coin() ? 65535 : std::min<u64>(65535, a + r.in(4200, 15000));
            rand_distinct(r, a, b, r.pick<u64>({4080, 4093, 4094, 4095, 4096, 4096, 4096, 4097, 4097, 4098, 4099, 4110}), s);
            break;
        }
        case 5: {
            unsigned d = r.pick<unsigned>({1, 2, 3, 4, 5, 6, 7});  // density d/8
            if (d < 2) d = 2;
            IS::Iv cur(0, 0); bool open = false; u64 bits = 0; int left = 0;
            for (u64 i = 0; i < 65536; i++) {
                if (left < 3) { bits = r.next(); left = 63; }
                bool on = (bits & 7) < d; bits >>= 3; left -= 3;
                if (on) { if (open) cur.second = i; else { cur = IS::Iv(i, i); open = true; } }
                else if (open) { s.v.push_back(cur); open = false; }
            }
            if (open) s.v.push_back(cur);
            break;
        }
        case 6: {
            s.add(0, 65535);
            u64 k = r.pick<u64>({1, 1, 2, 3, 10, 100, 2000});
            for (u64 i = 0; i < k; i++) s.remove(edge16(r));
            break;
        }
        case 7: s.add(0, 65535); break;
        case 8: {
            u64 k = r.in(1, 20);
            for (u64 i = 0; i < k; i++) { u64 a = edge16(r), b = r.chance(1, 4) ? edge16(r) : std::min<u64>(65535, a + r.below(2000)); s.add(std::min(a, b), std::max(a, b)); }
            if (r.chance(1, 4)) { u64 a = edge16(r); s.add(a, 65535); }
            if (r.chance(1, 4)) { u64 a = edge16(r); s.add(0, a); }
            break;
        }
        case 9: s = runs(r, r.in(100, 2200), r.pick<u64>({2, 5, 15, 31}), r.below(64), 65535); break;
        case 10: {
            u64 step = r.pick<u64>({2, 2, 3, 4, 7, 8, 15, 16, 17, 64}), a = edge16(r), b = r.coin() ? 65535 : edge16(r);
            if (a > b) std::swap(a, b);
            u64 len = r.in(1, step > 1 ? step - 1 : 1);
            if (r.chance(2, 3)) len = 1;
            for (u64 x = a; x <= b; x += step) s.append(x, std::min(b, x + len - 1));
            break;
        }
        case 11: {
            u64 k = r.in(1, 60);
            for (u64 i = 0; i < k; i++) { u64 w = r.below(1024) * 64; u64 a = w + r.pick<u64>({0, 0, 1, 62, 63}); u64 b = std::min<u64>(65535, a + r.pick<u64>({0, 1, 62, 63, 64, 65, 127, 128})); s.add(a, b); }
            break;
        }
        case 12: {  // sizes where run form and array/bitset form tie
            if (r.coin()) {  // vs array: 2+4n ~ 2c  =>  c ~ 2n+1
                u64 n = r.in(1, 1500); i128 c = (i128)2 * n + r.in(0, 4) - 1;
                u64 x = r.below(100); u64 extra = (u64)(c - (i128)n > 0 ? c - (i128)n : 0);
                u64 gap = r.in(1, 20);
                for (u64 i = 0; i < n && x < 65530; i++) {
                    u64 e = std::min<u64>(extra, i + 1 == n ? extra : r.below(3));
                    extra -= e;
                    u64 hi = std::min<u64>(65535, x + e);
                    s.append(x, hi); x = hi + 1 + gap;
                }
            } else {  // vs bitset: 2+4n ~ 8192 => n ~ 2047
                u64 n = r.in(2040, 2056), len = r.in(3, 20);
                u64 x = r.below(64);
                for (u64 i = 0; i < n && x <= 65535; i++) { u64 hi = std::min<u64>(65535, x + len - 1); s.append(x, hi); x = hi + 2 + r.below(8); }
            }
            break;
        }
        case 13: {
            u64 a = edge16(r);
            if (r.coin()) s.add(0, a); else s.add(a, 65535);
            if (r.chance(1, 3)) s.flip(0, 65535);
            if (s.empty()) s.add(5);
            break;
        }
        case 14: {
            u64 k = r.in(1, 8);
            for (u64 i = 0; i < k; i++) {
                u64 a = edge16(r), b = std::min<u64>(65535, a + r.in(10, 600)); IS t; rand_distinct(r, a, b, r.in(1, (b - a) / 2 + 1), t); s = s | t;
            }
            break;
        }
        case 15: {
            u64 bl = r.pick<u64>({8, 16, 32, 64, 128, 256, 512, 1024, 4096});
            for (u64 x = 0; x < 65536; x += bl) if (r.coin()) s.append(x, x + bl - 1);
            if (s.empty()) s.add(0, bl - 1);
            break;
        }
        case 16: {
            u64 a = r.below(55000), b = a + r.in(6000, 10000); b = std::min<u64>(b, 65535);
            rand_distinct(r, a, b, r.in(4097, 6500), s);
            break;
        }
        case 17: {  // lengths around SIMD block sizes
            u64 n = r.pick<u64>({7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129});
            u64 step = r.in(1, 40), a = r.below(65535 - 129 * 40);
            for (u64 i = 0; i < n; i++) s.append(a + i * step, a + i * step);
            break;
        }
        case 18: {  // bitset barely above the threshold, spread out
            for (u64 i = 0; i < 4097; i++) s.append(i * 15 + (i % 7), i * 15 + (i % 7));
            u64 k = r.below(4); for (u64 i = 0; i < k; i++) s.add(61500 + r.below(4000));
            break;
        }
        case 19: {  // two groups with a long gap
            u64 n = r.in(1, 300), m = r.in(1, 300);
            rand_distinct(r, 0, r.in(n, 2000), n, s);
            IS t; rand_distinct(r, 63000, 65535, m, t); s = s | t;
            break;
        }
    }
    if (shape == 20) s = window(r);
    if (shape == 21) {
        IS b, m; m.add(g_win_lo, g_win_lo + g_win_len - 1);
        switch (r.below(7)) {
            case 0: rand_distinct(r, 0, 65535, r.in(1, 60), b); break;
            case 1: rand_distinct(r, 0, 65535, r.in(3900, 4300), b); break;
            case 2: { u64 st = r.in(2, 9); for (u64 x = r.below(st); x < 65536; x += st) b.append(x, x); break; }
            case 3: { u64 x = r.below(65536); b.add(x, std::min<u64>(65535, x + r.below(20000))); break; }
            case 4: b.add(0, 65535); break;
            case 5: b.add(r.below(g_win_lo + 1), g_win_lo); if (r.coin()) b.add(g_win_lo + g_win_len - 1, 65535); break;
            default: b = runs(r, r.in(1, 60), r.pick<u64>({3, 20, 800}), r.below(2000), 65535);
        }
        s = (b - m) | window(r);
    }
    if (s.empty()) s.add(edge16(r));
    return s;
}
IS gen_chunk(Rng &r, int *shape_out) {
    // cheap shapes more often
    static const int weights[] = {8, 10, 6, 4, 5, 3, 4, 4, 8, 4, 4, 6, 6, 5, 6, 4, 3, 5, 2, 3, 12, 10};
    int tot = 0; for (int w : weights) tot += w;
    int x = (int)r.below(tot), sh = 0;
    while (x >= weights[sh]) x -= weights[sh++];
    if (shape_out) *shape_out = sh;
    return gen_chunk_shape(r, sh);
}
// exactly n values, following the given content where possible
static IS resize_to(Rng &r, IS s, u64 n) {
    u64 c = (u64)s.card();
    if (c > n) {
        u64 k = c - n;
        switch (r.below(3)) {
            case 0: { u64 x; s.select(n, &x); s.remove(x, 65535); break; }         // cut the end
            case 1: { u64 x; s.select(k - 1, &x); s.remove(0, x); break; }         // cut the beginning
            default: { std::vector<u64> v; s.values_from(0, (size_t)c, v); for (u64 i = 0; i < k; i++) { std::swap(v[i], v[i + r.below(c - i)]); } v.resize((size_t)k); s = s - IS::from_values(v); }
        }
    } else if (c < n) {
        IS o; o.add(0, 65535); o = o - s;
        s = s | resize_to(r, o, n - c);
    }
    return s;
}
IS gen_target(Rng &r) {
    u64 n = r.pick<u64>({0, 1, 2, 4095, 4095, 4096, 4096, 4096, 4097, 4097, 4098, 65535, 65536});
    if (n == 0) return IS();
    IS s = r.coin() ? gen_chunk_shape(r, r.pick<int>({4, 5, 8, 9, 10, 11, 12, 15, 16, 18})) : gen_chunk(r);
    return resize_to(r, s, n);
}
void aim_pair(Rng &r, int tt, IS &a, IS &b) {
    if (r.chance(1, 3)) { a = gen_chunk_shape(r, r.coin() ? 20 : 21); b = gen_chunk_shape(r, r.coin() ? 20 : 21); return; }
    IS t = gen_target(r), g1 = gen_chunk(r), g2 = gen_chunk(r);
    switch (tt) {
        case 1: a = t | g1; b = t | (g2 - g1); break;
        case 7: a = t & g1; b = t - (a & g2); break;
        case 6: a = g1; b = g1 ^ t; break;
        default: a = t | g1; b = (g1 - t) | (g2 - t); break;
    }
}
void aim_sets(Rng &r, const World &w, int tt, IS &a, IS &b) {
    a.clear(); b.clear();
    unsigned n = 0;
    for (u64 k : w.keys) {
        if (n >= 3 || (n && r.coin())) continue;
        IS x, y;
        aim_pair(r, tt, x, y); n++;
        if (r.chance(1, 12)) x.clear();
        for (auto &p : x.v) a.append((k << 16) | p.first, (k << 16) | p.second);
        for (auto &p : y.v) b.append((k << 16) | p.first, (k << 16) | p.second);
    }
}
// a range whose addition, removal or flip brings one chunk to a decision boundary
static bool aim_range(Rng &r, const IS &g, u64 *lo, u64 *hi) {
    if (g.empty()) return false;
    u64 k = g.v[r.below(g.v.size())].first >> 16;
    IS c = g.restrict_to(k << 16, (k << 16) | 0xFFFF), o; o.add(k << 16, (k << 16) | 0xFFFF); o = o - c;
    u64 n = (u64)c.card(), t = r.pick<u64>({4095, 4096, 4096, 4097, 65536, 65535});
    bool grow = t > n;
    if (t == n) return false;
    const IS &from = grow ? o : c;             // the values that have to change
    u64 d = grow ? t - n : n - t, m = (u64)from.card(), i = m > d ? r.below(m - d + 1) : 0, x, y;
    if (d > m || d == 0) return false;
    if (r.chance(1, 4)) i = 0;
    from.select(i, &x); from.select(i + d - 1, &y);
    // widen over values that do not change
    if (r.coin()) { u64 z; if (i && from.select(i - 1, &z)) x = r.in(z + 1, x); else x = r.in(k << 16, x); }
    if (r.coin()) { u64 z; if (from.select(i + d, &z)) y = r.in(y, z - 1); else y = r.in(y, (k << 16) | 0xFFFF); }
    *lo = x; *hi = y;
    return true;
}
World gen_world32(Rng &r) {
    pick_window(r);
    World w; w.maxval = 0xFFFFFFFFull;
    unsigned n = (unsigned)r.pick<unsigned>({1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 8});
    for (unsigned i = 0; i < n; i++) {
        switch (r.below(6)) {
            case 0: w.keys.push_back(0); break;
            case 1: w.keys.push_back(0xFFFF); break;
            case 2: w.keys.push_back(r.pick<u64>({1, 2, 0xFFFE, 0x7FFF, 0x8000, 0xFF, 0x100})); break;
            case 3: if (!w.keys.empty()) { w.keys.push_back((w.keys.back() + 1) & 0xFFFF); break; }  // fallthrough
            default: w.keys.push_back(r.below(65536));
        }
    }
    std::sort(w.keys.begin(), w.keys.end());
    w.keys.erase(std::unique(w.keys.begin(), w.keys.end()), w.keys.end());
    return w;
}
World gen_world64(Rng &r) {
    pick_window(r);
    World w; w.maxval = UINT64_MAX;
    const u64 M = (1ull << 48) - 1;
    auto key = [&]() -> u64 {
        switch (r.below(7)) {
            case 0: return 0;
            case 1: return M;
            case 2: return r.pick<u64>({1, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, M - 1, M >> 1, (M >> 1) + 1, 0xFFFFFFFF, 0x100000000ull});
            case 3: return r.below(65536);
            default: return r.next() & M;
        }
    };
    int style = (int)r.below(6);
    unsigned n;
    switch (style) {
        case 0: n = 1; break;
        case 1: case 2: n = (unsigned)r.in(2, 8); break;
        case 3: n = (unsigned)r.in(5, 60); break;   // node16/48/256 growth under one prefix
        case 4: n = (unsigned)r.in(5, 60); break;
        default: n = (unsigned)r.in(2, 12); break;
    }
    u64 base = key();
    unsigned depth = (unsigned)r.below(6);  // byte at which keys diverge
    for (unsigned i = 0; i < n; i++) {
        u64 k;
        switch (style) {
            case 3: k = (base & ~(0xFFull << (8 * depth))) | (r.below(256) << (8 * depth)); break;           // wide fan-out in one byte
            case 4: {                                                                                  // shared prefixes of varying length
                unsigned d = (unsigned)r.below(6);
                k = base ^ (r.below(256) << (8 * d));
                if (r.chance(1, 4)) k ^= r.next() & ((1ull << (8 * d)) - 1);
                if (r.chance(1, 8)) base = k & M;
                break;
            }
            case 5: k = w.keys.empty() || r.chance(1, 3) ? key() : (w.keys.back() + 1) & M; break;         // adjacent
            default: k = key();
        }
        w.keys.push_back(k & M);
    }
    if (style == 3 && r.chance(1, 3)) for (unsigned i = 0; i < 256; i++) w.keys.push_back((base & ~(0xFFull << (8 * depth))) | ((u64)i << (8 * depth)));
    std::sort(w.keys.begin(), w.keys.end());
    w.keys.erase(std::unique(w.keys.begin(), w.keys.end()), w.keys.end());
    return w;
}
IS gen_set(Rng &r, const World &w) {
    IS s;
    if (r.chance(1, 25)) return s;  // empty
    int mode = (int)r.below(20);
    if (mode == 3 && r.chance(2, 3)) {  // consecutive chunks, mostly full, with a chunk or a value missing, and other chunks elsewhere
        u64 k = w.keys.empty() ? 0 : w.keys[r.below(w.keys.size())], top = w.maxval >> 16, n = r.in(2, 7);
        if (k + n > top) k = top - n;
        for (u64 i = 0; i < n; i++) s.add((k + i) << 16, ((k + i) << 16) | 0xFFFF);
        if (r.coin()) s.remove(k << 16, (k << 16) | (r.below(65535)));
        if (r.coin()) s.remove(((k + n - 1) << 16) | r.in(1, 65535), ((k + n - 1) << 16) | 0xFFFF);
        for (u64 i = 0, h = r.below(3); i < h; i++) { u64 c = k + r.below(n); s.remove(c << 16, (c << 16) | 0xFFFF); }
        for (u64 i = 0, h = r.below(3); i < h; i++) s.remove(((k + r.below(n)) << 16) | edge16(r));
        for (u64 i = 0, h = r.below(4); i < h; i++) s.add((r.coin() ? (k + n + r.in(1, 5)) & top : w.keys.empty() ? 0 : w.keys[r.below(w.keys.size())]) << 16 | edge16(r));
        if (s.empty()) s.add(k << 16);
        return s;
    }
    if (w.wide && r.chance(1, 3)) {
        if (w.maxval == 0xFFFFFFFFull) return gen_many_chunks(r, 65536);
        // chunks far apart: a regular stride makes full nodes at one level of a tree over the keys, a varying one at several
        IS c = gen_many_chunks(r, 20000), o; u64 stride = r.pick<u64>({1, 1, 2, 255, 256, 257, 65536, 65537, 1u << 20, (1u << 24) + 1});
        u64 span = (c.max() >> 16) * stride, base = r.coin() ? r.below((1ull << 48) - span) : r.coin() ? (1ull << 48) - 1 - span : 0;
        for (auto &p : c.v) { if (stride == 1) { o.v.push_back({p.first + (base << 16), p.second + (base << 16)}); continue; }
            for (u64 a = p.first; a <= p.second;) { u64 e = std::min<u64>(p.second, a | 0xFFFF), k = base + (a >> 16) * stride; o.v.push_back({(k << 16) | (a & 0xFFFF), (k << 16) | (e & 0xFFFF)}); a = e + 1; } }
        return o;
    }
    if (w.wide && w.maxval == 0xFFFFFFFFull && r.chance(1, 6)) {  // all values, or all but a few
        s.add(0, w.maxval);
        for (u64 i = 0, n = r.below(3); i < n; i++) s.remove(gen_value(r, w, s));
        if (r.chance(1, 3)) { u64 k = r.coin() || w.keys.empty() ? 65535 : w.keys[r.below(w.keys.size())]; s.remove(k << 16, (k << 16) | 0xFFFF); for (auto &p : gen_chunk(r).v) s.add((k << 16) | p.first, (k << 16) | p.second); }
        return s;
    }
    size_t big = 0;
    unsigned keep = (unsigned)r.in(1, 4);
    for (u64 k : w.keys) {
        if (!r.chance(keep, 4)) continue;
        IS c;
        bool small = w.keys.size() > 10 && (big > 4 || r.chance(9, 10));
        if (small) { if (r.chance(2, 3)) c = gen_chunk_shape(r, r.coin() ? 0 : 8); else c = gen_chunk_shape(r, r.coin() ? 1 : 20); }
        else { c = gen_chunk(r); big++; }
        for (auto &p : c.v) s.append((k << 16) | p.first, (k << 16) | p.second);
    }
    if (mode == 0 && !w.keys.empty()) {  // range across several chunks
        u64 a = (r.of(const_cast<std::vector<u64> &>(w.keys)) << 16) | edge16(r);
        u64 len = r.in(1, 6) * 65536 + r.below(65536);
        s.add(a, w.maxval - a < len ? w.maxval : a + len);
    }
    if (mode == 1 && r.chance(1, 3)) {  // many tiny chunks
        u64 n = r.chance(1, 12) ? r.in(900, 2600) : r.in(20, 300), st = w.maxval == 0xFFFFFFFFull ? r.in(1, n > 300 ? 24 : 200) : r.in(1, 70000);
        u64 k = r.below(1000);
        for (u64 i = 0; i < n; i++) { s.add((k << 16) | edge16(r)); k += st; }
    }
    if (mode == 2 && w.wide && r.chance(1, 2)) {  // huge range
        u64 a = gen_value(r, w, s), b = gen_value(r, w, s);
        if (a > b) std::swap(a, b);
        if (w.maxval > 0xFFFFFFFFull && b - a > (3000ull << 16)) b = a + (r.in(1, 3000) << 16) + r.below(65536);
        s.add(a, b);
        if (r.coin()) { u64 c = gen_value(r, w, s); s.remove(c); }
    }
    return s;
}
u64 gen_value(Rng &r, const World &w, const IS &g) {
    u64 x;
    switch (r.below(12)) {
        case 0: return r.pick<u64>({0, w.maxval, 1, w.maxval - 1, 65535, 65536});
        case 1: case 2: case 3: case 4: case 5:
            if (!g.empty()) {
                const IS::Iv &p = g.v[r.below(g.v.size())];
                x = r.pick<u64>({p.first, p.second, p.first + (p.second - p.first) / 2});
                switch (r.below(4)) {
                    case 0: if (x > 0) x--; break;
                    case 1: if (x < w.maxval) x++; break;
                    default: break;
                }
                return x;
            }  // fallthrough
        case 6: case 7: case 8: if (!w.keys.empty()) { u64 k = w.keys[r.below(w.keys.size())]; return (k << 16) | edge16(r); }  // fallthrough
        case 9: if (!w.keys.empty()) { u64 k = w.keys[r.below(w.keys.size())]; k = (k + r.pick<u64>({1, (u64)-1})) & (w.maxval >> 16); return (k << 16) | edge16(r); }  // fallthrough
        case 10: if (!g.empty()) { u64 v = 0; u64 c = (u64)std::min<u128>(g.card(), (u128)UINT64_MAX); g.select(r.below(c), &v); return v; }  // fallthrough
        default: return r.next() & w.maxval;
    }
}
void gen_range(Rng &r, const World &w, const IS &g, u64 *lo, u64 *hi) {
    if (r.chance(1, 6) && aim_range(r, g, lo, hi)) return;
    u64 a = gen_value(r, w, g), b;
    auto up = [&](u64 x, u64 d) { return w.maxval - x < d ? w.maxval : x + d; };
    switch (r.below(15)) {
        case 13: case 14: {  // from one stretch of values to another in a later chunk, both ends mostly inside
            if (g.empty()) { b = a; break; }
            auto head = [&](u64 from) -> size_t { size_t l = 0, h = g.v.size(); while (l < h) { size_t m = (l + h) / 2; if (g.v[m].second < from) l = m + 1; else h = m; } return l; };
            const IS::Iv &p = g.v[r.below(g.v.size())];
            a = r.in(p.first, std::min(p.second, p.first | 0xFFFF));
            u64 to = up(a | 0xFFFF, 1 + (r.below(5) << 16)) & ~0xFFFFull;
            size_t j = head(to);
            if (j >= g.v.size()) { b = up(a, r.below(200000)); break; }
            if (r.coin() && j + 1 < g.v.size() && g.v[j + 1].first >> 16 == g.v[j].first >> 16) j++;
            u64 s0 = std::max(g.v[j].first, to), s1 = std::min(g.v[j].second, up(s0, r.coin() ? 65535 : 200000));
            b = r.coin() ? s1 : r.in(s0, s1);
            if (r.chance(1, 8)) b = up(b, 1);
            break;
        }
        case 11: case 12: {  // covers a whole chunk in use and (mostly) reaches into its neighbours
            u64 k = g.empty() ? w.keys.empty() ? 0 : w.keys[r.below(w.keys.size())] : g.v[r.below(g.v.size())].first >> 16, da = r.pick<u64>({0, 0, 1, 65536, r.in(1, 65536), r.in(1, 200000)}), db = r.pick<u64>({0, 0, 1, 65536, r.in(1, 65536), r.in(1, 200000)});
            a = k << 16; a = a < da ? 0 : a - da; b = up((k << 16) | 0xFFFF, db); break;
        }
        case 10: { u64 k = g.empty() ? w.keys.empty() ? 0 : w.keys[r.below(w.keys.size())] : g.v[r.below(g.v.size())].first >> 16; a = (k << 16) | (g_win_lo + r.below(g_win_len)); b = (k << 16) | (g_win_lo + r.below(g_win_len)); break; }
        case 0: b = a; break;
        case 1: b = up(a, r.below(200)); break;
        case 2: b = a | 0xFFFF; break;
        case 3: a &= ~0xFFFFull; b = a | 0xFFFF; break;
        case 4: b = up(a, r.below(65536)); break;
        case 5: b = up(a, r.below(5 * 65536)); break;
        case 6: a &= ~0xFFFFull; b = up(a, r.below(65536)); break;
        case 7: { u64 k = w.keys.empty() ? 0 : w.keys[r.below(w.keys.size())]; a = (k << 16) | edge16(r); b = (k << 16) | edge16(r); break; }
        default: b = gen_value(r, w, g);
    }
    if (a > b) std::swap(a, b);
    if (!w.wide && b - a > (40ull << 16)) b = a + r.below(40ull << 16);
    else if (w.maxval > 0xFFFFFFFFull && b - a > (2000ull << 16)) b = a + r.below(2000ull << 16);
    *lo = a; *hi = b;
}
IS derive_set(Rng &r, const World &w, const IS &base) {
    IS s = base;
    auto chunk_of_random = [&]() -> u64 { return s.empty() ? (w.keys.empty() ? 0 : w.keys[r.below(w.keys.size())]) : (s.v[r.below(s.v.size())].first >> 16); };
    int rounds = (int)r.in(1, 3);
    for (int i = 0; i < rounds; i++) {
        u64 lo, hi;
        switch (r.below(10)) {
            case 9: s = near_set(r, w, s); break;
            case 0: { int k = (int)r.in(1, 6); while (k--) s.add(gen_value(r, w, s)); break; }
            case 1: { int k = (int)r.in(1, 6); while (k--) s.remove(gen_value(r, w, s)); break; }
            case 2: gen_range(r, w, s, &lo, &hi); s.add(lo, hi); break;
            case 3: gen_range(r, w, s, &lo, &hi); s.remove(lo, hi); break;
            case 4: { u64 k = chunk_of_random(); s.flip(k << 16, (k << 16) | 0xFFFF); break; }
            case 5: { u64 k = chunk_of_random(); IS c = gen_chunk(r), t; for (auto &p : c.v) t.append((k << 16) | p.first, (k << 16) | p.second); s = r.coin() ? (s | t) : (s ^ t); break; }
            case 6: { u64 k = chunk_of_random(); IS keep = s.restrict_to(k << 16, (k << 16) | 0xFFFF); IS t; for (size_t j = 0; j < keep.v.size(); j++) if (j % 2) t.append(keep.v[j].first, keep.v[j].second); s = s - t; break; }
            case 7: { u64 k = chunk_of_random(); s.remove(k << 16, (k << 16) | 0xFFFF); break; }
            default: { i128 off = r.pick<int>({1, -1, 64, -64, 65536, -65536}); s = s.shift(off, 0, w.maxval); break; }
        }
    }
    return s;
}
// s with a few values of one chunk exchanged or moved: often the same cardinality, interval count or chunk totals
IS near_set(Rng &r, const World &w, const IS &base) {
    IS s = base;
    if (s.empty()) { s.add(gen_value(r, w, s)); return s; }
    int n = (int)r.pick<int>({1, 1, 1, 2, 3});
    for (int i = 0; i < n && !s.empty(); i++) {
        IS::Iv p = s.v[r.coin() ? s.v.size() - 1 - r.below(std::min<size_t>(s.v.size(), 3)) : r.below(s.v.size())];
        u64 k = p.first >> 16, lo = k << 16, hi = lo | 0xFFFF;
        IS c = s.restrict_to(lo, hi), o; o.add(lo, hi); o = o - c;
        if (c.empty()) continue;
        auto any = [&](const IS &t) -> u64 { if (r.coin()) { const IS::Iv &q = r.coin() ? t.v.back() : t.v[r.below(t.v.size())]; return r.coin() ? q.first : q.second; } u64 v = t.min(); t.select(r.below((u64)t.card()), &v); return v; };
        switch (r.below(9)) {
            case 6: case 7: case 8: {                                                                                 // one value exchanged for another of the same block of words
                u64 bl = 64ull << r.below(5), nb = 65536 / bl, t = r.coin() ? nb - 1 - r.below(2) : r.chance(1, 4) ? 0 : r.below(nb);
                IS cb = c.restrict_to(lo + t * bl, lo + t * bl + bl - 1), ob = o.restrict_to(lo + t * bl, lo + t * bl + bl - 1);
                if (cb.empty() || ob.empty()) { u64 x = any(c); t = (x - lo) / bl; cb = c.restrict_to(lo + t * bl, lo + t * bl + bl - 1); ob = o.restrict_to(lo + t * bl, lo + t * bl + bl - 1); }
                if (!cb.empty() && !ob.empty()) { u64 x = any(cb), y = any(ob); s.remove(x); s.add(y); }
                break;
            }
            case 0: case 1: if (!o.empty()) { u64 x = any(c), y = any(o); s.remove(x); s.add(y); } break;             // one value exchanged
            case 2: { const IS::Iv q = c.v[r.below(c.v.size())]; if (q.second < hi && q.first >= lo) { s.remove(q.first); s.add(q.second + 1); } break; }   // an interval moved up
            case 3: { const IS::Iv q = c.v[r.below(c.v.size())]; if (q.first > lo) { s.remove(q.second); s.add(q.first - 1); } break; }                     // or down
            case 4: { const IS::Iv q = c.v[r.below(c.v.size())]; u64 a = r.in(q.first, q.second); s.remove(a); if (!o.empty() && r.coin()) s.add(any(o)); break; }
            default: if (!o.empty()) s.add(any(o)); else s.remove(any(c));
        }
    }
    return s;
}
std::string chunk_profile(const IS &s) {
    char b[200];
    u64 chunks = 0, last = UINT64_MAX;
    for (auto &p : s.v) { u64 a = p.first >> 16, z = p.second >> 16; chunks += z - a + 1 - (a == last ? 1 : 0); last = z; }
    snprintf(b, sizeof b, "%llu values in %zu intervals over %llu chunks%s%s", (unsigned long long)s.card(), s.nint(), (unsigned long long)chunks, s.empty() ? "" : ", ", s.str(3).c_str());
    return b;
}

IS gen_many_chunks(Rng &r, u64 most) {
    double x = (double)r.below(1 << 20) / (1 << 20); u64 n = (u64)(500.0 * __builtin_exp(x * __builtin_log((double)most / 500.0)));
    if (r.chance(1, 5)) n = r.pick<u64>({1023, 1024, 1025, 2047, 2048, 2049, 4096, 8192, 16384, 32767, 32768, 32769, 65535, 65536}); if (n > most) n = most;
    unsigned kind = (unsigned)r.below(4); u64 full = r.chance(1, 2) ? 20 : 0, dense = r.chance(1, 2) ? 8 : 0;
    u64 slack = 65536 - n, k = r.chance(1, 3) ? 0 : r.below(slack + 1); slack -= k; IS s;
    for (u64 i = 0; i < n; i++, k++) {
        if (slack && n < 65536 && r.chance(1, 3)) { u64 g = 1 + r.below(std::max<u64>(1, 2 * slack / (n - i) + 1)); g = std::min(g, slack); k += g; slack -= g; }
        u64 b = k << 16; unsigned t = kind == 3 ? (unsigned)r.below(3) : kind;
        if (full && r.below(n) < full) { s.v.push_back({b, b + 65535}); continue; }
        if (dense && r.below(n) < dense) { u64 v = b + r.below(4); for (unsigned j = 0; j < 5000 && v < b + 65536; j++, v += 2 + r.below(9)) s.v.push_back({v, v}); continue; }
        u64 a = r.chance(1, 8) ? r.pick<u64>({0, 65535, 1, 65534}) : r.below(65536);
        u64 e = t == 0 ? a : t == 1 ? std::min<u64>(65535, a + r.below(60)) : std::min<u64>(65535, a + r.below(3));
        s.v.push_back({b + a, b + e});
        if (t == 2 && e + 2 < 65536) { u64 q = r.in(e + 2, 65535); s.v.push_back({b + q, b + q}); }
    }
    IS o; for (auto &q : s.v) { if (!o.v.empty() && o.v.back().second + 1 == q.first) o.v.back().second = q.second; else o.v.push_back(q); }
    return o;
}

std::vector<IS> gen_family(Rng &r, unsigned n, u64 maxkey) {
    u64 nk = r.in(1, 8), k0 = r.coin() ? r.below(4) : r.chance(1, 4) ? maxkey - 8 : r.below(maxkey - 8), step = n + r.below(4);
    unsigned c = (unsigned)r.pick<u64>({1, 3, 40, 400, 1500}); std::vector<IS> f;
    for (unsigned i = 0; i < n; i++) {
        IS s; unsigned m = (unsigned)r.in(1, std::min<u64>(nk, 3));
        for (u64 t = 0; t < m; t++) {
            u64 b = (k0 + r.below(nk)) << 16; unsigned cc = c + (unsigned)r.below(c / 4 + 1);
            switch (r.below(8)) {
                case 0: case 1: case 2: { u64 v = b + i % step + (r.coin() ? 0 : r.below(9000)); for (unsigned j = 0; j < cc && v < b + 65536; j++, v += step) s.add(v, v); break; }  // interleaved with the others
                case 3: for (unsigned j = 0; j < cc; j++) { u64 v = b + r.below(65536); s.add(v, v); } break;
                case 4: { u64 v = b + r.below(60000); for (unsigned j = 0; j < cc / 2 + 1 && v < b + 65536; j++, v += 3 + r.below(20)) s.add(v, std::min(v + 1, b + 65535)); break; }
                case 5: { u64 a = b + r.below(65536); s.add(a, std::min(a + (r.coin() ? cc * 4 : r.below(65536)), b + 65535)); break; }
                case 6: if (r.chance(1, 3)) { u64 v = b + r.below(3); for (unsigned j = 0; j < 5000 && v < b + 65536; j++, v += 2 + r.below(8)) s.add(v, v); break; } [[fallthrough]];
                default: s.add(b, r.chance(1, 12) ? b + 65535 : b + 3); break;
            }
        }
        f.push_back(s);
    }
    return f;
}
