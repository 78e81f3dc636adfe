#include "spec.hpp"
#include <algorithm>
static void p16(Bytes &b, u64 x) { b.push_back(x & 255); b.push_back((x >> 8) & 255); }
static void p32(Bytes &b, u64 x) { p16(b, x & 0xFFFF); p16(b, (x >> 16) & 0xFFFF); }
static void p64(Bytes &b, u64 x) { p32(b, x & 0xFFFFFFFF); p32(b, x >> 32); }
static u64 g16(const unsigned char *p) { return p[0] | (u64)p[1] << 8; }
static u64 g32(const unsigned char *p) { return g16(p) | g16(p + 2) << 16; }
static u64 g64(const unsigned char *p) { return g32(p) | g32(p + 4) << 32; }

Bytes spec_encode32(const IS &s, const EncOpt &o, Rng *r) {
    struct C { u64 key; std::vector<std::pair<u64, u64>> iv; u64 card; int kind; };
    std::vector<C> cs;
    for (auto &p : s.v) {
        for (u64 k = p.first >> 16; k <= p.second >> 16; k++) {
            u64 a = std::max(p.first, k << 16) & 0xFFFF, b = std::min(p.second, (k << 16) | 0xFFFF) & 0xFFFF;
            if (cs.empty() || cs.back().key != k) { C c; c.key = k; c.card = 0; c.kind = 0; cs.push_back(c); }
            cs.back().iv.push_back(std::make_pair(a, b));
            cs.back().card += b - a + 1;
        }
    }
    bool any = o.force_run_cookie;
    for (auto &c : cs) {
        bool run = false;
        size_t rs = 2 + 4 * c.iv.size(), other = c.card <= 4096 ? 2 * c.card : 8192;
        int run_mode = s.card() > MAX_EXPAND && o.run_mode != 3 ? 1 : o.run_mode;
        if (run_mode == 1) run = rs < other;
        else if (run_mode == 2) run = r->coin();
        else if (run_mode == 3) run = true;
        c.kind = run ? 3 : c.card <= 4096 ? 2 : 1;
        any |= run;
    }
    if (cs.empty()) any = false;
    Bytes b;
    if (any) {
        p32(b, 12347 | ((cs.size() - 1) << 16));
        Bytes f((cs.size() + 7) / 8, 0);
        for (size_t i = 0; i < cs.size(); i++) if (cs[i].kind == 3) f[i / 8] |= 1 << (i % 8);
        b.insert(b.end(), f.begin(), f.end());
    } else { p32(b, 12346); p32(b, cs.size()); }
    for (auto &c : cs) { p16(b, c.key); p16(b, c.card - 1); }
    if (!any || cs.size() >= 4) {
        size_t off = b.size() + 4 * cs.size();
        for (auto &c : cs) { p32(b, off); off += c.kind == 3 ? 2 + 4 * c.iv.size() : c.kind == 2 ? 2 * c.card : 8192; }
    }
    for (auto &c : cs) {
        if (c.kind == 3) { p16(b, c.iv.size()); for (auto &q : c.iv) { p16(b, q.first); p16(b, q.second - q.first); } }
        else if (c.kind == 2) { for (auto &q : c.iv) for (u64 x = q.first; x <= q.second; x++) p16(b, x); }
        else {
            std::vector<u64> w(1024, 0);
            for (auto &q : c.iv) for (u64 x = q.first; x <= q.second; ) {
                if ((x & 63) == 0 && q.second - x >= 63) { w[x >> 6] = ~0ull; x += 64; } else { w[x >> 6] |= 1ull << (x & 63); x++; }
            }
            for (u64 x : w) p64(b, x);
        }
    }
    return b;
}
std::string spec_decode32(const unsigned char *p, size_t n, IS &out, size_t *used, bool strict) {
    char e[160];
#define BAD(...) do { snprintf(e, sizeof e, __VA_ARGS__); return e; } while (0)
    out.clear();
    if (n < 4) BAD("shorter than a cookie");
    u64 cookie = g32(p), nc; size_t pos;
    std::vector<bool> isrun;
    bool runs = (cookie & 0xFFFF) == 12347;
    if (runs) {
        nc = (cookie >> 16) + 1; pos = 4;
        size_t f = (nc + 7) / 8;
        if (pos + f > n) BAD("run flags truncated");
        for (u64 i = 0; i < nc; i++) isrun.push_back(p[pos + i / 8] >> (i % 8) & 1);
        pos += f;
    } else if (cookie == 12346) {
        if (n < 8) BAD("size truncated");
        nc = g32(p + 4); pos = 8;
        if (nc > 65536) BAD("container count %llu", (unsigned long long)nc);
        isrun.assign(nc, false);
    } else BAD("bad cookie %llu", (unsigned long long)cookie);
    size_t desc = pos;
    if (pos + 4 * nc > n) BAD("descriptors truncated");
    pos += 4 * nc;
    size_t offs = 0;
    if (!runs || nc >= 4) { offs = pos; if (pos + 4 * nc > n) BAD("offsets truncated"); pos += 4 * nc; }
    i128 lastkey = -1;
    for (u64 i = 0; i < nc; i++) {
        u64 key = g16(p + desc + 4 * i), card = g16(p + desc + 4 * i + 2) + 1;
        if ((i128)key <= lastkey) BAD("key %llu at index %llu not increasing", (unsigned long long)key, (unsigned long long)i);
        lastkey = key;
        if (offs && g32(p + offs + 4 * i) != pos) BAD("offset of container %llu is %llu, data at %zu", (unsigned long long)i, (unsigned long long)g32(p + offs + 4 * i), pos);
        u64 base = key << 16;
        if (isrun[i]) {
            if (pos + 2 > n) BAD("run count truncated");
            u64 nr = g16(p + pos); pos += 2;
            if (pos + 4 * nr > n) BAD("runs truncated");
            u64 c = 0; i128 lastend = -2;
            for (u64 j = 0; j < nr; j++) {
                u64 a = g16(p + pos), l = g16(p + pos + 2); pos += 4;
                if (a + l > 65535) BAD("run overflows the chunk");
                if ((i128)a <= lastend + 1 && strict) BAD("runs not sorted/disjoint/non-adjacent");
                lastend = a + l; c += l + 1;
                if (!out.append(base + a, base + a + l)) BAD("runs overlap");
            }
            if (c != card) BAD("descriptor cardinality %llu, run container holds %llu", (unsigned long long)card, (unsigned long long)c);
        } else if (card <= 4096) {
            if (pos + 2 * card > n) BAD("array truncated");
            for (u64 j = 0; j < card; j++) { u64 x = g16(p + pos); pos += 2; if (!out.append(base + x, base + x)) BAD("array values not increasing"); }
        } else {
            if (pos + 8192 > n) BAD("bitset truncated");
            u64 c = 0;
            for (u64 w = 0; w < 1024; w++) {
                u64 x = g64(p + pos); pos += 8;
                u64 b0 = base + w * 64;
                if (x == ~0ull) { out.append(b0, b0 + 63); c += 64; continue; }
                while (x) {
                    int a = __builtin_ctzll(x); u64 y = x >> a; int l = ~y == 0 ? 64 : __builtin_ctzll(~y);
                    out.append(b0 + a, b0 + a + l - 1); c += l;
                    x = a + l >= 64 ? 0 : x >> (a + l) << (a + l);
                }
            }
            if (c != card) BAD("descriptor cardinality %llu, bitset holds %llu", (unsigned long long)card, (unsigned long long)c);
        }
    }
    *used = pos;
    return "";
}
Bytes spec_encode64(const IS &s, const EncOpt &o, Rng *r) {
    Bytes b, body; u64 n = 0;
    size_t i = 0;
    IS cur; u64 curhi = 0; bool have = false;
    auto flush = [&]() { if (!have) return; p32(body, curhi); Bytes c = spec_encode32(cur, o, r); body.insert(body.end(), c.begin(), c.end()); n++; cur.clear(); };
    for (; i < s.v.size(); i++) {
        u64 a = s.v[i].first, z = s.v[i].second;
        while (true) {
            u64 hi = a >> 32, e = std::min<u64>(z, (hi << 32) | 0xFFFFFFFFull);
            if (!have || hi != curhi) { flush(); have = true; curhi = hi; }
            cur.append(a & 0xFFFFFFFF, e & 0xFFFFFFFF);
            if (e == z) break;
            a = e + 1;
        }
    }
    flush();
    p64(b, n);
    b.insert(b.end(), body.begin(), body.end());
    return b;
}
std::string spec_decode64(const unsigned char *p, size_t n, IS &out, size_t *used) {
    char e[160];
    out.clear();
    if (n < 8) BAD("no bucket count");
    u64 nb = g64(p); size_t pos = 8; i128 last = -1;
    for (u64 i = 0; i < nb; i++) {
        if (pos + 4 > n) BAD("bucket key truncated");
        u64 hi = g32(p + pos); pos += 4;
        if ((i128)hi <= last) BAD("bucket keys not increasing");
        last = hi;
        IS c; size_t u;
        std::string err = spec_decode32(p + pos, n - pos, c, &u);
        if (!err.empty()) return "bucket " + std::to_string(i) + ": " + err;
        pos += u;
        for (auto &q : c.v) out.append(hi << 32 | q.first, hi << 32 | q.second);
    }
    *used = pos;
    return "";
}
bool spec_layout32(const unsigned char *p, size_t n, SpecLayout &L) {
    if (n < 4) return false;
    u64 cookie = g32(p); size_t pos;
    L.ch.clear();
    L.runs = (cookie & 0xFFFF) == 12347;
    std::vector<bool> isrun;
    if (L.runs) { L.n = (cookie >> 16) + 1; L.runflags_off = 4; pos = 4 + (L.n + 7) / 8; if (pos > n) return false; for (u64 i = 0; i < L.n; i++) isrun.push_back(p[4 + i / 8] >> (i % 8) & 1); }
    else if (cookie == 12346 && n >= 8) { L.n = g32(p + 4); if (L.n > 65536) return false; pos = 8; isrun.assign(L.n, false); }
    else return false;
    L.desc_off = pos; pos += 4 * L.n;
    L.has_offs = !L.runs || L.n >= 4;
    L.offs_off = pos; if (L.has_offs) pos += 4 * L.n;
    if (pos > n) return false;
    for (u64 i = 0; i < L.n; i++) {
        SpecChunk c; c.desc_off = L.desc_off + 4 * i; c.card = g16(p + c.desc_off + 2) + 1; c.data_off = pos; c.nruns = 0;
        if (isrun[i]) { if (pos + 2 > n) return false; c.kind = 3; c.nruns = g16(p + pos); c.data_len = 2 + 4 * c.nruns; }
        else if (c.card <= 4096) { c.kind = 2; c.data_len = 2 * c.card; }
        else { c.kind = 1; c.data_len = 8192; }
        pos += c.data_len;
        if (pos > n) return false;
        L.ch.push_back(c);
    }
    L.end = pos;
    return true;
}
size_t smallest_forms(const unsigned char *p, size_t n, const IS &m, u64 base) {
    SpecLayout L;
    if (!spec_layout32(p, n, L)) fail("the image written after run_optimize does not follow the format");
    for (size_t i = 0; i < L.ch.size(); i++) {
        u64 key = p[L.ch[i].desc_off] | p[L.ch[i].desc_off + 1] << 8;
        IS c = m.restrict_to(base + (key << 16), base + (key << 16 | 0xFFFF));
        u64 card = (u64)c.card(), A = 2 + 2 * card, R = 2 + 4 * (u64)c.nint(), own = card <= 4096 ? A : 8192;
        count_check();
        bool ok = L.ch[i].kind == 3 ? R <= (A < 8192 ? A : 8192) : own <= R;
        if (!ok) fail("run_optimize: chunk %llu with %llu values in %llu runs is left as a container of kind %d (1 bitset, 2 array, 3 run), not the smallest", (unsigned long long)key, (unsigned long long)card, (unsigned long long)c.nint(), L.ch[i].kind);
    }
    return L.end;
}
size_t payload32(const unsigned char *p, size_t n, size_t *end) {
    SpecLayout L;
    if (!spec_layout32(p, n, L)) fail("a written image does not follow the format");
    size_t t = 0;
    for (auto &c : L.ch) t += c.data_len;
    *end = L.end;
    return t;
}
size_t payload64(const unsigned char *p, size_t n) {
    size_t off = 8, t = 0, e;
    while (off + 4 < n) { t += payload32(p + off + 4, n - off - 4, &e); off += e + 4; }
    return t;
}
