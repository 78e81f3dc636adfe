#include "q64.hpp"
#include "it64.hpp"
const char *PROP = "C10";
const char *RULE = "a case builds a 64-bit set in two independently chosen representations and a second, usually derived, set; every query is asked with boundary-biased arguments and compared with the model, both representations get the same questions, several iterators are driven by a random program of advance / previous / move / read / copy / reinit against a cursor over the model, and the serialized image before and after must agree; an evaluation is one query or iterator step, non-trivial when the bitmap is non-empty, distinct by query, arguments and contents";
void harness_init() {}
void run_case(Rng &r, u64 c) {
    World w = gen_world64(r);
    w.wide = r.chance(1, 80);
    Eng64 e(r, w); e.judge = 0; e.opname = "build";
    IS s = gen_set(r, w); if (r.chance(1, 3)) s = derive_set(r, w, s);
    IS d;
    switch (r.below(9)) {
        case 7: case 8: d = near_set(r, w, s); break;
        case 0: d = gen_set(r, w); break;
        case 1: d = s; break;
        case 2: { d = s; if (!d.empty()) { u64 v; d.select(r.below((u64)std::min<u128>(d.card(), (u128)1 << 62)), &v); d.remove(v); } break; }
        case 3: d = s; d.add(gen_value(r, w, s)); break;
        case 4: d = s & gen_set(r, w); if (r.coin()) d.add(gen_value(r, w, s)); break;
        default: d = derive_set(r, w, s);
    }
    e.pool.push_back(e.build(s)); e.pool.push_back(e.build(s)); e.pool.push_back(e.build(d));
    if (r.chance(1, 4)) { unsigned n = (unsigned)r.in(1, 6); for (unsigned i = 0; i < n; i++) e.step(C_ANY, 1); while (e.pool.size() < 3) e.pool.push_back(e.build(d)); }
    std::vector<Bytes> im; for (auto &x : e.pool) im.push_back(image64(x.b));
    Rng qseed = r;
    for (size_t i = 0; i < e.pool.size(); i++) {
        u64 base = mix(e.pool[i].m.hash(), hstr(kinds64(e.pool[i].b).c_str()));
        Rng rr = i < 2 ? qseed : r;
        Q64 q{rr, w, e.pool[i].b, e.pool[i].m, base};
        LOG(" bitmap %zu kinds=%s %s", i, kinds64(e.pool[i].b).c_str(), chunk_profile(e.pool[i].m).c_str()); cov2("kinds", kinds64(e.pool[i].b).c_str());
        q.all(12);
        r.next();
    }
    for (int n = 0; n < 8; n++) { Bm64 &x = r.of(e.pool), &y = r.of(e.pool); pair_queries64(x.b, x.m, y.b, y.m, mix(x.m.hash(), y.m.hash() + n)); }
    {
        Walk64 wk{r, w, {}, {}};
        for (auto &x : e.pool) if (x.m.nint() < 200000) wk.tgts.push_back({x.b, &x.m});
        if (!wk.tgts.empty()) { wk.start(r.below(wk.tgts.size()), false); wk.start(r.below(wk.tgts.size()), true); unsigned n = (unsigned)r.in(30, 150); for (unsigned i = 0; i < n; i++) wk.step(); }
    }
    for (size_t i = 0; i < e.pool.size(); i++) CHECK(image64(e.pool[i].b) == im[i], "queries or iteration modified bitmap %zu", i);
    if (c < 2) sample("case %llu: %s | second: %s", (unsigned long long)c, chunk_profile(s).c_str(), chunk_profile(d).c_str());
}
