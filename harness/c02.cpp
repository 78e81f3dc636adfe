#include "eng32.hpp"
const char *PROP = "C02";
const char *RULE = "a case builds 1-4 bitmaps and applies a random history of updates (single, checked, many, bulk, ranges reaching 0, 2^32-1 and beyond 2^32, from_range with any step, copy, overwrite, clear), with set operations and optimisation in between to vary the representation; an evaluation is one judged update, non-trivial when it acts on a non-empty bitmap, distinct by operation, arguments, contents and container kinds";
void harness_init() {}
void run_case(Rng &r, u64 c) {
    World w = gen_world32(r);
    w.cow = r.chance(1, 4);
    w.wide = r.chance(1, 60);
    Eng32 e(r, w);
    e.judge = C_UPD;
    e.populate((unsigned)r.in(1, 3));
    unsigned n = w.wide ? 8 : (unsigned)r.in(10, 40);
    for (unsigned i = 0; i < n; i++) e.step(C_UPD, 6);
    if (c < 2) { std::string s; for (auto &x : e.pool) s += chunk_profile(x.m) + "; "; sample("case %llu (%s) final pool: %s", (unsigned long long)c, w.cow ? "cow" : "no cow", s.c_str()); }
}
