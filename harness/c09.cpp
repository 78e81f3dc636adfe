#include "eng64.hpp"
const char *PROP = "C09";
const char *RULE = "a case builds 1-3 64-bit bitmaps over keys chosen to grow, split and merge the radix tree (shared prefixes, fan-out in one byte, dense and sparse keys) and applies a random history of updates and set operations interleaved with optimisation and serialization; an evaluation is one judged operation; non-trivial when its first operand is non-empty, distinct by operation, arguments, contents and container kinds";
void harness_init() {}
void run_case(Rng &r, u64 c) {
    World w = gen_world64(r);
    w.wide = r.chance(1, 60);
    Eng64 e(r, w);
    e.judge = C_SET | C_UPD;
    e.populate((unsigned)r.in(1, 3));
    unsigned n = w.wide ? 6 : (unsigned)r.in(8, 30);
    for (unsigned i = 0; i < n; i++) e.step(C_SET | C_UPD, 4);
    if (c < 2) { std::string s; for (auto &x : e.pool) s += chunk_profile(x.m) + "; "; sample("case %llu final pool: %s", (unsigned long long)c, s.c_str()); }
}
