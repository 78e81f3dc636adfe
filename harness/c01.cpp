#include "eng32.hpp"
const char *PROP = "C01";
const char *RULE = "a case builds 2-6 bitmaps (shapes aimed at container boundaries, COW worlds included) and applies a random history of set operations interleaved with updates, optimisation and serialization; an evaluation is one judged operation; it is non-trivial when its first operand is non-empty, distinct by operation, arguments, operand contents and container kinds";
void harness_init() {}
void run_case(Rng &r, u64 c) {
    World w = gen_world32(r);
    w.cow = r.chance(1, 4);
    w.wide = r.chance(1, 60);
    Eng32 e(r, w);
    e.judge = C_SET;
    e.populate((unsigned)r.in(2, 4));
    unsigned n = w.wide ? 6 : (unsigned)r.in(8, 30);
    for (unsigned i = 0; i < n; i++) e.step(C_SET, 6);
    if (c < 2) { std::string s; for (auto &x : e.pool) s += chunk_profile(x.m) + "; "; sample("case %llu (%s) final pool: %s", (unsigned long long)c, w.cow ? "cow" : "no cow", s.c_str()); }
}
