// All workloads in one program, every judgement on (used by tools/mutate.py only).
#include "common.hpp"
#include <algorithm>
const char *PROP = "MUT";
const char *RULE = "n/a";
#define OTHERS X(c01) X(c02) X(c03) X(c04) X(c05) X(c06) X(c07) X(c08) X(c09) X(c10) X(c11) X(c12) X(c14) X(c16) X(c18) X(c19) X(c20)
#define X(n) void run_case_##n(Rng &, u64);
OTHERS
#undef X
struct Other { const char *name; void (*fn)(Rng &, u64); };
static const Other all[] = {
#define X(n) {#n, run_case_##n},
OTHERS
#undef X
};
static std::vector<Other> use;
void harness_init() {
    const char *m = getenv("MUT_MIX");
    for (auto &o : all) if (!m || strstr(m, o.name)) use.push_back(o);
}
void run_case(Rng &r, u64 c) { const Other &o = use[c % use.size()]; LOG("%s", o.name); o.fn(r, c / use.size() + (c % 3 ? 1000 : 0)); }
