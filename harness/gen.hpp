// Generators of sets, aimed at the representation boundaries of Roaring.
#pragma once
#include "common.hpp"

// chunk content: subset of [0,65535]
void gen_reset();                                         // at the start of a case
IS gen_chunk(Rng &r, int *shape_out = nullptr);
IS gen_chunk_shape(Rng &r, int shape);
extern const char *const SHAPE_NAMES[];
extern const int N_SHAPES;

IS gen_target(Rng &r);                                    // chunk content with a cardinality at a decision boundary
void aim_pair(Rng &r, int tt, IS &a, IS &b);              // chunk contents whose combination (truth table tt) is such a target

u64 edge16(Rng &r);       // a 16-bit value, mostly at an edge of a word, a block or the range
struct World {             // case-level key universe (16-bit or 48-bit keys)
    std::vector<u64> keys; // high part, value = key<<16 | low
    u64 maxval;            // 2^32-1 or 2^64-1
    bool cow = false;
    bool wide = false;     // allow very long ranges
};
World gen_world32(Rng &r);
World gen_world64(Rng &r);
IS gen_many_chunks(Rng &r, u64 most);  // 500..most chunks, few values or short runs in each
std::vector<IS> gen_family(Rng &r, unsigned n, u64 maxkey = 65535);  // n sets of similar size over few chunks, mostly disjoint
IS gen_set(Rng &r, const World &w);
void aim_sets(Rng &r, const World &w, int tt, IS &a, IS &b);
IS derive_set(Rng &r, const World &w, const IS &base);
// boundary-biased value / range, guided by a set
u64 gen_value(Rng &r, const World &w, const IS &guide);
IS near_set(Rng &r, const World &w, const IS &base);
void gen_range(Rng &r, const World &w, const IS &guide, u64 *lo, u64 *hi);  // inclusive, lo<=hi
std::string chunk_profile(const IS &s);  // short description
