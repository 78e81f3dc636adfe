// Structural observer of a 32-bit bitmap: reads the containers directly, so it
// does not depend on any query of the library.
#pragma once
// (declared here, used by every harness that records digests)
#include "common.hpp"
#include <roaring/roaring.h>
// contents; *malformed (if given) receives "" or why the structure does not denote a set unambiguously
IS read32(const roaring_bitmap_t *r, std::string *malformed = nullptr);
// strict internal-consistency rules; "" if well formed
std::string wellformed32(const roaring_bitmap_t *r);
u64 rawhash32(const roaring_bitmap_t *r);  // hash of every byte of logical state
void kinds32(const roaring_bitmap_t *r, u64 k[5]);  // counts by typecode (1 bitset 2 array 3 run, 4 shared)
std::vector<u64> run_counts32(const roaring_bitmap_t *r);
std::string kinds_str(const roaring_bitmap_t *r);
void digest_image32(const roaring_bitmap_t *r);  // contents as portable bytes, when digests are recorded
