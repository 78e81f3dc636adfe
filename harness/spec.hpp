// Independent encoder/decoder of the public Roaring serialization formats
// (RoaringFormatSpec), written from the specification text.
#pragma once
#include "common.hpp"
typedef std::vector<unsigned char> Bytes;
struct EncOpt {
    int run_mode = 0;      // 0 never, 1 when smaller, 2 random, 3 always
    bool force_run_cookie = false;  // use the run cookie even with no run container
};
Bytes spec_encode32(const IS &s, const EncOpt &o, Rng *r);
// Decodes strictly; returns empty string on success, otherwise a description of
// the nonconformity. *used = number of bytes of the encoding.
std::string spec_decode32(const unsigned char *p, size_t n, IS &out, size_t *used, bool strict_kinds = true);
Bytes spec_encode64(const IS &s, const EncOpt &o, Rng *r);
std::string spec_decode64(const unsigned char *p, size_t n, IS &out, size_t *used);

// layout of a portable 32-bit encoding, for targeted mutation
struct SpecChunk { size_t desc_off; size_t data_off; size_t data_len; int kind; u64 card; u64 nruns; };  // kind 1 bitset 2 array 3 run
struct SpecLayout { bool runs; u64 n; size_t runflags_off; size_t desc_off; size_t offs_off; bool has_offs; std::vector<SpecChunk> ch; size_t end; };
bool spec_layout32(const unsigned char *p, size_t n, SpecLayout &L);
// every chunk of the 32-bit encoding uses the smallest form for the contents m
// (sizes as the library accounts them: array 2+2*card, bitset 8192, run 2+4*runs);
// returns the length of the encoding
size_t smallest_forms(const unsigned char *p, size_t n, const IS &m, u64 base);
// bytes of the containers of an encoding, headers left out
size_t payload32(const unsigned char *p, size_t n, size_t *end);
size_t payload64(const unsigned char *p, size_t n);
