// Reference model: a set of uint64 values kept as sorted, disjoint,
// non-adjacent inclusive intervals.  Knows nothing about Roaring.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

const unsigned long long MAX_EXPAND = 1ull << 28;  // larger sets are not expanded into plain bitset form (memory)
struct IS {
    typedef std::pair<u64, u64> Iv;
    std::vector<Iv> v;
    mutable std::vector<u128> pre;  // pre[i] = values in v[0..i)
    mutable bool pre_ok = false;

    bool empty() const { return v.empty(); }
    size_t nint() const { return v.size(); }
    u128 card() const;
    bool contains(u64 x) const;
    u64 min() const { return v.front().first; }
    u64 max() const { return v.back().second; }
    void add(u64 lo, u64 hi);  // inclusive
    void remove(u64 lo, u64 hi);
    void flip(u64 lo, u64 hi);
    void add(u64 x) { add(x, x); }
    void remove(u64 x) { remove(x, x); }
    void clear() { v.clear(); pre_ok = false; }
    // builder: values in increasing order; returns false if out of order
    bool append(u64 lo, u64 hi);
    u128 rank(u64 x) const;  // # of values <= x
    bool select(u128 k, u64 *out) const;
    bool next_ge(u64 x, u64 *out) const;
    bool prev_le(u64 x, u64 *out) const;
    u128 count(u64 lo, u64 hi) const;  // inclusive
    bool contains_range(u64 lo, u64 hi) const { return count(lo, hi) == (u128)(hi - lo) + 1; }
    IS restrict_to(u64 lo, u64 hi) const;
    IS shift(i128 off, u64 lo, u64 hi) const;  // shifted, clipped to [lo,hi]
    bool subset_of(const IS &o) const;
    bool intersects(const IS &o) const;
    // first n values from index k on
    void values_from(u128 k, size_t n, std::vector<u64> &out) const;
    u64 hash() const;
    std::string str(size_t maxiv = 12) const;
    bool operator==(const IS &o) const { return v == o.v; }
    bool operator!=(const IS &o) const { return v != o.v; }
    static IS op(const IS &a, const IS &b, int tt);  // truth table bits: 1:a&b 2:a&~b 4:~a&b
    static IS normalize(std::vector<Iv> raw);
    static IS from_values(std::vector<u64> vals);

   private:
    void mkpre() const;
    size_t find(u64 x) const;  // index of first interval with hi >= x
};
inline IS operator&(const IS &a, const IS &b) { return IS::op(a, b, 1); }
inline IS operator|(const IS &a, const IS &b) { return IS::op(a, b, 7); }
inline IS operator^(const IS &a, const IS &b) { return IS::op(a, b, 6); }
inline IS operator-(const IS &a, const IS &b) { return IS::op(a, b, 2); }
std::string diff_str(const IS &expect, const IS &got);
