// Driver of 64-bit bitmap histories (see eng32.hpp for the conventions).
#pragma once
#include <algorithm>
#include <math.h>
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include "common.hpp"
#include "gen.hpp"
#include "spec.hpp"
#ifndef ENG_CATS
#define ENG_CATS
enum Cat { C_SET = 1, C_UPD = 2, C_OPT = 4, C_SER = 8, C_COPY = 16, C_ANY = 31 };
#endif

struct Bm64 { roaring64_bitmap_t *b = nullptr; IS m; };

// Contents through one of three independent routes.
IS read64_portable(const roaring64_bitmap_t *b, std::string *err);  // portable image + own decoder
IS read64_iterate(const roaring64_bitmap_t *b, bool *ordered);      // callback iteration
IS read64_array(const roaring64_bitmap_t *b, bool *ordered);        // to_uint64_array
Bytes image64(const roaring64_bitmap_t *b);
std::string kinds64(const roaring64_bitmap_t *b);
roaring64_bitmap_t *make64(const IS &s, int how, Rng &r);           // how 0..4

struct Eng64 {
    Rng &r;
    World w;
    std::vector<Bm64> pool;
    int judge = C_ANY;
    bool wf = false;
    bool consts = true;
    size_t max_pool = 5;
    unsigned rebuild = 8;
    std::string opname;
    int cur_cat = C_ANY;
    struct Op { const char *name; int cat; unsigned weight; void (Eng64::*fn)(); };
    static const std::vector<Op> &ops();

    Eng64(Rng &rr, const World &ww) : r(rr), w(ww) {}
    ~Eng64() { for (auto &x : pool) roaring64_bitmap_free(x.b); }
    Eng64(const Eng64 &) = delete;

    // what the bitmap holds; `exp` is accepted if any route yields it
    IS observe(const roaring64_bitmap_t *b, const IS &exp, std::string *how);
    void settle(Bm64 &x, const IS &exp, int cat);
    void konst(const Bm64 &x);
    void check_wf(Bm64 &x);
    Bm64 build(const IS &s);
    void populate(unsigned n) { IS last; for (unsigned i = 0; i < n; i++) { IS s = (i && r.coin()) ? derive_set(r, w, last) : gen_set(r, w); last = s; pool.push_back(build(s)); } }
    int fi = -1, fj = -1;   // operands forced by op_aimed
    size_t pick() { if (fi >= 0) return (size_t)fi; return r.below(pool.size()); }
    size_t other(size_t i) { if (fj >= 0) return (size_t)fj; if (pool.size() < 2) { pool.push_back(build(derive_set(r, w, pool[i].m))); return pool.size() - 1; } size_t j = r.below(pool.size() - 1); return j >= i ? j + 1 : j; }
    void adopt(Bm64 x) { if (pool.size() < max_pool) { pool.push_back(std::move(x)); return; } if (fi >= 0) { roaring64_bitmap_free(x.b); return; } size_t i = pick(); roaring64_bitmap_free(pool[i].b); pool[i] = std::move(x); }
    void fresh(roaring64_bitmap_t *b, const IS &exp, int cat);
    void ev(u64 h, bool nt) { if (cur_cat & judge) eval_sig(h, nt); }
    void sig(u64 a, const Bm64 *x, const Bm64 *y = nullptr, u64 arg = 0);
    u64 val(const IS &g) { return gen_value(r, w, g); }
    std::vector<u64> vals(const IS &g, size_t maxn = 3000);
    void hrange(const IS &g, u64 *lo, u64 *hi, bool unlimited);
    IS guide() { return pool[pick()].m; }

    void op_add(); void op_add_checked(); void op_remove(); void op_remove_checked(); void op_burst(); void op_add_many(); void op_remove_many(); void op_bulk();
    void op_add_range(); void op_add_range_closed(); void op_remove_range(); void op_remove_range_closed(); void op_clear(); void op_copy(); void op_of_ptr(); void op_from_range(); void op_move32(); void op_scratch(); void op_drain();
    void op_aimed(); void op_and(); void op_or(); void op_xor(); void op_andnot(); void op_and_in(); void op_or_in(); void op_xor_in(); void op_andnot_in(); void op_cards();
    void op_flip(); void op_flip_closed(); void op_flip_in(); void op_flip_in_closed();
    void op_run_optimize(); void op_shrink(); void op_portable(); void op_frozen(); void op_free();
    typedef roaring64_bitmap_t *(*F2)(const roaring64_bitmap_t *, const roaring64_bitmap_t *);
    typedef void (*F2i)(roaring64_bitmap_t *, const roaring64_bitmap_t *);
    void binary(F2 f, int tt);
    void inplace(F2i f, int tt, bool self_ok);

    void step(int favoured, unsigned favour) {
        const auto &o = ops();
        if (r.chance(1, rebuild)) { for (auto &q : o) if (q.fn == &Eng64::op_scratch) { apply(q); return; } }
        unsigned tot = 0;
        for (auto &q : o) tot += q.weight * ((q.cat & favoured) ? favour : 1);
        unsigned x = (unsigned)r.below(tot);
        for (auto &q : o) { unsigned k = q.weight * ((q.cat & favoured) ? favour : 1); if (x < k) { apply(q); return; } x -= k; }
    }
    void apply(const Op &q) {
        opname = q.name; cur_cat = q.cat; g_ops++;
        LOG(" op %s", q.name); cov2("op64", q.name);
        (this->*q.fn)();
        while (pool.size() > max_pool + 3) { roaring64_bitmap_free(pool.back().b); pool.pop_back(); }
        for (auto &x : pool) if (x.m.nint() > 100000) { roaring64_bitmap_clear(x.b); x.m.clear(); }
    }
};
