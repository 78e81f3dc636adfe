// Allocation failure is reported, not turned into corruption: every allocation
// request inside the operations documented to report failure is made to fail,
// once alone and once together with all that follow.
#include <signal.h>
#include <memory>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "eng32.hpp"
#include "eng64.hpp"
#include <roaring.hh>
#include <roaring64map.hh>
typedef unsigned long long ull;
using std::string;
using std::vector;
using roaring::Roaring;
using roaring::Roaring64Map;
const char *PROP = "C15";
const char *RULE = "a case prepares inputs (32-bit bitmaps with and without shared containers, images whole and damaged, bitsets, 64-bit bitmaps, C++ objects), counts the allocation requests of one operation, and repeats it with the k-th request failing, alone and with every later one, for each k (a sample when there are more than 40); the call must return its documented failure value or a fully correct result, leave inputs as they were, release everything it allocated and leave every bitmap involved valid and usable; an evaluation is one call with an injected failure, distinct by operation, inputs, position and mode";
void harness_init() { hooks_strict(true); }

// ---- the explorer ------------------------------------------------------------------
struct Op {
    string name;
    std::function<void()> prep;         // fresh state, failures off
    std::function<bool()> call;         // true: success reported
    std::function<void(bool ok)> post;  // judge and release
    std::function<const char *(u64 k)> site;  // non-null: position that may be a known finding
    bool may_refuse = false;            // damaged input: the operation may fail without an injected failure
    u64 sig = 0;
};
static string NAME; static ull POS; static int MODE; static u64 TOTAL; static vector<int> KIND;
#define W(fmt, ...) "%s (allocation %llu of %llu fails%s): " fmt, NAME.c_str(), POS, (ull)TOTAL, MODE ? ", and all later ones" : "", ##__VA_ARGS__
static void ledger(const HookStats &h, const char *when) {
    HookStats n = hooks_stats(); count_check();
    if (n.live_blocks != h.live_blocks || n.live_bytes != h.live_bytes) { hooks_dump_live(); fail(W("%lld blocks (%lld bytes) more than before are allocated %s"), (long long)(n.live_blocks - h.live_blocks), (long long)(n.live_bytes - h.live_bytes), when); }
}
static bool attempt(Op &o, u64 k, int mode) {
    HookStats h = hooks_stats();
    POS = k; MODE = mode;
    o.prep();
    HookStats a = hooks_stats();
    LOG("  %s k=%llu of %llu mode=%d", o.name.c_str(), (ull)k, (ull)TOTAL, mode);
    hooks_fail_from(mode); hooks_fail_at(k);
    bool ok = o.call();
    bool injected = hooks_failed();
    u64 n = hooks_alloc_count();
    if (k == 0) { KIND.assign(n + 1, 0); for (u64 i = 1; i <= n; i++) KIND[i] = hooks_request_kind(i); }
    hooks_fail_at(0); hooks_fail_from(false);
    if (!injected && !ok && !o.may_refuse) fail(W("failure reported although no allocation failed"));
    o.post(ok);
    ledger(h, "after everything was released");
    (void)a;
    if (k == 0) TOTAL = n;
    else if (injected) { cov2(ok ? "absorbed" : "reported", o.name.c_str()); g_ops++; eval_sig(mix(mix(hstr(o.name.c_str()), o.sig), k * 2 + mode), true); }
    else cov2("not reached", o.name.c_str());
    return injected;
}
// in a process of its own: for positions at which a known defect may corrupt memory
static bool survives(Op &o, u64 k, int mode) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) internal_error("fork");
    if (!p) {
        rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 20; setrlimit(RLIMIT_CPU, &rl);
        if (!g_trace) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
        signal(SIGSEGV, SIG_DFL); signal(SIGPROF, SIG_DFL);
        attempt(o, k, mode);
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0) {}
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void explore(Rng &r, Op o) {
    NAME = o.name; TOTAL = 0; cov2("op", o.name.c_str());
    attempt(o, 0, 0);
    u64 n = TOTAL;
    if (!n) { cov2("no allocation", o.name.c_str()); return; }
    vector<int> kind = KIND;
    vector<u64> ks;
    u64 all = g_tier ? 200 : 40;
    if (n <= all) for (u64 k = 1; k <= n; k++) ks.push_back(k);
    else { for (u64 k = 1; k <= 6; k++) { ks.push_back(k); ks.push_back(n + 1 - k); } for (u64 i = 0; i < all - 12; i++) ks.push_back(r.in(7, n - 6)); }
    unsigned forks = 0; bool skipped = false;
    for (u64 k : ks) for (int mode = 0; mode < 2; mode++) {
        const char *s = nullptr;
        if (o.site) s = o.site((u64)kind[k] << 32 | k);
        if (s) {
            if (forks >= 3 && known(s)) { skipped = true; continue; }
            forks++;
            if (!survives(o, k, mode)) finding(s, "%s: crashes or misbehaves when allocation %llu of %llu fails%s", o.name.c_str(), (ull)k, (ull)n, mode ? ", and all later ones" : "");
            else { cov2("survived", o.name.c_str()); eval_sig(mix(mix(hstr(o.name.c_str()), o.sig), k * 2 + mode), true); }
        } else attempt(o, k, mode);
    }
    cov2(n <= all && !skipped ? "complete" : "sampled", o.name.c_str());
    cov2(("requests/" + std::to_string(std::min<u64>(n, 64) / 8 * 8)).c_str(), o.name.c_str());
}
// ---- 32-bit inputs ------------------------------------------------------------------
static void good(const roaring_bitmap_t *b, const IS &m, const char *what) {
    string mal; IS g = read32(b, &mal); count_check();
    if (!mal.empty()) fail(W("%s is malformed: %s"), what, mal.c_str());
    if (g != m) fail(W("%s: %s"), what, diff_str(m, g).c_str());
    string e = wellformed32(b); if (!e.empty()) fail(W("%s: %s"), what, e.c_str());
    const char *why = nullptr; if (!roaring_bitmap_internal_validate(b, &why)) fail(W("%s does not validate: %s"), what, why ? why : "?");
    if ((u128)roaring_bitmap_get_cardinality(b) != m.card()) fail(W("%s: wrong cardinality"), what);
}
// the bitmap can still be updated and copied
static void usable(roaring_bitmap_t *b, IS m, Rng q, const char *what) {
    for (int i = 0; i < 3; i++) {
        u64 x = !m.empty() && q.coin() ? q.of(m.v).first : q.below(1ull << 32), y = std::min<u64>(x + q.below(5000), 0xFFFFFFFF);
        switch (q.below(5)) {
            case 0: roaring_bitmap_add(b, (uint32_t)x); m.add(x); break;
            case 1: roaring_bitmap_remove(b, (uint32_t)x); m.remove(x); break;
            case 2: roaring_bitmap_add_range_closed(b, (uint32_t)x, (uint32_t)y); m.add(x, y); break;
            case 3: roaring_bitmap_remove_range_closed(b, (uint32_t)x, (uint32_t)y); m.remove(x, y); break;
            default: roaring_bitmap_run_optimize(b);
        }
    }
    good(b, m, what);
    roaring_bitmap_t *c = roaring_bitmap_copy(b); if (!c) fail(W("%s cannot be copied afterwards"), what);
    roaring_bitmap_or_inplace(c, b); good(c, m, what); roaring_bitmap_free(c);
}
struct Src {  // a bitmap, possibly sharing containers with another
    roaring_bitmap_t *b = nullptr, *keep = nullptr; IS m;
    void make(const roaring_bitmap_t *proto, const IS &pm, bool cow, int share, Rng q) {
        m = pm; b = roaring_bitmap_copy(proto); if (!b) internal_error("copy");
        if (!cow) return;
        roaring_bitmap_set_copy_on_write(b, true);
        if (share) keep = roaring_bitmap_copy(b);
        if (share == 2) for (auto &p : m.v) if (q.chance(1, 3)) roaring_bitmap_add(b, (uint32_t)p.first);  // own again
    }
    void same(const char *what) { good(b, m, what); if (keep) good(keep, m, "a bitmap sharing containers with the input"); }
    void done(Rng q) { same("the input"); if (q.chance(1, 2)) usable(b, m, q, "the input, updated afterwards,"); roaring_bitmap_free(b); if (keep) { good(keep, m, "a bitmap sharing containers with the input"); roaring_bitmap_free(keep); } b = keep = nullptr; }
};
typedef std::shared_ptr<Src> SrcP;

static void ops32(Rng &r, const World &w, Eng32 &e) {
    Bm p = e.build(r.chance(1, 3) ? derive_set(r, w, gen_set(r, w)) : gen_set(r, w)), d = e.build(gen_set(r, w));
    if (p.m.nint() > 20000 || p.m.card() > 2000000 || d.m.card() > 2000000 || d.m.nint() > 20000) { roaring_bitmap_free(p.b); roaring_bitmap_free(d.b); return; }
    bool cow = r.coin(); int share = (int)r.below(3); u64 qs = r.next();
    u64 sig = mix(mix(rawhash32(p.b), rawhash32(d.b)), cow * 4 + share);
    SrcP s(new Src); roaring_bitmap_t *res = nullptr, *dest = nullptr; Src dst;
    auto base = [&](const char *n) { Op o; o.name = n; o.sig = sig; return o; };
    auto mk = [&] { s->make(p.b, p.m, cow, share, Rng(qs)); };
    switch (r.below(16)) {
        case 0: case 1: {
            Op o = base(cow ? "copy (copy-on-write)" : "copy"); o.prep = mk;
            o.call = [&] { res = roaring_bitmap_copy(s->b); return res != nullptr; };
            o.post = [&](bool ok) { s->same("the input"); Rng q(qs); if (ok) { good(res, p.m, "the copy"); if (q.coin()) usable(res, p.m, q, "the copy, updated,"); s->same("the input"); if (q.coin()) { roaring_bitmap_free(res); res = nullptr; } } s->done(q); if (res) { roaring_bitmap_free(res); res = nullptr; } };
            explore(r, o); break;
        }
        case 2: case 3: case 4: {
            bool dcow = r.coin(); int dshare = (int)r.below(3); bool rel = r.chance(1, 4);  // rel: the destination shares with the source
            Op o = base(cow ? "overwrite (copy-on-write)" : "overwrite"); o.sig = mix(sig, dcow * 8 + dshare * 2 + rel);
            o.prep = [&] { mk(); if (rel) { dst = Src(); dst.b = roaring_bitmap_copy(s->b); dst.m = p.m; } else dst.make(d.b, d.m, dcow, dshare, Rng(qs + 1)); };
            o.call = [&] { return roaring_bitmap_overwrite(dst.b, s->b); };
            o.post = [&](bool ok) {
                s->same("the input"); if (dst.keep) good(dst.keep, dst.m, "a bitmap sharing containers with the old destination");
                Rng q(qs); IS m = ok ? p.m : IS();
                good(dst.b, m, ok ? "the destination" : "the destination (documented to be empty after failure)");
                usable(dst.b, m, q, "the destination, updated afterwards,");
                if (q.coin()) { bool again = roaring_bitmap_overwrite(dst.b, s->b); if (!again) fail(W("the second overwrite fails without reason")); good(dst.b, p.m, "the destination overwritten again"); }
                if (q.coin()) { roaring_bitmap_free(dst.b); s->done(q); } else { s->done(q); roaring_bitmap_free(dst.b); }
                if (dst.keep) { good(dst.keep, dst.m, "a bitmap sharing containers with the old destination"); roaring_bitmap_free(dst.keep); } dst = Src();
            };
            explore(r, o); break;
        }
        case 5: {
            u64 cap = r.pick<u64>({0, 1, 3, 100, 65536, 70000}); int how = (int)r.below(4); roaring_bitmap_t on;
            static const char *const nm[] = {"create", "create_with_capacity", "init_with_capacity", "init_cleared and add"};
            Op o = base(nm[how == 3 ? 0 : how]); if (how == 3) how = 0; o.sig = mix(cap, how);
            o.prep = [&] { res = nullptr; };
            o.call = [&] { if (how == 0) { res = roaring_bitmap_create(); return res != nullptr; } if (how == 1) { res = roaring_bitmap_create_with_capacity((uint32_t)cap); return res != nullptr; } if (roaring_bitmap_init_with_capacity(&on, (uint32_t)cap)) { res = &on; return true; } return false; };
            o.post = [&](bool ok) { if (!ok) return; good(res, IS(), "the new bitmap"); usable(res, IS(), Rng(qs), "the new bitmap"); if (how == 2) roaring_bitmap_clear(res); else roaring_bitmap_free(res); res = nullptr; };
            explore(r, o); break;
        }
        case 6: case 7: case 8: {  // images, whole or damaged
            int fmt = (int)r.below(7); Bm sp;
            if (fmt == 3 || fmt == 4) if (r.coin()) { IS t; unsigned n = (unsigned)r.in(1, 40); for (unsigned i = 0; i < n; i++) t.add(r.below(1ull << 32)); if (r.coin()) t.add(t.min(), std::min<u64>(t.min() + r.below(10), 0xFFFFFFFF)); sp = e.build(t); }
            const Bm &x = sp.b ? sp : p;
            static const char *const nm[] = {"portable_deserialize_safe", "portable_deserialize", "portable_deserialize_safe (damaged)", "deserialize", "deserialize_safe", "portable_deserialize_frozen", "frozen_view"};
            size_t len = fmt == 3 || fmt == 4 ? roaring_bitmap_size_in_bytes(x.b) : fmt == 6 ? roaring_bitmap_frozen_size_in_bytes(x.b) : roaring_bitmap_portable_size_in_bytes(x.b);
            Buf full(len, 32); if (fmt == 3 || fmt == 4) roaring_bitmap_serialize(x.b, full.p); else if (fmt == 6) roaring_bitmap_frozen_serialize(x.b, full.p); else roaring_bitmap_portable_serialize(x.b, full.p);
            size_t cut = len; if (fmt == 2) cut = r.below(len); 
            Buf im(cut, 32); memcpy(im.p, full.p, cut);
            if (fmt == 2 && r.chance(1, 3) && cut > 12) im.p[r.below(12)] ^= (char)(1 << r.below(8));
            Op o = base(nm[fmt]); o.sig = mix(mix(rawhash32(x.b), fmt), cut); o.may_refuse = fmt == 2;
            bool list = (fmt == 3 || fmt == 4) && im.p[0] == 1; if (list) { o.name += " (list of values)"; o.site = [](u64 kk) -> const char * { return (uint32_t)kk > 1 ? "deserialize-list" : nullptr; }; }
            o.prep = [] {};
            o.call = [&] {
                switch (fmt) { case 1: res = roaring_bitmap_portable_deserialize(im.p); break; case 3: res = roaring_bitmap_deserialize(im.p); break; case 4: res = roaring_bitmap_deserialize_safe(im.p, im.n); break; case 5: res = roaring_bitmap_portable_deserialize_frozen(im.p); break; case 6: res = (roaring_bitmap_t *)roaring_bitmap_frozen_view(im.p, im.n); break; default: res = roaring_bitmap_portable_deserialize_safe(im.p, im.n); }
                return res != nullptr;
            };
            o.post = [&](bool ok) {
                if (!ok) return;
                if (fmt == 2) { roaring_bitmap_free(res); res = nullptr; return; }  // what a damaged image means is judged by C08
                good(res, x.m, "the bitmap read"); if (fmt < 5) usable(res, x.m, Rng(qs), "the bitmap read"); roaring_bitmap_free(res); res = nullptr;
            };
            explore(r, o);
            roaring_bitmap_free(sp.b); break;
        }
        case 9: case 10: {
            if (p.m.empty()) break;
            u64 card = (u64)p.m.card(), off = r.below(card), lim = r.chance(1, 4) ? card - off + r.below(50) : r.in(1, r.coin() ? std::min<u64>(card, 100) : card);
            if (lim > 600000) lim = 600000;
            Op o = base("range_uint32_array"); o.sig = mix(sig, mix(off, lim)); Buf out(4 * lim);
            o.prep = [&] { mk(); memset(out.p, 0x77, out.n); };
            o.call = [&] { return roaring_bitmap_range_uint32_array(s->b, off, lim, (uint32_t *)out.p); };
            o.post = [&](bool ok) { if (ok) { vector<u64> t; p.m.values_from(off, std::min<u64>(lim, card - off), t); for (size_t i = 0; i < t.size(); i++) if (((uint32_t *)out.p)[i] != t[i]) fail(W("value %zu is %u instead of %llu"), i, ((uint32_t *)out.p)[i], (ull)t[i]); } s->done(Rng(qs)); };
            explore(r, o); break;
        }
        case 11: {
            if (p.m.empty() || p.m.max() > 200000000) { if (p.m.empty()) break; p.m = p.m.restrict_to(0, 20000000); roaring_bitmap_free(p.b); p = e.build(p.m); sig = rawhash32(p.b); }
            int how = (int)r.below(3); bitset_t *bs = nullptr; u64 words = r.below(300);
            Op o = base("to_bitset"); o.sig = mix(sig, mix(how, words));
            o.prep = [&] { mk(); bs = how == 0 ? bitset_create() : bitset_create_with_capacity(how == 1 ? 64 * words : 0); };
            o.call = [&] { return roaring_bitmap_to_bitset(s->b, bs); };
            o.post = [&](bool ok) {
                if (bs->arraysize > bs->capacity) fail(W("the bitset has %zu words in room for %zu"), bs->arraysize, bs->capacity);
                if (ok) { if ((u128)bitset_count(bs) != p.m.card()) fail(W("the bitset holds %zu values"), bitset_count(bs)); for (auto &v : p.m.v) if (!bitset_get(bs, v.first) || !bitset_get(bs, v.second)) fail(W("the bitset lacks a value")); }
                else if (bitset_count(bs) != 0) fail(W("the bitset holds values"));
                bitset_set(bs, 777); if (!bitset_get(bs, 777)) fail(W("the bitset cannot be used afterwards")); bitset_free(bs); s->done(Rng(qs));
            };
            explore(r, o); break;
        }
        case 12: {
            int how = (int)r.below(2); roaring_uint32_iterator_t *src = nullptr, *it = nullptr; u64 steps = r.below(20);
            Op o = base(how ? "iterator copy" : "iterator create"); o.sig = mix(sig, steps);
            o.prep = [&] { mk(); it = nullptr; if (how) { src = roaring_iterator_create(s->b); for (u64 i = 0; i < steps && src->has_value; i++) roaring_uint32_iterator_advance(src); } };
            o.call = [&] { it = how ? roaring_uint32_iterator_copy(src) : roaring_iterator_create(s->b); return it != nullptr; };
            o.post = [&](bool ok) {
                auto at = [&](roaring_uint32_iterator_t *t, u64 i, const char *what) { u64 v; bool has = p.m.select(i, &v); if (t->has_value != has || (has && t->current_value != v)) fail(W("%s is not in its place"), what); };
                u64 pos = how ? std::min<u64>(steps, (u64)std::min<u128>(p.m.card(), 100)) : 0;
                if (how) at(src, pos, "the iterator copied from"); if (ok) { at(it, pos, "the new iterator"); if (it->has_value) { roaring_uint32_iterator_advance(it); at(it, pos + 1, "the new iterator"); } if (how) at(src, pos, "the iterator copied from"); }
                roaring_uint32_iterator_free(it); if (how) roaring_uint32_iterator_free(src); s->done(Rng(qs));
            };
            explore(r, o); break;
        }
        default: {  // the C++ class
            int how = (int)r.below(7); std::unique_ptr<Roaring> a, t; Src da;
            static const char *const nm[] = {"Roaring copy", "Roaring assignment", "Roaring::read", "Roaring::readSafe", "Roaring::frozenView", "Roaring::read (native)", "Roaring assignment to a frozen view"};
            Op o = base(nm[how]); o.sig = mix(sig, how);
            size_t len = how == 4 || how == 6 ? roaring_bitmap_frozen_size_in_bytes(d.b) : how == 5 ? roaring_bitmap_size_in_bytes(p.b) : roaring_bitmap_portable_size_in_bytes(p.b);
            Buf im(len, 32); if (how == 4 || how == 6) roaring_bitmap_frozen_serialize(d.b, im.p); else if (how == 5) roaring_bitmap_serialize(p.b, im.p); else roaring_bitmap_portable_serialize(p.b, im.p);
            if (how == 5 && im.p[0] == 1) o.site = [](u64 kk) -> const char * { return (uint32_t)kk > 1 ? "deserialize-list" : nullptr; };
            IS want = how == 4 ? d.m : p.m;
            o.prep = [&] { mk(); a.reset(new Roaring(roaring_bitmap_copy(s->b))); if (how == 1) { da.make(d.b, d.m, cow, share, Rng(qs)); t.reset(new Roaring(da.b)); da.b = nullptr; } if (how == 6) t.reset(new Roaring(Roaring::frozenView(im.p, im.n))); };
            o.call = [&] {
                try {
                    switch (how) { case 0: t.reset(new Roaring(*a)); break; case 1: case 6: *t = *a; break; case 2: t.reset(new Roaring(Roaring::read(im.p))); break; case 3: t.reset(new Roaring(Roaring::readSafe(im.p, im.n))); break; case 4: t.reset(new Roaring(Roaring::frozenView(im.p, im.n))); break; default: t.reset(new Roaring(Roaring::read(im.p, false))); }
                    return true;
                } catch (std::runtime_error &) { return false; }
            };
            o.post = [&](bool ok) {
                Rng q(qs); good(&a->roaring, p.m, "the source object");
                if (ok) { good(&t->roaring, want, "the object"); if (how != 4) usable(&t->roaring, want, q, "the object, updated,"); }
                else if (how == 1) { good(&t->roaring, IS(), "the object assigned to"); usable(&t->roaring, IS(), q, "the object assigned to, updated afterwards,"); }
                else if (how == 6) good(&t->roaring, d.m, "the frozen view assigned to");
                good(&a->roaring, p.m, "the source object");
                if (q.coin()) { a.reset(); t.reset(); } else { t.reset(); a.reset(); }
                if (da.keep) { good(da.keep, d.m, "a bitmap sharing containers"); roaring_bitmap_free(da.keep); da = Src(); }
                s->done(q);
            };
            explore(r, o);
        }
    }
    roaring_bitmap_free(p.b); roaring_bitmap_free(d.b);
}
// ---- bitset_t ------------------------------------------------------------------------
static IS bread(const bitset_t *b) { IS s; for (size_t i = 0; i < b->arraysize; i++) for (u64 x = b->array[i]; x; x &= x - 1) { u64 v = i * 64 + __builtin_ctzll(x); s.append(v, v); } return s; }
static IS bgen(Rng &r, u64 lim) { IS s; unsigned n = (unsigned)r.below(40); for (unsigned i = 0; i < n; i++) { u64 a = r.below(lim); s.add(a, std::min(a + (r.chance(1, 3) ? r.below(150) : 0), lim)); } return s; }
static bitset_t *bmake(const IS &s, u64 cap) { bitset_t *b = cap ? bitset_create_with_capacity(cap) : bitset_create(); if (!b) internal_error("bitset"); for (auto &p : s.v) for (u64 v = p.first; v <= p.second; v++) bitset_set(b, v); return b; }
static void opsb(Rng &r) {
    u64 lim = r.pick<u64>({1, 64, 65, 300, 3000, 20000}), lim2 = r.pick<u64>({1, 64, 65, 300, 3000, 20000});
    IS m1 = bgen(r, lim), m2 = bgen(r, lim2); u64 cap1 = r.chance(1, 3) ? r.below(2 * lim) : 0, cap2 = r.chance(1, 3) ? r.below(2 * lim2) : 0, qs = r.next();
    bitset_t *a = nullptr, *b = nullptr, *res = nullptr; size_t as = 0, bs = 0; u64 arg = 0, arg2 = 0;
    int how = (int)r.below(13);
    static const char *const nm[] = {"bitset_create", "bitset_create_with_capacity", "bitset_copy", "bitset_resize", "bitset_grow", "bitset_trim", "bitset_inplace_union", "bitset_inplace_symmetric_difference", "bitset_set", "bitset_set_to_value", "bitset_shift_left", "bitset_inplace_union", "bitset_inplace_symmetric_difference"};
    Op o; o.name = nm[how];
    { bitset_t *t = bmake(m1, cap1); size_t n = t->arraysize; arg = how == 1 ? r.below(20000) : how == 3 || how == 4 ? n + r.below(n + 40) : how == 8 || how == 9 ? (r.coin() ? n * 64 + r.below(5000) : r.below(n * 64 + 1)) : r.below(4000); arg2 = r.coin(); if (how == 3 && arg2 == 0) arg2 = r.coin(); bitset_free(t); }
    o.sig = mix(mix(m1.hash(), m2.hash()), mix(mix(cap1, cap2), mix(arg, arg2)));
    IS want = m1;
    if (how == 6 || how == 11) want = m1 | m2; if (how == 7 || how == 12) want = m1 ^ m2; if (how == 8) want.add(arg); if (how == 9) { if (arg2) want.add(arg); else want.remove(arg); } if (how == 10) want = m1.shift((i128)arg, 0, UINT64_MAX);
    o.prep = [&] { a = bmake(m1, cap1); b = bmake(m2, cap2); if (how == 5) bitset_resize(a, a->arraysize + 20, true); as = a->arraysize; bs = b->arraysize; res = nullptr; };
    o.call = [&]() -> bool {
        switch (how) {
            case 0: res = bitset_create(); return res; case 1: res = bitset_create_with_capacity(arg); return res; case 2: res = bitset_copy(a); return res;
            case 3: return bitset_resize(a, arg, arg2); case 4: return bitset_grow(a, arg); case 5: return bitset_trim(a);
            case 6: case 11: return bitset_inplace_union(a, b); case 7: case 12: return bitset_inplace_symmetric_difference(a, b);
            case 8: bitset_set(a, arg); return !hooks_failed(); case 9: bitset_set_to_value(a, arg, arg2); return !hooks_failed(); default: bitset_shift_left(a, arg); return !hooks_failed();
        }
    };
    o.post = [&](bool ok) {
        for (bitset_t *x : {a, b, res}) if (x) { if (x->arraysize > x->capacity) fail(W("%zu words in room for %zu"), x->arraysize, x->capacity); if (x->capacity && hooks_usable(x->array) < 8 * x->capacity) fail(W("room for %zu words announced, %llu bytes allocated"), x->capacity, (ull)hooks_usable(x->array)); }
        if (ok && how == 3 && !arg2) for (size_t i = as; i < a->arraysize; i++) a->array[i] = 0;
        IS g = bread(a), w = ok ? want : m1; count_check();
        if (g != w) fail(W("%s: %s"), ok ? "result" : "the bitset was changed", diff_str(w, g).c_str());
        if (!ok && a->arraysize != as) fail(W("the bitset has %zu words instead of %zu"), a->arraysize, as);
        if (ok && (how == 3 || how == 4) && a->arraysize != arg) fail(W("the bitset has %zu words"), a->arraysize);
        if (bread(b) != m2 || b->arraysize != bs) fail(W("the const operand changed"));
        if (ok && how == 2 && bread(res) != m1) fail(W("the copy is wrong"));
        if (ok && how == 1 && (bitset_count(res) || res->arraysize * 64 < arg)) fail(W("the new bitset is wrong"));
        Rng q(qs); for (bitset_t *x : {a, b, res}) if (x) { IS t = bread(x); for (int i = 0; i < 3; i++) { u64 v = q.below(x->arraysize * 64 + 2000); bitset_set(x, v); t.add(v); } if (bread(x) != t) fail(W("a bitset misbehaves afterwards")); bitset_free(x); }
    };
    explore(r, o);
}
// ---- 64-bit -------------------------------------------------------------------------
static void good64(const roaring64_bitmap_t *b, const IS &m, const char *what) {
    string err; IS g = read64_portable(b, &err); count_check();
    if (!err.empty()) fail(W("%s: %s"), what, err.c_str());
    if (g != m) fail(W("%s: %s"), what, diff_str(m, g).c_str());
    const char *why = nullptr; if (!roaring64_bitmap_internal_validate(b, &why)) fail(W("%s does not validate: %s"), what, why ? why : "?");
}
static void ops64(Rng &r) {
    World w = gen_world64(r); IS m = gen_set(r, w); if (m.nint() > 5000 || m.card() > 1000000) m = m.restrict_to(m.min(), m.min() + 100000);
    roaring64_bitmap_t *p = make64(m, (int)r.below(5), r), *res = nullptr; if (r.coin()) roaring64_bitmap_run_optimize(p); roaring64_bitmap_shrink_to_fit(p);
    int how = (int)r.below(9); u64 sig = mix(m.hash(), how), steps = r.below(10), qs = r.next();
    static const char *const nm[] = {"roaring64 create", "roaring64 copy", "roaring64 portable_deserialize_safe", "roaring64 frozen_view", "roaring64 iterator create", "roaring64 iterator copy", "Roaring64Map copy", "Roaring64Map::readSafe", "roaring64 frozen_view (truncated)"};
    Op o; o.name = nm[how]; o.sig = sig;
    size_t len = how == 3 || how == 8 ? roaring64_bitmap_frozen_size_in_bytes(p) : roaring64_bitmap_portable_size_in_bytes(p), cut = how == 8 ? r.below(len) : len; if (how == 8) o.sig = mix(sig, cut), o.may_refuse = true;
    Buf full(len, 64), im(cut, 64); if (how == 3 || how == 8) roaring64_bitmap_frozen_serialize(p, full.p); else roaring64_bitmap_portable_serialize(p, full.p); memcpy(im.p, full.p, cut);
    roaring64_iterator_t *src = nullptr, *it = nullptr; std::unique_ptr<Roaring64Map> a, t;
    auto realloc_site = [](const char *n) { return [n](u64 kk) -> const char * { return (kk >> 32) == 3 ? n : nullptr; }; };
    if (how == 1) o.site = realloc_site("roaring64-copy-tree"); if (how == 2) o.site = realloc_site("roaring64-deserialize-tree");
    o.prep = [&] { res = nullptr; it = nullptr; if (how == 5) { src = roaring64_iterator_create(p); for (u64 i = 0; i < steps && roaring64_iterator_has_value(src); i++) roaring64_iterator_advance(src); } if (how == 6) a.reset(new Roaring64Map(Roaring64Map::readSafe(im.p, im.n))); };
    o.call = [&]() -> bool {
        switch (how) {
            case 0: res = roaring64_bitmap_create(); return res; case 1: res = roaring64_bitmap_copy(p); return res; case 2: res = roaring64_bitmap_portable_deserialize_safe(im.p, im.n); return res;
            case 3: case 8: res = roaring64_bitmap_frozen_view(im.p, im.n); return res; case 4: it = steps & 1 ? roaring64_iterator_create(p) : roaring64_iterator_create_last(p); return it; case 5: it = roaring64_iterator_copy(src); return it;
            case 6: try { t.reset(new Roaring64Map(*a)); return true; } catch (std::runtime_error &) { return false; }
            default: try { t.reset(new Roaring64Map(Roaring64Map::readSafe(im.p, im.n))); return true; } catch (std::runtime_error &) { return false; }
        }
    };
    auto mapgood = [&](const Roaring64Map &x, const char *what) { vector<char> b(x.getSizeInBytes()); x.write(b.data()); IS g; size_t used; string e = spec_decode64((const unsigned char *)b.data(), b.size(), g, &used); if (!e.empty() || g != m) fail(W("%s: %s"), what, e.c_str()); };
    o.post = [&](bool ok) {
        good64(p, m, "the input");
        if (ok && res && how != 8) { IS want = how == 0 ? IS() : m; good64(res, want, "the new bitmap"); if (how < 3) { Rng q(qs); for (int i = 0; i < 3; i++) { u64 x = q.coin() && !want.empty() ? q.of(want.v).first : q.next(); if (q.coin()) { roaring64_bitmap_add(res, x); want.add(x); } else { roaring64_bitmap_remove(res, x); want.remove(x); } } good64(res, want, "the new bitmap, updated,"); } }
        if (res) roaring64_bitmap_free(res);
        if (how == 4 && ok) { u64 v; bool has = m.select(steps & 1 ? 0 : m.card() - 1, &v); if (roaring64_iterator_has_value(it) != has || (has && roaring64_iterator_value(it) != v)) fail(W("the new iterator is misplaced")); }
        if (how == 5) for (roaring64_iterator_t *x : {src, it}) if (x) { u64 v; bool has = m.select(steps, &v); if (roaring64_iterator_has_value(x) != has || (has && roaring64_iterator_value(x) != v)) fail(W("an iterator is misplaced")); }
        if (it) roaring64_iterator_free(it); if (src) { roaring64_iterator_free(src); src = nullptr; }
        if (a) mapgood(*a, "the map copied from"); if (t) mapgood(*t, "the new map"); a.reset(); t.reset();
    };
    explore(r, o);
    roaring64_bitmap_free(p);
}
void run_case(Rng &r, u64 c) {
    HookStats h0 = hooks_stats();
    u64 k = r.below(10);
    if (k < 6) {
        World w = gen_world32(r); w.wide = false; w.cow = false;
        Eng32 e(r, w); e.judge = 0; e.opname = "build";
        for (int i = 0; i < 3; i++) ops32(r, w, e);
    } else if (k < 8) for (int i = 0; i < 8; i++) opsb(r);
    else for (int i = 0; i < 2; i++) ops64(r);
    if (c < 6) sample("case %llu: last operation %s with %llu allocation requests", (ull)c, NAME.c_str(), (ull)TOTAL);
    count_check();
    if (hooks_stats().live_blocks != h0.live_blocks) { hooks_dump_live(); fail("memory: blocks remain allocated after the case"); }
}
