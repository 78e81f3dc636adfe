#include "model.hpp"
#include <algorithm>
#include <cstdio>

u128 IS::card() const { u128 c = 0; for (auto &p : v) c += (u128)(p.second - p.first) + 1; return c; }
size_t IS::find(u64 x) const {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].second < x) lo = m + 1; else hi = m; }
    return lo;
}
bool IS::contains(u64 x) const { size_t i = find(x); return i < v.size() && v[i].first <= x; }
void IS::add(u64 lo, u64 hi) {
    if (lo > hi) return;
    pre_ok = false;
    // first interval that touches or overlaps
    size_t i = find(lo == 0 ? 0 : lo - 1), j = i;
    u64 nl = lo, nh = hi;
    while (j < v.size() && (hi == UINT64_MAX || v[j].first <= hi + 1)) {
        nl = std::min(nl, v[j].first); nh = std::max(nh, v[j].second); j++;
    }
    if (i == j) v.insert(v.begin() + i, Iv(nl, nh));
    else { v[i] = Iv(nl, nh); v.erase(v.begin() + i + 1, v.begin() + j); }
}
void IS::remove(u64 lo, u64 hi) {
    if (lo > hi) return;
    pre_ok = false;
    size_t i = find(lo), j = i;
    Iv keep[2]; int nk = 0;
    while (j < v.size() && v[j].first <= hi) {
        if (v[j].first < lo) keep[nk++] = Iv(v[j].first, lo - 1);
        if (v[j].second > hi) keep[nk++] = Iv(hi + 1, v[j].second);
        j++;
    }
    if (i == j) return;
    if (nk == 2 && j - i == 1) { v[i] = keep[0]; v.insert(v.begin() + i + 1, keep[1]); return; }
    for (int k = 0; k < nk; k++) v[i + k] = keep[k];
    v.erase(v.begin() + i + nk, v.begin() + j);
}
void IS::flip(u64 lo, u64 hi) { if (lo > hi) return; IS r; r.v.push_back(Iv(lo, hi)); *this = op(*this, r, 6); }
bool IS::append(u64 lo, u64 hi) {
    pre_ok = false;
    if (lo > hi) return false;
    if (!v.empty()) {
        if (lo <= v.back().second) return false;
        if (lo == v.back().second + 1) { v.back().second = hi; return true; }
    }
    v.push_back(Iv(lo, hi));
    return true;
}
void IS::mkpre() const {
    if (pre_ok) return;
    pre.resize(v.size() + 1);
    pre[0] = 0;
    for (size_t i = 0; i < v.size(); i++) pre[i + 1] = pre[i] + (u128)(v[i].second - v[i].first) + 1;
    pre_ok = true;
}
u128 IS::rank(u64 x) const {
    mkpre();
    size_t i = find(x);
    u128 r = pre[i];
    if (i < v.size() && v[i].first <= x) r += (u128)(x - v[i].first) + 1;
    return r;
}
bool IS::select(u128 k, u64 *out) const {
    mkpre();
    if (k >= pre[v.size()]) return false;
    size_t i = std::upper_bound(pre.begin(), pre.end(), k) - pre.begin() - 1;
    *out = v[i].first + (u64)(k - pre[i]);
    return true;
}
bool IS::next_ge(u64 x, u64 *out) const {
    size_t i = find(x);
    if (i == v.size()) return false;
    *out = std::max(x, v[i].first);
    return true;
}
bool IS::prev_le(u64 x, u64 *out) const {
    size_t i = find(x);
    if (i < v.size() && v[i].first <= x) { *out = x; return true; }
    if (i == 0) return false;
    *out = v[i - 1].second;
    return true;
}
u128 IS::count(u64 lo, u64 hi) const {
    if (lo > hi) return 0;
    return rank(hi) - (lo ? rank(lo - 1) : 0);
}
IS IS::restrict_to(u64 lo, u64 hi) const {
    IS r;
    if (lo > hi) return r;
    for (size_t i = find(lo); i < v.size() && v[i].first <= hi; i++)
        r.v.push_back(Iv(std::max(lo, v[i].first), std::min(hi, v[i].second)));
    return r;
}
IS IS::shift(i128 off, u64 lo, u64 hi) const {
    IS r;
    for (auto &p : v) {
        i128 a = (i128)p.first + off, b = (i128)p.second + off;
        if (b < (i128)lo || a > (i128)hi) continue;
        r.v.push_back(Iv((u64)std::max(a, (i128)lo), (u64)std::min(b, (i128)hi)));
    }
    return r;
}
bool IS::subset_of(const IS &o) const {
    size_t j = 0;
    for (auto &p : v) {
        while (j < o.v.size() && o.v[j].second < p.first) j++;
        if (j == o.v.size() || o.v[j].first > p.first || o.v[j].second < p.second) return false;
    }
    return true;
}
bool IS::intersects(const IS &o) const {
    size_t i = 0, j = 0;
    while (i < v.size() && j < o.v.size()) {
        if (v[i].second < o.v[j].first) i++;
        else if (o.v[j].second < v[i].first) j++;
        else return true;
    }
    return false;
}
void IS::values_from(u128 k, size_t n, std::vector<u64> &out) const {
    out.clear();
    mkpre();
    if (k >= pre[v.size()]) return;
    size_t i = std::upper_bound(pre.begin(), pre.end(), k) - pre.begin() - 1;
    u64 x = v[i].first + (u64)(k - pre[i]);
    while (out.size() < n) {
        out.push_back(x);
        if (x == v[i].second) { if (++i == v.size()) break; x = v[i].first; } else x++;
    }
}
u64 IS::hash() const {
    u64 h = 0x9E3779B97F4A7C15ull ^ v.size();
    for (auto &p : v) {
        h = (h ^ p.first) * 0xff51afd7ed558ccdull; h ^= h >> 32;
        h = (h ^ p.second) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    }
    return h;
}
std::string IS::str(size_t maxiv) const {
    std::string s = "{";
    char b[64];
    for (size_t i = 0; i < v.size(); i++) {
        if (i == maxiv) { snprintf(b, sizeof b, " ... %zu intervals", v.size()); s += b; break; }
        if (v[i].first == v[i].second) snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long)v[i].first);
        else snprintf(b, sizeof b, "%s%llu-%llu", i ? "," : "", (unsigned long long)v[i].first, (unsigned long long)v[i].second);
        s += b;
    }
    return s + "}";
}
IS IS::op(const IS &a, const IS &b, int tt) {
    IS r;
    size_t i = 0, j = 0;
    bool ina = false, inb = false;
    u128 pos = 0;
    const u128 END = (u128)1 << 64;
    while (true) {
        u128 na = i < a.v.size() ? (ina ? (u128)a.v[i].second + 1 : (u128)a.v[i].first) : END + 1;
        u128 nb = j < b.v.size() ? (inb ? (u128)b.v[j].second + 1 : (u128)b.v[j].first) : END + 1;
        u128 nx = std::min(na, nb);
        int idx = ina ? (inb ? 1 : 2) : (inb ? 4 : 0);
        u128 stop = std::min(nx, END);
        if ((idx & tt) && stop > pos) r.append((u64)pos, (u64)(stop - 1));
        if (nx > END) break;
        if (na == nx) { if (ina) { ina = false; i++; } else ina = true; }
        if (nb == nx) { if (inb) { inb = false; j++; } else inb = true; }
        pos = nx;
        if (i >= a.v.size() && j >= b.v.size()) break;
    }
    return r;
}
IS IS::normalize(std::vector<Iv> raw) {
    std::sort(raw.begin(), raw.end());
    IS r;
    for (auto &p : raw) {
        if (p.first > p.second) continue;
        if (!r.v.empty() && (r.v.back().second == UINT64_MAX || p.first <= r.v.back().second + 1))
            r.v.back().second = std::max(r.v.back().second, p.second);
        else r.v.push_back(p);
    }
    return r;
}
IS IS::from_values(std::vector<u64> vals) {
    std::vector<Iv> raw;
    raw.reserve(vals.size());
    for (u64 x : vals) raw.push_back(Iv(x, x));
    return normalize(raw);
}
std::string diff_str(const IS &expect, const IS &got) {
    IS miss = expect - got, extra = got - expect;
    return "missing=" + miss.str(6) + " extra=" + extra.str(6);
}
