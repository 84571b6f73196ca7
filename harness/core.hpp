// Common engine: exact integer model, value generators, recording, shrinking.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <system_error>
#include <type_traits>
#include <unordered_set>
#include <vector>

typedef __int128 i128;
typedef unsigned __int128 u128;

inline std::string str(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? -(u128)v : (u128)v;
    std::string s;
    while (u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    return neg ? "-" + s : s;
}
inline i128 parse128(const char *p) {
    bool neg = *p == '-'; if (neg) ++p;
    u128 u = 0; for (; *p >= '0' && *p <= '9'; ++p) u = u * 10 + (*p - '0');
    return neg ? (i128)(-u) : (i128)u;
}
inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    i128 range(i128 lo, i128 hi) {
        if (lo >= hi) return lo;
        u128 w = (u128)hi - (u128)lo + 1;
        u128 r = ((u128)next() << 64) | next();
        return (i128)((u128)lo + (w ? r % w : r));
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
inline uint64_t h128(uint64_t h, i128 v) { return hmix(hmix(h, (uint64_t)v), (uint64_t)((u128)v >> 64)); }
inline uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }

// values of [mn,mx], biased to boundaries
inline i128 clampv(i128 v, i128 mn, i128 mx) { return v < mn ? mn : v > mx ? mx : v; }
inline i128 gen_value(Rng &r, i128 mn, i128 mx) {
    i128 v;
    switch (r.below(10)) {
    case 0: v = mn + (i128)r.below(4); break;
    case 1: v = mx - (i128)r.below(4); break;
    case 2: v = (i128)r.below(5) - 2; break;
    case 3: case 4: { // near a power of two
        int k = (int)r.below(65);
        v = ((i128)1 << k) + (i128)r.below(5) - 2; if (r.chance(1, 2)) v = -v; break; }
    case 5: { // random magnitude
        int k = 1 + (int)r.below(64);
        v = (i128)(r.next() >> (64 - k)); if (r.chance(1, 2)) v = -v; break; }
    case 6: v = (i128)r.below(41) - 20; break;
#ifdef VERIF_DICT
    case 7: { // near a constant which the library's headers mention
        static const uint64_t k[] = {VERIF_DICT};
        v = (i128)k[r.below(sizeof k / sizeof *k)]; if (r.chance(1, 4)) v += (i128)r.below(3) - 1; if (r.chance(1, 4)) v = -v; break; }
#endif
    default: v = r.range(mn, mx);
    }
    if (v < mn || v > mx) v = r.range(mn, mx);
    return v;
}

struct TD { // operand type
    const char *name; // C++ spelling
    i128 mn, mx;      // declared range
    i128 bmn, bmx;    // range of the stored type
    bool safe, sgn;
};
struct Out {
    int kind;  // 0 value, 1 library error, 2 other exception
    int code;  // error code
    i128 v;    // value
    i128 lo, hi;    // advertised range of the result type
    int extra;
};
enum { K_VALUE = 0, K_ERROR = 1, K_OTHER = 2 };

// ---- failures / statistics -------------------------------------------------
struct Fail { std::string key, desc; };
struct Stats {
    uint64_t evals = 0, excluded = 0;
    std::map<std::string, uint64_t> classes;
    std::vector<std::string> samples;
    std::vector<Fail> fails;
    std::map<std::string, uint64_t> known; // known-finding id -> hits
    std::map<std::string, std::string> known_ex;
    std::set<std::string> failkeys;
    std::map<std::string, std::string> out; // facts for the driver
    size_t max_fails = 40, max_samples = 6;
    // distinct non-trivial cases: hashes are collected per case and deduplicated in blocks
    uint64_t ndistinct = 0;
    std::vector<uint64_t> block;
    void nontrivial(uint64_t h) { block.push_back(h); }
    void nontrivial_unique() { ++ndistinct; }
    void end_block() {
        std::sort(block.begin(), block.end());
        ndistinct += std::unique(block.begin(), block.end()) - block.begin();
        block.clear();
    }
    void cls(const char *c, uint64_t n = 1) { if (n) classes[c] += n; }
    // reservoir over everything offered
    uint64_t offered = 0; Rng srng{77};
    bool want_sample() { return srng.below(4096) == 0; }
    void sample(const std::string &s) {
        ++offered;
        if (samples.size() < max_samples) { samples.push_back(s); return; }
        uint64_t k = srng.below(offered); if (k < max_samples) samples[k] = s;
    }
    // one report per key
    bool want(const std::string &key) { return failkeys.size() < max_fails && !failkeys.count(key); }
    void fail(const std::string &key, const std::string &desc) {
        if (!want(key)) return;
        failkeys.insert(key); fails.push_back({key, desc});
    }
    void report() {
        end_block();
        printf("{\"evals\":%llu,\"distinct\":%llu,\"excluded\":%llu,\"classes\":{",
               (unsigned long long)evals, (unsigned long long)ndistinct, (unsigned long long)excluded);
        bool f = true;
        for (auto &c : classes) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); f = false; }
        printf("},\"known\":{"); f = true;
        for (auto &c : known) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); f = false; }
        printf("},\"known_ex\":{"); f = true;
        for (auto &c : known_ex) { printf("%s\"%s\":\"%s\"", f ? "" : ",", jesc(c.first).c_str(), jesc(c.second).c_str()); f = false; }
        printf("},\"out\":{"); f = true;
        for (auto &c : out) { printf("%s\"%s\":\"%s\"", f ? "" : ",", jesc(c.first).c_str(), jesc(c.second).c_str()); f = false; }
        printf("},\"samples\":["); f = true;
        for (auto &s : samples) { printf("%s\"%s\"", f ? "" : ",", jesc(s).c_str()); f = false; }
        printf("],\"fails\":["); f = true;
        for (auto &s : fails) { printf("%s{\"key\":\"%s\",\"desc\":\"%s\"}", f ? "" : ",", jesc(s.key).c_str(), jesc(s.desc).c_str()); f = false; }
        printf("]}\n"); fflush(stdout);
    }
};

// shrink a pair of integers while pred (still fails) holds
inline bool simpler(i128 a, i128 b) { // a simpler than b
    u128 x = a < 0 ? -(u128)a : a, y = b < 0 ? -(u128)b : b;
    return x < y || (x == y && a > b);
}
template <class P> void shrink1(i128 &v, i128 mn, i128 mx, P pred) {
    for (int round = 0; round < 200; ++round) {
        i128 cand[16]; int n = 0;
        cand[n++] = 0; cand[n++] = 1; cand[n++] = -1; cand[n++] = 2; cand[n++] = mn; cand[n++] = mx;
        if (v < 0) cand[n++] = -v;
        cand[n++] = v / 2; cand[n++] = v / 10; cand[n++] = v - v / 4; cand[n++] = v > 0 ? v - 1 : v + 1;
        bool ok = false;
        for (int i = 0; i < n && !ok; ++i) {
            i128 c = cand[i];
            if (c < mn || c > mx || !simpler(c, v)) continue;
            i128 old = v; v = c;
            if (pred()) ok = true; else v = old;
        }
        if (!ok) return;
    }
}

#endif
