// S26: bit helpers and stored types.
#ifndef VERIF_UTIL_HPP
#define VERIF_UTIL_HPP
#include "prim.hpp"
#include <boost/safe_numerics/utility.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
namespace su = sn::utility;

inline int bitlen(u128 v) { int n = 0; while (v) { ++n; v >>= 1; } return n; }
inline i128 m_ilog2(i128 v) { return v <= 0 ? 0 : bitlen(v) - 1; }
inline i128 m_sig(i128 v) { int n = bitlen(v < 0 ? ~v : v); return n ? n : 1; }
// all ones from the highest significant bit downwards (of the complement for a negative value)
inline i128 m_round(i128 v, i128 mn, i128 mx) {
    i128 ones = ((i128)1 << (int)m_sig(v)) - 1;
    return v >= 0 ? (ones > mx ? mx : ones) : (~ones < mn ? mn : ~ones); }
struct URow { const char *what; i128 (*fn)(i128); i128 (*model)(i128, i128, i128); bool neg; };
template <class T> struct UtilRun {
    const char *tn; Rng &r; Stats &st; uint64_t n, ex;
    i128 mn = tmin<T>(), mx = tmax<T>();
    static i128 f_ilog2(i128 v) { return su::ilog2((T)v); }
    static i128 f_sig(i128 v) { return su::significant_bits((T)v); }
    static i128 f_round(i128 v) { return su::round_out((T)v); }
    static i128 w_ilog2(i128 v, i128, i128) { return m_ilog2(v); }
    static i128 w_sig(i128 v, i128, i128) { return m_sig(v); }
    void one(const URow &u) {
        i128 lo = u.neg ? mn : 0; u128 w = (u128)(mx - lo) + 1; bool exh = w <= ex; uint64_t total = exh ? (uint64_t)w : n, hb = hmix(hstr(tn), hstr(u.what));
        for (uint64_t i = 0; i < total; ++i) {
            i128 v = exh ? lo + (i128)i : gen_value(r, lo, mx);
            Out o; guard_body(o, [&] { o.v = u.fn(v); });
            if (v < -1 || v > 1) { if (exh) st.nontrivial_unique(); else st.nontrivial(h128(hb, v)); }
            if (st.want_sample()) st.sample(std::string(u.what) + "((" + tn + ")" + str(v) + ") -> " + str(o.v));
            if (o.kind == K_VALUE && o.v == u.model(v, mn, mx)) continue;
            std::string key = std::string(u.what) + "|" + tn;
            if (!st.want(key)) continue;
            auto pred = [&]() { Out p; guard_body(p, [&] { p.v = u.fn(v); }); return !(p.kind == K_VALUE && p.v == u.model(v, mn, mx)); };
            if (!(pred() && pred() && pred())) continue;
            shrink1(v, lo, mx, pred); guard_body(o, [&] { o.v = u.fn(v); });
            st.fail(key, std::string(u.what) + "((" + tn + ")" + str(v) + ") -> " + show(o) + ", expected " + str(u.model(v, mn, mx)));
        }
        st.evals += total; st.cls(u.what, total); st.cls(exh ? "exhaustive" : "sampled", total); st.end_block();
    }
    void run() {
        URow rows[] = {{"ilog2", &f_ilog2, &w_ilog2, false}, {"significant_bits", &f_sig, &w_sig, true}, {"round_out", &f_round, &m_round, true}};
        for (auto &u : rows) one(u);
        // smallest and greatest of a list
        uint64_t hb = hstr("minmax"), cnt = n / 4;
        for (uint64_t i = 0; i < cnt; ++i) {
            i128 v[13]; int k = 1 + (int)(r.chance(1, 2) ? r.below(5) : r.below(13));
            for (int j = 0; j < 13; ++j) { v[j] = gen_value(r, mn, mx); if (j && r.chance(1, 3)) v[j] = v[r.below(j)]; }
            auto mm = [&]() -> std::pair<i128, i128> {
                std::pair<T, T> p; T x[13]; for (int j = 0; j < 13; ++j) x[j] = (T)v[j];
                switch (k) {
                    case 1: p = su::minmax<T>({x[0]}); break;
                    case 2: p = su::minmax<T>({x[0], x[1]}); break;
                    case 3: p = su::minmax<T>({x[0], x[1], x[2]}); break;
                    case 4: p = su::minmax<T>({x[0], x[1], x[2], x[3]}); break;
                    case 5: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4]}); break;
                    case 6: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5]}); break;
                    case 7: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6]}); break;
                    case 8: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]}); break;
                    case 9: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]}); break;
                    case 10: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]}); break;
                    case 11: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10]}); break;
                    case 12: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]}); break;
                    case 13: p = su::minmax<T>({x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12]}); break;
                }
                return {p.first, p.second}; };
            auto bad = [&]() { auto p = mm(); return p.first != *std::min_element(v, v + k) || p.second != *std::max_element(v, v + k) || su::max((T)v[0], (T)v[1]) != (T)std::max(v[0], v[1]); };
            uint64_t h = hb; for (int j = 0; j < k; ++j) h = h128(h, v[j]); if (k > 1) st.nontrivial(h);
            if (!bad()) continue;
            for (int j = 0; j < k; ++j) shrink1(v[j], mn, mx, bad);
            auto p = mm(); std::string s = "minmax<" + std::string(tn) + ">("; for (int j = 0; j < k; ++j) s += (j ? "," : "") + str(v[j]);
            st.fail(std::string("minmax|") + tn, s + ") -> " + str(p.first) + "," + str(p.second));
        }
        st.evals += cnt; st.cls("minmax", cnt); st.end_block();
    }
};
// stored types
struct StRow { i128 a, b; bool want_signed; int bytes; bool is_signed; };
template <long long A, long long B> constexpr StRow st_s() { typedef su::signed_stored_type<A, B> T; return {A, B, true, (int)sizeof(T), std::is_signed<T>::value}; }
template <unsigned long long A, unsigned long long B> constexpr StRow st_u() { typedef su::unsigned_stored_type<A, B> T; return {(i128)A, (i128)B, false, (int)sizeof(T), std::is_signed<T>::value}; }
template <long long A, long long B> constexpr StRow st_sr() { typedef base_t<sn::safe_signed_range<A, B>> T; return {A, B, true, (int)sizeof(T), std::is_signed<T>::value}; }
template <unsigned long long A, unsigned long long B> constexpr StRow st_ur() { typedef base_t<sn::safe_unsigned_range<A, B>> T; return {(i128)A, (i128)B, false, (int)sizeof(T), std::is_signed<T>::value}; }
inline void run_st(const StRow &s, Stats &st) {
    int need = 8; for (; need < 64; need *= 2) {
        i128 lo = s.want_signed ? -((i128)1 << (need - 1)) : 0, hi = ((i128)1 << (need - (s.want_signed ? 1 : 0))) - 1;
        if (s.a >= lo && s.b <= hi) break; }
    ++st.evals; st.nontrivial_unique(); st.cls("stored types");
    if (s.bytes * 8 == need && s.is_signed == s.want_signed) return;
    std::string d = std::string(s.want_signed ? "signed" : "unsigned") + " range [" + str(s.a) + "," + str(s.b) + "]: stored in " + std::to_string(s.bytes * 8) + (s.is_signed ? " signed" : " unsigned") + " bits, expected " + std::to_string(need);
    st.fail("stored|" + std::to_string(s.want_signed) + std::to_string(need), d);
}
#endif
