// S29: casts of floating point values to integers
#ifndef VERIF_FCAST_HPP
#define VERIF_FCAST_HPP
#include "prim.hpp"
#include <cmath>
#include <cstring>
#include <boost/safe_numerics/safe_integer.hpp>

typedef void (*FFn)(long double, Out &);
struct FCast { const char *what, *rt, *ft; i128 rmn, rmx; bool rsgn; FFn fn; long double (*round)(long double); };
template <class R, class F> void fcf(long double x, Out &o) { put(sn::checked::cast<R>((F)x), o); o.kind = K_VALUE; }
template <class R, R Min, R Max, class F> void fcr(long double x, Out &o) { put(sn::heterogeneous_checked_operation<R, Min, Max, F>::cast((F)x), o); o.kind = K_VALUE; }
// forms of safe<R> made from a floating point value: 0 construct, 1 assign, 2 cast; the thrown code is what counts
template <class R, class F, int W> void fcs(long double x, Out &o) {
    F f = (F)x; o.extra = 0; o.kind = K_VALUE;
    try {
        if (W == 0) { sn::safe<R> s(f); o.v = (i128)static_cast<R>(s); }
        else if (W == 1) { sn::safe<R> s(R(7)); try { s = f; } catch (const std::system_error &) { if ((i128)static_cast<R>(s) != 7) { o.kind = K_OTHER; return; } throw; } o.v = (i128)static_cast<R>(s); }
        else { o.v = (i128)static_cast<R>(static_cast<sn::safe<R>>(f)); }
    } catch (const std::system_error &e) { o.extra = 1; o.code = e.code().value(); o.v = 0; }
}
template <class F> long double fround(long double x) { volatile F f = (F)x; return f; }

inline std::string fcheck(const FCast &p, long double x, const Out &o) {
    unsigned codes; bool val = false; i128 m = 0;
    if (x != x) codes = C_DOM;
    else if (x >= 1e25L) codes = C_POS;
    else if (x <= -1e25L) codes = C_NEG | (p.rsgn ? 0 : C_DOM);
    else {
        m = (i128)x; // truncates toward zero, exactly
        val = fits(m, p.rmn, p.rmx);
        codes = m > p.rmx ? C_POS : C_NEG | (p.rsgn ? 0 : C_DOM);
    }
    if (o.kind != K_VALUE) return "exception";
    if (!o.extra) return !val ? "value where an error is required" : o.v != m ? "wrong value" : "";
    if (val) return "spurious error";
    if (!(codes & (1u << o.code))) return std::string("wrong error ") + err_name(o.code);
    return "";
}
inline void run_fcast(const FCast &p, Rng &r, uint64_t n, Stats &st) {
    uint64_t hb = hmix(hstr(p.rt), hmix(hstr(p.ft), hstr(p.what))), nv = 0, ne = 0;
    static const long double FR[] = {0, 0.5L, 0.25L, 0.75L, 0.999L, 0.001L, 0.9999999999L, 0};
    for (uint64_t i = 0; i < n; ++i) {
        long double x;
        switch (r.below(8)) {
        case 0: { static const long double S[] = {0.0L, -0.0L, INFINITY, -INFINITY, NAN, -NAN, 1e-40L, -1e-40L, 3.4e38L, -3.4e38L, 1.7e308L, -1.7e308L}; x = S[r.below(12)]; break; }
        case 1: { int e = (int)r.below(80) - 3; x = std::ldexp((long double)((int64_t)(r.next() >> 1)), e - 63); if (r.chance(1, 2)) x = -x; break; } // any magnitude
        case 2: x = (long double)gen_value(r, p.rmn, p.rmx) + FR[r.below(8)] * (r.chance(1, 2) ? 1 : -1); break;
        case 3: { // a power of two
            x = std::ldexp(1.0L, (int)r.below(70)) + (int)r.below(3) - 1; if (r.chance(1, 2)) x = -x; break; }
        default: x = (long double)(r.chance(1, 2) ? p.rmx : p.rmn) + ((int)r.below(5) - 2) + FR[r.below(8)] * (r.chance(1, 2) ? 1 : -1);
        }
        x = p.round(x);
        if (i % 4 == 3 && x == x) x = p.round(std::nextafter(x, r.chance(1, 2) ? INFINITY : -INFINITY)); 
        Out o; p.fn(x, o);
        ++(!o.extra ? nv : ne);
        if (!(x == 0 || x == 1)) { uint64_t h; double d = (double)x; memcpy(&h, &d, 8); st.nontrivial(hmix(hb, h)); }
        char b[80]; snprintf(b, sizeof b, "%.21Lg", x);
        std::string d = std::string(p.what) + "<" + p.rt + ">((" + p.ft + ")" + b + ")";
        if (st.want_sample()) st.sample(d + " -> " + pshow(o));
        std::string cl = fcheck(p, x, o);
        if (cl.empty()) continue;
        std::string key = std::string(p.what) + "|" + p.rt + "|" + p.ft + "|" + cl;
        if (!st.want(key)) continue;
        long double c[] = {std::trunc(x), std::floor(x), std::ceil(x), x / 2, 0}; // simplest failing neighbour
        for (int k = 0; k < 3; ++k) { long double y = p.round(c[k]); Out q; p.fn(y, q); if (y != x && fcheck(p, y, q) == cl) { x = y; o = q; break; } }
        snprintf(b, sizeof b, "%.21Lg", x);
        st.fail(key, std::string(p.what) + "<" + p.rt + ">((" + p.ft + ")" + b + ") -> " + pshow(o) + " [" + cl + "]; limits [" + str(p.rmn) + "," + str(p.rmx) + "]");
    }
    st.evals += n; st.cls("floating cast", n); st.cls("value", nv); st.cls("error", ne); st.end_block();
}
template <class R, class F> void add_fcast(std::vector<FCast> &v, const char *rt, const char *ft) {
    v.push_back(FCast{"checked::cast", rt, ft, tmin<R>(), tmax<R>(), std::is_signed<R>::value, &fcf<R, F>, &fround<F>});
}
template <class R, R Min, R Max, class F> void add_fcastr(std::vector<FCast> &v, const char *rt, const char *ft) {
    v.push_back(FCast{"ranged checked cast", rt, ft, (i128)Min, (i128)Max, std::is_signed<R>::value, &fcr<R, Min, Max, F>, &fround<F>});
}
template <class R, class F> void add_fsafe(std::vector<FCast> &v, const char *rt, const char *ft) {
    v.push_back(FCast{"safe construction", rt, ft, tmin<R>(), tmax<R>(), std::is_signed<R>::value, &fcs<R, F, 0>, &fround<F>});
    v.push_back(FCast{"safe assignment", rt, ft, tmin<R>(), tmax<R>(), std::is_signed<R>::value, &fcs<R, F, 1>, &fround<F>});
    v.push_back(FCast{"cast to safe", rt, ft, tmin<R>(), tmax<R>(), std::is_signed<R>::value, &fcs<R, F, 2>, &fround<F>});
}
#endif
