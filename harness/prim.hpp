// S12: checked primitives on built-in integers. S17: mixed-type comparison functions.
#ifndef VERIF_PRIM_HPP
#define VERIF_PRIM_HPP
#include "ops.hpp"
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/safe_compare.hpp>

typedef void (*PFn)(i128, i128, Out &);
struct Prim {
    const char *what, *rt, *tt;
    int op;                 // enum Op, or 100 = cast
    i128 tmn, tmx, umn, umx; // operand ranges
    i128 rmn, rmx;          // limits the result is checked against
    bool rsgn;
    PFn fn;
};
template <class R> inline void put(const sn::checked_result<R> &r, Out &o) {
    if (r.exception()) { o.extra = 1; o.code = (int)static_cast<sn::safe_numerics_error>(r); o.v = 0; }
    else { o.extra = 0; o.v = (i128)static_cast<R>(r); }
}
template <int O, class R> struct PF;
#define VP(O, N) template <class R> struct PF<O, R> { static void f(i128 a, i128 b, Out &o) { put(sn::checked::N<R>((R)a, (R)b), o); } };
#define VP1(O, N) template <class R> struct PF<O, R> { static void f(i128 a, i128, Out &o) { put(sn::checked::N<R>((R)a), o); } };
VP(ADD, add) VP(SUB, subtract) VP(MUL, multiply) VP(DIV, divide) VP(MOD, modulus) VP(SHL, left_shift) VP(SHR, right_shift)
VP(OR, bitwise_or) VP(AND, bitwise_and) VP(XOR, bitwise_xor) VP1(NEG, minus) VP1(CPL, bitwise_not)
#undef VP
#undef VP1
template <class R, R Min, R Max, class T> void castf(i128 a, i128, Out &o) {
    put(sn::heterogeneous_checked_operation<R, Min, Max, T>::cast((T)a), o);
}
template <class R, class T> void castfree(i128 a, i128, Out &o) { put(sn::checked::cast<R>((T)a), o); }

template <class T> i128 tmin() { return (i128)std::numeric_limits<T>::min(); }
template <class T> i128 tmax() { return (i128)std::numeric_limits<T>::max(); }

// expected: value m, or an error code out of a set
struct PWant { bool val; i128 m; bool err; unsigned codes; }; // codes: bit set of allowed codes
enum { C_POS = 1u << 1, C_NEG = 1u << 2, C_DOM = 1u << 3, C_ANYERR = 0x7feu };
inline unsigned cbit(sn::safe_numerics_error e) { return 1u << (int)e; }
inline PWant pmodel(const Prim &p, i128 a, i128 b) {
    typedef sn::safe_numerics_error E;
    PWant w = {false, 0, false, 0};
    if (p.op == 100) {
        w.m = a; w.val = fits(a, p.rmn, p.rmx); w.err = !w.val;
        if (a > p.rmx) w.codes = cbit(E::positive_overflow_error);
        else if (a < 0 && !p.rsgn) w.codes = cbit(E::domain_error) | cbit(E::negative_overflow_error);
        else if (!p.rsgn && p.tmn < 0) w.codes = cbit(E::domain_error) | cbit(E::negative_overflow_error); // signed source below an unsigned minimum
        else w.codes = cbit(E::negative_overflow_error);
        return w;
    }
    if (is_bit(p.op)) { w.val = true; w.m = bits_exact(p.op, a, b, p.rmn, p.rmx); return w; }
    Exact e = exact(p.op, a, b);
    w.m = e.m;
    w.val = e.def && fits(e.m, p.rmn, p.rmx);
    w.err = !w.val;
    if (is_shift(p.op)) {
        // a negative value or a negative or too large count may always be refused; zero may not be shifted too far
        int bits = 0; for (i128 s = p.rmx - p.rmn; s > 0; s >>= 1) ++bits;
        if (b >= bits || b < 0 || a < 0 || (p.op == SHL && a == 0)) w.err = true;
        if (b < 0 || b >= bits) w.val = w.val && e.def; // still only the exact value
        w.codes = C_ANYERR;
        return w;
    }
    if (!e.def) w.codes = cbit(E::domain_error);
    else if (e.m > p.rmx) w.codes = cbit(E::positive_overflow_error);
    else w.codes = cbit(E::negative_overflow_error);
    return w;
}
inline std::string pcheck(const Prim &p, i128 a, i128 b, const Out &o) {
    PWant w = pmodel(p, a, b);
    if (o.kind != K_VALUE) return o.code <= -100 ? "crash" : "exception";
    if (!o.extra) return !w.val ? "value where an error is required" : o.v != w.m ? "wrong value" : "";
    if (!w.err) return "spurious error";
    if (!(w.codes & (1u << o.code))) return std::string("wrong error ") + err_name(o.code);
    return "";
}
inline std::string pdesc(const Prim &p, i128 a, i128 b) {
    std::string s = std::string(p.what) + "<" + p.rt + ">(" + (p.op == 100 ? std::string("(") + p.tt + ")" : "") + str(a);
    if (p.op != 100 && !is_unary(p.op)) s += ", " + str(b);
    return s + ")";
}
inline std::string pshow(const Out &o) { return o.kind != K_VALUE ? show(o) : o.extra ? std::string("error ") + err_name(o.code) : "value " + str(o.v); }
inline void run_prim(const Prim &p, Rng &r, uint64_t n, uint64_t ex, Stats &st) {
    bool un = p.op == 100 || is_unary(p.op);
    u128 ct = (u128)(p.tmx - p.tmn) + 1, cu = un ? 1 : (u128)(p.umx - p.umn) + 1;
    bool exh = ct <= 70000 && cu <= 70000 && ct * cu <= ex;
    uint64_t total = exh ? (uint64_t)(ct * cu) : n, nv = 0, ne = 0;
    uint64_t hb = hmix(hstr(p.rt), hmix(hstr(p.tt), hstr(p.what)));
    for (uint64_t i = 0; i < total; ++i) {
        i128 a, b = 0;
        if (exh) { a = p.tmn + (i128)(i / (uint64_t)cu); if (!un) b = p.umn + (i128)(i % (uint64_t)cu); }
        else {
            a = gen_value(r, p.tmn, p.tmx);
            if (p.op == 100 && r.chance(1, 2)) { i128 c = (r.chance(1, 2) ? p.rmx : p.rmn) + (i128)r.below(5) - 2; if (fits(c, p.tmn, p.tmx)) a = c; }
            if (!un) {
                b = gen_value(r, p.umn, p.umx);
                if (r.chance(1, 2)) {
                    i128 lim = r.chance(1, 2) ? p.rmx : p.rmn, d = (i128)r.below(5) - 2, nb = b;
                    switch (p.op) { case ADD: nb = lim - a + d; break; case SUB: nb = a - lim + d; break; case MUL: if (a) nb = lim / a + d; break;
                        case DIV: nb = d; break; case MOD: nb = r.chance(1, 2) ? d : a + d; break;
                        case SHL: case SHR: nb = (i128)r.below(70) - 3; if (r.chance(1, 2) && nb >= 0 && nb < 64) { i128 na = (p.rmx >> (int)nb) + (i128)r.below(3) - 1; if (fits(na, p.tmn, p.tmx)) a = na; } break; }
                    if (fits(nb, p.umn, p.umx)) b = nb;
                }
            }
        }
        Out o; call(p.fn, a, b, o);
        ++(o.kind == K_VALUE && !o.extra ? nv : ne);
        if (!(a == 0 || a == 1 || (!un && (b == 0 || b == 1)))) { if (exh) st.nontrivial_unique(); else st.nontrivial(h128(h128(hb, a), b)); }
        if (st.want_sample()) st.sample(pdesc(p, a, b) + " -> " + pshow(o));
        std::string cl = pcheck(p, a, b, o);
        if (cl.empty()) continue;
        std::string key = std::string(p.what) + "|" + p.rt + "|" + p.tt + "|" + cl;
        if (!st.want(key)) continue;
        auto pred = [&]() { Out q; call(p.fn, a, b, q); return pcheck(p, a, b, q) == cl; };
        if (!(pred() && pred() && pred())) continue;
        shrink1(a, p.tmn, p.tmx, pred); if (!un) { shrink1(b, p.umn, p.umx, pred); shrink1(a, p.tmn, p.tmx, pred); }
        call(p.fn, a, b, o); PWant w = pmodel(p, a, b);
        st.fail(key, pdesc(p, a, b) + " -> " + pshow(o) + " [" + cl + "]; expected " + (w.val ? "value " + str(w.m) : std::string("an error")) +
            "; limits [" + str(p.rmn) + "," + str(p.rmx) + "]");
    }
    st.evals += total; st.cls(p.what, total); st.cls("value", nv); st.cls("error", ne); st.end_block();
}
template <int O, class R> Prim mk_prim(const char *what, const char *rt) {
    return Prim{what, rt, rt, O, tmin<R>(), tmax<R>(), tmin<R>(), tmax<R>(), tmin<R>(), tmax<R>(), std::is_signed<R>::value, &PF<O, R>::f};
}
template <class R> void add_ops(std::vector<Prim> &v, const char *rt) {
    v.push_back(mk_prim<ADD, R>("checked::add", rt)); v.push_back(mk_prim<SUB, R>("checked::subtract", rt));
    v.push_back(mk_prim<MUL, R>("checked::multiply", rt)); v.push_back(mk_prim<DIV, R>("checked::divide", rt));
    v.push_back(mk_prim<MOD, R>("checked::modulus", rt)); v.push_back(mk_prim<SHL, R>("checked::left_shift", rt));
    v.push_back(mk_prim<SHR, R>("checked::right_shift", rt)); v.push_back(mk_prim<OR, R>("checked::bitwise_or", rt));
    v.push_back(mk_prim<AND, R>("checked::bitwise_and", rt)); v.push_back(mk_prim<XOR, R>("checked::bitwise_xor", rt));
    v.push_back(mk_prim<NEG, R>("checked::minus", rt)); v.push_back(mk_prim<CPL, R>("checked::bitwise_not", rt));
}
template <class R, class T> void add_cast(std::vector<Prim> &v, const char *rt, const char *tt) {
    v.push_back(Prim{"checked::cast", rt, tt, 100, tmin<T>(), tmax<T>(), 0, 0, tmin<R>(), tmax<R>(), std::is_signed<R>::value, &castfree<R, T>});
}
template <class R, R Min, R Max, class T> void add_castr(std::vector<Prim> &v, const char *rt, const char *tt) {
    v.push_back(Prim{"ranged checked cast", rt, tt, 100, tmin<T>(), tmax<T>(), 0, 0, (i128)Min, (i128)Max, std::is_signed<R>::value, &castf<R, Min, Max, T>});
}

// ---- S17
struct CmpRow { const char *what, *tt, *ut; int op; i128 tmn, tmx, umn, umx; bool (*fn)(i128, i128); };
#define VC(N, O) template <class T, class U> bool cmp_##N(i128 a, i128 b) { T t = (T)a; U u = (U)b; return sn::safe_compare::N(t, u); }
VC(less_than, LT) VC(greater_than, GT) VC(less_than_equal, LE) VC(greater_than_equal, GE) VC(equal, EQ) VC(not_equal, NE)
#undef VC
template <class T, class U> void add_cmp(std::vector<CmpRow> &v, const char *tt, const char *ut) {
#define VC(N, O) v.push_back(CmpRow{#N, tt, ut, O, tmin<T>(), tmax<T>(), tmin<U>(), tmax<U>(), &cmp_##N<T, U>});
    VC(less_than, LT) VC(greater_than, GT) VC(less_than_equal, LE) VC(greater_than_equal, GE) VC(equal, EQ) VC(not_equal, NE)
#undef VC
}
inline void run_cmp(const CmpRow &p, Rng &r, uint64_t n, uint64_t ex, Stats &st) {
    u128 ct = (u128)(p.tmx - p.tmn) + 1, cu = (u128)(p.umx - p.umn) + 1;
    bool exh = ct <= 70000 && cu <= 70000 && ct * cu <= ex;
    uint64_t total = exh ? (uint64_t)(ct * cu) : n;
    uint64_t hb = hmix(hstr(p.what), hmix(hstr(p.tt), hstr(p.ut)));
    for (uint64_t i = 0; i < total; ++i) {
        i128 a, b;
        if (exh) { a = p.tmn + (i128)(i / (uint64_t)cu); b = p.umn + (i128)(i % (uint64_t)cu); }
        else {
            a = gen_value(r, p.tmn, p.tmx); b = gen_value(r, p.umn, p.umx);
            int k = (int)r.below(4);
            if (k == 0) { i128 c = a + (i128)r.below(3) - 1; if (fits(c, p.umn, p.umx)) b = c; }
            else if (k == 1) { i128 c = wrap_to(a + (i128)r.below(3) - 1, p.umn, p.umx); b = c; } // same bits
        }
        Out o; guard_body(o, [&] { o.v = p.fn(a, b); });
        if (a != b) { if (exh) st.nontrivial_unique(); else st.nontrivial(h128(h128(hb, a), b)); }
        bool want = exact(p.op, a, b).m != 0;
        if (st.want_sample()) st.sample(std::string(p.what) + "((" + p.tt + ")" + str(a) + ", (" + p.ut + ")" + str(b) + ") -> " + (o.v ? "true" : "false"));
        if (o.kind == K_VALUE && (o.v != 0) == want) continue;
        std::string key = std::string(p.what) + "|" + p.tt + "|" + p.ut;
        if (!st.want(key)) continue;
        auto pred = [&]() { Out q; guard_body(q, [&] { q.v = p.fn(a, b); }); return !(q.kind == K_VALUE && (q.v != 0) == (exact(p.op, a, b).m != 0)); };
        if (!(pred() && pred() && pred())) continue;
        shrink1(a, p.tmn, p.tmx, pred); shrink1(b, p.umn, p.umx, pred); shrink1(a, p.tmn, p.tmx, pred);
        guard_body(o, [&] { o.v = p.fn(a, b); });
        st.fail(key, std::string(p.what) + "((" + p.tt + ")" + str(a) + ", (" + p.ut + ")" + str(b) + ") -> " + (o.kind == K_VALUE ? (o.v ? "true" : "false") : "failure"));
    }
    st.evals += total; st.cls(p.what, total); st.cls(exh ? "exhaustive" : "sampled", total); st.end_block();
}
#endif
