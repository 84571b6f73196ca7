// Driver for binary/unary operator properties over generated type pairs.
#ifndef VERIF_BINOP_HPP
#define VERIF_BINOP_HPP
#include "ops.hpp"

struct Case {
    int id, op, pol;         // pol 0 native, 1 automatic
    TD T, U;
    i128 rbmn, rbmx;         // range of the model's result / comparison type
    int rwidth;
    i128 alo, ahi;           // range the actual result type advertises
    i128 abmn, abmx;         // range of actual stored result type
    Raw fn;
    const char *dname; i128 dmn, dmx;
    int tflags;
    void run(i128 a, i128 b, Out &o) const { o.lo = alo; o.hi = ahi; call(fn, a, b, o); }
};

template <int O, class BT, class BU> struct CxxType { typedef decltype(OpF<O>::f(BT(), BU(1))) type; };
template <class BT, class BU> struct CmpType { typedef decltype(BT() + BU()) type; };
#define VCMP(O) template <class BT, class BU> struct CxxType<O, BT, BU> { typedef decltype(BT() + BU()) type; };
VCMP(LT) VCMP(LE) VCMP(GT) VCMP(GE) VCMP(EQ) VCMP(NE)
#undef VCMP

// constant-initialised description of one instantiation: costs no generated code but the operation itself
struct Row {
    int id, op, pol, ti, ui, rwidth;
    i128 rbmn, rbmx, alo, ahi, abmn, abmx;
    Raw fn;
    const char *dname; i128 dmn, dmx; // destination of a further conversion, if any
    int tflags;                       // facts about the result type, see S27
};
// numeric_limits: lowest() is min(), and the kind of number is that of an integer
template <class A> constexpr bool limits_ok() { typedef std::numeric_limits<A> N; typedef std::numeric_limits<base_t<A>> M;
    return Lim<A>::low() == Lim<A>::mn() && N::is_specialized && N::is_integer && N::is_exact && N::is_signed == M::is_signed; }
template <int O, class T, class U> constexpr Row make_row(int id, int pol, int ti, int ui) {
    typedef typename CxxType<O, base_t<T>, base_t<U>>::type R;
    typedef decltype(OpF<O>::f(std::declval<const T &>(), std::declval<const U &>())) A;
    constexpr bool st = std::is_signed<base_t<T>>::value, su = std::is_signed<base_t<U>>::value;
    constexpr bool sgn = O == SUB || O == NEG ? true : is_shift(O) ? st : (st || su);
    bool cxx = pol == 0 || is_bit(O);
    return Row{id, O, pol, ti, ui, cxx ? (int)sizeof(R) * 8 : 64,
        cxx ? (i128)std::numeric_limits<R>::min() : sgn ? (i128)INT64_MIN : 0,
        cxx ? (i128)std::numeric_limits<R>::max() : sgn ? (i128)INT64_MAX : (i128)UINT64_MAX,
        Lim<A>::mn(), Lim<A>::mx(), Lim<A>::bmn(), Lim<A>::bmx(), &raw2<OpF<O>, T, U>, nullptr, 0, 0, limits_ok<A>() ? 0 : 2048};
}
// the result converted onwards to D
template <class OP, class T, class U, class D> void raw_conv(i128 a, i128 b, Out &o) {
    o.v = val(static_cast<D>(OP::f(Mk<T>::mk(a), Mk<U>::mk(b))));
}
template <int O, class T, class U, class D> constexpr Row make_row_conv(int id, int pol, int ti, int ui, const char *dn, i128 dmn, i128 dmx) {
    Row r = make_row<O, T, U>(id, pol, ti, ui);
    r.fn = &raw_conv<OpF<O>, T, U, D>; r.dname = dn; r.dmn = dmn; r.dmx = dmx; return r;
}
inline Case to_case(const Row &r, const TD *d) {
    Case c; c.id = r.id; c.op = r.op; c.pol = r.pol; c.T = d[r.ti]; c.U = d[r.ui]; c.rbmn = r.rbmn; c.rbmx = r.rbmx; c.rwidth = r.rwidth;
    c.alo = r.alo; c.ahi = r.ahi; c.abmn = r.abmn; c.abmx = r.abmx; c.fn = r.fn; c.dname = r.dname; c.dmn = r.dmn; c.dmx = r.dmx; c.tflags = r.tflags; return c;
}

struct Want { bool val_ok; i128 m; bool err_ok; };
inline Want model(const Case &c, i128 a, i128 b) {
    Want w;
    if (is_bit(c.op)) { w.val_ok = true; w.m = bits_exact(c.op, a, b, c.rbmn, c.rbmx); w.err_ok = false; return w; }
    Exact e = exact(c.op, a, b);
    w.val_ok = e.def; w.m = e.m;
    if (c.op == POS) { w.err_ok = false; return w; }
    bool fa = fits(a, c.rbmn, c.rbmx), fb = is_unary(c.op) || fits(b, c.rbmn, c.rbmx);
    if (is_cmp(c.op)) { w.err_ok = !fa || !fb; return w; }
    bool fm = e.def && fits(e.m, c.rbmn, c.rbmx);
    w.err_ok = !e.def || !fa || !fb || !fm;
    if (is_shift(c.op)) {
        // stored type of the actual result decides what can be required
        bool sa = fits(a, c.abmn, c.abmx), sb = fits(b, c.abmn, c.abmx), sm = e.def && fits(e.m, c.abmn, c.abmx);
        int aw = 0; for (i128 s = c.abmx - c.abmn; s > 0; s >>= 1) ++aw;
        w.err_ok = w.err_ok || a < 0 || b < 0 || b >= aw || !sa || !sb || !sm || (c.op == SHL && a == 0);
    }
    return w;
}

// operand pairs: boundary-biased, and pairs aimed at the limit of the result type
inline void gen_pair(Rng &r, const Case &c, i128 &a, i128 &b) {
    a = gen_value(r, c.T.mn, c.T.mx);
    b = gen_value(r, c.U.mn, c.U.mx);
    if (is_shift(c.op) && r.chance(3, 4)) { b = (i128)r.below(70) - 3; if (!fits(b, c.U.mn, c.U.mx)) b = gen_value(r, c.U.mn, c.U.mx);
        if (r.chance(1, 2) && b >= 0 && b < 64) { a = (r.chance(1, 2) ? c.rbmx : c.abmx) >> (int)b; a += (i128)r.below(3) - 1; if (!fits(a, c.T.mn, c.T.mx)) a = gen_value(r, c.T.mn, c.T.mx); }
        return; }
    if (r.chance(1, 2)) {
        i128 lim; switch (r.below(4)) { case 0: lim = c.rbmx; break; case 1: lim = c.rbmn; break; case 2: lim = c.ahi; break; default: lim = c.alo; }
        i128 d = (i128)r.below(5) - 2, nb = b;
        switch (c.op) {
        case ADD: nb = lim - a + d; break;
        case SUB: nb = a - lim + d; break;
        case MUL: if (a != 0) nb = lim / a + d; break;
        case DIV: nb = d; break;
        case MOD: nb = r.chance(1, 2) ? d : a + d; break;
        default: if (is_cmp(c.op)) nb = a + d; break;
        }
        if (fits(nb, c.U.mn, c.U.mx)) b = nb;
    }
}

inline std::string describe(const Case &c, i128 a, i128 b) {
    std::string s = is_unary(c.op) ? std::string(op_text[c.op]) + " (" + c.T.name + ")" + str(a)
        : std::string("(") + c.T.name + ")" + str(a) + " " + op_text[c.op] + (c.tflags & 1024 ? "=" : "") + " (" + c.U.name + ")" + str(b);
    if (c.dname) s = std::string("static_cast<") + c.dname + ">(" + s + ")";
    return s;
}

// A check returns a failure class ("" when fine).
typedef std::string (*Check)(const Case &, i128 a, i128 b, const Out &);
// known(...) returns id of a known finding covering this failing input or null.
typedef const char *(*Known)(const Case &, i128 a, i128 b, const std::string &cls);

inline std::string check_value(const Case &c, i128 a, i128 b, const Out &o) {
    Want w = model(c, a, b);
    if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "foreign exception";
    if (o.kind == K_VALUE) {
        if (!w.val_ok) return "value where an error is required";
        if (o.v != w.m) return "wrong value";
        return "";
    }
    if (!w.err_ok) return "spurious error";
    return "";
}
// conversion of an operator's result: the exact value when it fits, an error otherwise
inline std::string check_conv(const Case &c, i128 a, i128 b, const Out &o) {
    if (!c.dname) { std::string s = check_value(c, a, b, o); if (!s.empty()) return s; return o.kind == K_VALUE && !fits(o.v, o.lo, o.hi) ? "value outside advertised range" : ""; }
    Want w = model(c, a, b);
    if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "foreign exception";
    bool fit = w.val_ok && fits(w.m, c.dmn, c.dmx);
    if (o.kind == K_VALUE) return !fit ? "value where an error is required" : o.v != w.m ? "wrong value after conversion" : "";
    return fit && !w.err_ok ? "spurious error" : "";
}
// the range of + - * is exactly that of the attainable results when all of it can be stored
inline std::string hull_failure(const Case &c) {
    if (c.op > MUL) return "";
    i128 x[4], lo, hi; int n = 0;
    i128 as[2] = {c.T.mn, c.T.mx}, bs[2] = {c.U.mn, c.U.mx};
    for (i128 a : as) for (i128 b : bs) x[n++] = exact(c.op, a, b).m;
    lo = *std::min_element(x, x + 4); hi = *std::max_element(x, x + 4);
    if (c.T.mn < c.abmn || c.T.mx > c.abmx || c.U.mn < c.abmn || c.U.mx > c.abmx || lo < c.abmn || hi > c.abmx) return "";
    if (lo == c.alo && hi == c.ahi) return "";
    return std::string(c.T.name) + " " + op_text[c.op] + " " + c.U.name + ": result type advertises [" + str(c.alo) + "," + str(c.ahi) +
        "] but the attainable results are exactly [" + str(lo) + "," + str(hi) + "]";
}
// an operand type advertises its declared range
struct LimRow { i128 mn, mx; bool ok; };
template <class T> constexpr LimRow lim_row() { return LimRow{Lim<T>::mn(), Lim<T>::mx(), limits_ok<T>()}; }
inline void run_lim(const LimRow &l, const TD &t, Stats &st) {
    ++st.evals; st.nontrivial_unique(); st.cls("declared ranges compared with numeric_limits");
    if (l.mn == t.mn && l.mx == t.mx && l.ok) return;
    st.fail(std::string("declared|") + t.name, std::string("numeric_limits<") + t.name + "> gives [" + str(l.mn) + "," + str(l.mx) + "], declared [" + str(t.mn) + "," + str(t.mx) + "]" + (l.ok ? "" : ", lowest() is not min(), or the kind of number is wrong"));
}
inline void run_hull(const Case &c, Stats &st) {
    if (c.tflags & 2048) st.fail(std::string("limits|") + op_text[c.op], std::string(c.T.name) + " " + op_text[c.op] + " " + c.U.name + ": numeric_limits of the result's type: lowest() is not min(), or it is not described as an integer of its signedness");
    std::string f = hull_failure(c); ++st.evals; st.cls("result ranges compared with the attainable range", c.op <= MUL);
    if (!f.empty()) st.fail("hull|" + f, f);
}
inline std::string check_range(const Case &c, i128, i128, const Out &o) {
    (void)c;
    if (o.kind == K_VALUE && !fits(o.v, o.lo, o.hi)) return "value outside advertised range";
    return "";
}

inline void run_case(const Case &c, Rng &r, uint64_t n, uint64_t ex, Stats &st, Check chk, Known known, bool (*nontriv)(const Case &, i128, i128, const Out &)) {
    u128 ct = (u128)(c.T.mx - c.T.mn) + 1, cu = is_unary(c.op) ? 1 : (u128)(c.U.mx - c.U.mn) + 1;
    bool exh = ct <= 70000 && cu <= 70000 && ct * cu <= (n > ex ? n : ex);
    uint64_t total = exh ? (uint64_t)(ct * cu) : n;
    uint64_t nv = 0, ne = 0;
    uint64_t hb = hmix(hstr(c.T.name), hmix(hstr(c.U.name), c.op * 8 + c.pol));
    for (uint64_t i = 0; i < total; ++i) {
        i128 a, b;
        if (exh) { a = c.T.mn + (i128)(i / (uint64_t)cu); b = is_unary(c.op) ? 1 : c.U.mn + (i128)(i % (uint64_t)cu); }
        else { gen_pair(r, c, a, b); if (is_unary(c.op)) b = 1; }
        Out o; c.run(a, b, o);
        ++(o.kind == K_VALUE ? nv : ne);
        if (nontriv(c, a, b, o)) { if (exh) st.nontrivial_unique(); else st.nontrivial(h128(h128(hb, a), b)); }
        if (st.want_sample()) st.sample(describe(c, a, b) + " -> " + show(o));
        std::string cl = chk(c, a, b, o);
        if (cl.empty()) continue;
        if (known) if (const char *k = known(c, a, b, cl)) { ++st.known[k]; ++st.excluded; auto &e = st.known_ex[k]; if (e.empty()) e = describe(c, a, b) + " -> " + show(o); continue; }
        std::string key = std::string(op_text[c.op]) + "|" + c.T.name + "|" + c.U.name + "|" + cl;
        if (!st.want(key)) continue;
        auto pred = [&]() { Out q; c.run(a, b, q); return chk(c, a, b, q) == cl && !(known && known(c, a, b, cl)); };
        // replay three times before believing it
        if (!(pred() && pred() && pred())) continue;
        shrink1(a, c.T.mn, c.T.mx, pred); if (!is_unary(c.op)) shrink1(b, c.U.mn, c.U.mx, pred); shrink1(a, c.T.mn, c.T.mx, pred);
        c.run(a, b, o); Want w = model(c, a, b);
        std::string d = describe(c, a, b) + " -> " + show(o) + " [" + cl + "]; expected " +
            (w.val_ok ? "value " + str(w.m) : std::string("error")) + (w.val_ok && w.err_ok ? " or error" : "") +
            "; result type advertises [" + str(o.lo) + "," + str(o.hi) + "]";
        st.fail(key, d);
    }
    st.evals += total; st.cls(op_text[c.op], total); st.cls("value", nv); st.cls("error", ne); st.cls(exh ? "exhaustive type pairs" : "sampled type pairs");
    st.end_block();
}
inline bool nontriv_default(const Case &c, i128 a, i128 b, const Out &) {
    if (is_unary(c.op)) return a != 0;
    return !(a == 0 || a == 1 || b == 0 || b == 1);
}
#endif
