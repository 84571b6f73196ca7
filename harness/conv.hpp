// S08: conversions.
#ifndef VERIF_CONV_HPP
#define VERIF_CONV_HPP
#include "ops.hpp"
enum Form { F_CONSTRUCT, F_ASSIGN, F_CAST, F_IMPLICIT, F_RETURN, F_BRACE, NFORM };
static const char *const form_name[] = {"construction", "assignment", "static_cast", "implicit conversion", "return", "member initialisation"};
template <class S, class D> D ret_conv(const S &s) { return s; }
template <class D> struct Holder { D d; template <class S> explicit Holder(const S &s) : d(s) {} };
template <int FORM, class S, class D> struct Conv;
#define VF(F, BODY) template <class S, class D> struct Conv<F, S, D> { static void f(i128 a, i128, Out &o) { const S s = Mk<S>::mk(a); BODY; } };
VF(F_CONSTRUCT, D d(s); o.v = val(d))
VF(F_ASSIGN, D d = Mk<D>::mk(Lim<D>::mx()); o.extra = 1; d = s; o.v = val(d))
VF(F_CAST, o.v = val(static_cast<D>(s)))
VF(F_IMPLICIT, D d = s; o.v = val(d))
VF(F_RETURN, o.v = val(ret_conv<S, D>(s)))
VF(F_BRACE, Holder<D> h(s); o.v = val(h.d))
#undef VF
struct ConvRow { int si, di, form; i128 dlo, dhi; Raw fn; };
template <int F, class S, class D> constexpr ConvRow make_conv(int si, int di) { return ConvRow{si, di, F, Lim<D>::mn(), Lim<D>::mx(), &Conv<F, S, D>::f}; }
inline std::string conv_judge(const TD &s, const TD &d, i128 a, const Out &o) {
    (void)s;
    bool fit = fits(a, d.mn, d.mx);
    if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "foreign exception";
    if (o.kind == K_VALUE) return !fit ? "value outside the destination's range accepted" : o.v != a ? "value changed" : "";
    return fit ? "a value which fits was refused" : "";
}
typedef std::string (*ConvJudge)(const TD &, const TD &, i128, const Out &);
inline void run_conv(const ConvRow &c, const TD *t, Rng &r, uint64_t n, uint64_t ex, Stats &st, ConvJudge judge = conv_judge) {
    const TD &s = t[c.si], &d = t[c.di];
    u128 cs = (u128)(s.mx - s.mn) + 1; bool exh = cs <= (n > ex ? n : ex);
    uint64_t total = exh ? (uint64_t)cs : n, ok = 0, err = 0, hb = hmix(hstr(s.name), hmix(hstr(d.name), c.form));
    auto txt = [&](i128 a, const Out &o) { return std::string(form_name[c.form]) + " of " + d.name + " from (" + s.name + ")" + str(a) + " -> " + show(o); };
    if (c.dlo != d.mn || c.dhi != d.mx) st.fail(std::string("limits|") + d.name, std::string(d.name) + " advertises [" + str(c.dlo) + "," + str(c.dhi) + "]");
    for (uint64_t i = 0; i < total; ++i) {
        i128 a;
        if (exh) a = s.mn + (i128)i;
        else {
            a = gen_value(r, s.mn, s.mx);
            if (r.chance(1, 2)) { static const int k[] = {-2, -1, 0, 1, 2}; i128 lim[] = {d.mn, d.mx, d.bmn, d.bmx}; i128 b = lim[r.below(4)] + k[r.below(5)]; if (fits(b, s.mn, s.mx)) a = b; }
            else if (r.chance(1, 4)) { i128 b = r.range(d.mn, d.mx); if (fits(b, s.mn, s.mx)) a = b; }
        }
        Out o; call(c.fn, a, 0, o);
        ++(o.kind == K_VALUE ? ok : err);
        if (a != 0 && a != 1) { if (exh) st.nontrivial_unique(); else st.nontrivial(h128(hb, a)); }
        if (st.want_sample()) st.sample(txt(a, o));
        std::string j = judge(s, d, a, o);
        if (j.empty()) continue;
        std::string key = std::string("conv|") + s.name + "|" + d.name + "|" + j;
        if (!st.want(key)) continue;
        auto pred = [&]() { Out q; call(c.fn, a, 0, q); return judge(s, d, a, q) == j; };
        if (!(pred() && pred() && pred())) continue;
        shrink1(a, s.mn, s.mx, pred); call(c.fn, a, 0, o);
        st.fail(key, txt(a, o) + " [" + j + "]; destination range [" + str(d.mn) + "," + str(d.mx) + "]");
    }
    st.evals += total; st.cls(form_name[c.form], total); st.cls("succeeded", ok); st.cls("refused", err); st.cls(exh ? "exhaustive type pairs" : "sampled type pairs"); st.end_block();
}
#endif
