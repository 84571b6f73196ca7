// S21: literals against one-point ranges.
#ifndef VERIF_LITR_HPP
#define VERIF_LITR_HPP
#include "conv.hpp"
#include "binop.hpp"
#include <iostream>
struct LRow { Row row; Raw pt; int facts; };
enum { LF_POL = 1, LF_EXC = 2, LF_SAFE = 4, LF_STORED = 8 };
// T op U where one of them is a literal; PT, PU the same with the literal replaced by a one-point range of the other operand's policies
template <int O, class T, class U, class PT, class PU, class P, class E> constexpr LRow make_litrow(int id, int pol, int ti, int ui) {
    typedef decltype(OpF<O>::f(std::declval<const T &>(), std::declval<const U &>())) A;
    typedef decltype(OpF<O>::f(std::declval<const PT &>(), std::declval<const PU &>())) B;
    return LRow{make_row<O, T, U>(id, pol, ti, ui), &raw2<OpF<O>, PT, PU>, is_cmp(O) ? 15 :
        (sn::is_safe<A>::value ? LF_SAFE : 0) | (std::is_same<typename sn::get_promotion_policy<A>::type, P>::value ? LF_POL : 0) |
        (std::is_same<typename sn::get_exception_policy<A>::type, E>::value ? LF_EXC : 0) | (std::is_same<base_t<A>, base_t<B>>::value && Lim<A>::mn() == Lim<B>::mn() && Lim<A>::mx() == Lim<B>::mx() ? LF_STORED : 0)};
}
static Raw g_pt = nullptr;
inline std::string check_lit(const Case &c, i128 a, i128 b, const Out &o) {
    std::string s = check_value(c, a, b, o); if (!s.empty()) return s;
    if (o.kind == K_VALUE && !is_cmp(c.op) && !fits(o.v, o.lo, o.hi)) return "value outside advertised range";
    Out q; call(g_pt, a, b, q); if (q.kind != o.kind || (o.kind == K_VALUE && q.v != o.v)) return "a one-point range in its place gives " + show(q);
    return "";
}
inline void run_lit(const LRow &l, const TD *d, Rng &r, uint64_t n, uint64_t ex, Stats &st) {
    Case c = to_case(l.row, d); g_pt = l.pt;
    std::string what = std::string(c.T.name) + " " + op_text[c.op] + " " + c.U.name; ++st.evals; st.cls("result type facts");
    if (l.facts != 15) st.fail("fact|" + what, what + (l.facts & LF_SAFE ? l.facts & LF_POL ? l.facts & LF_EXC ? ": stored type or range differ from those with a one-point range" : ": the result doesn't have the safe operand's exception policy" : ": the result doesn't have the safe operand's promotion policy" : ": the result is not safe"));
    run_case(c, r, n, ex, st, check_lit, nullptr, nontriv_default);
}
// facts about a literal itself
struct LitD { const char *name; bool sgn; i128 v, val, mn, mx, low; int neg, cpl; i128 nv, cv, nmn, cmn; std::string (*print)(); std::string (*wprint)(); };
template <class L> struct PrintL { static std::string p() { std::ostringstream s; s << L(); return s.str(); } static std::string w() { std::wostringstream s; s << L(); std::string r; for (wchar_t c : s.str()) r += (char)c; return r; } };
template <class L> auto neg_of(int) -> decltype(-L()) { return -L(); }
template <class L> void neg_of(...) {}
template <class R> struct LV { static i128 v(const R &r) { return val(r); } };
template <class L, bool N, bool C> struct LitF;
template <class L> LitD lit_d(const char *n, bool sgn, i128 v) { LitD d = LitD(); d.name = n; d.sgn = sgn; d.v = v; d.val = val(L()); d.mn = val(std::numeric_limits<L>::min()); d.mx = val(std::numeric_limits<L>::max()); d.low = val(std::numeric_limits<L>::lowest()); d.print = &PrintL<L>::p; d.wprint = &PrintL<L>::w; return d; }
template <class L> void lit_neg(LitD &d) { auto x = -L(); typedef decltype(x) X; d.neg = 1; d.nv = val(x); d.nmn = val(std::numeric_limits<X>::max()); }
template <class L> void lit_cpl(LitD &d) { auto x = ~L(); typedef decltype(x) X; d.cpl = 1; d.cv = val(x); d.cmn = val(std::numeric_limits<X>::max()); }
inline void check_lit_d(const LitD &d, i128 cplwant, Stats &st) {
    ++st.evals; if (d.v > 1 || d.v < 0) st.nontrivial_unique(); st.cls("literals");
    auto f = [&](bool bad, const std::string &w) { if (bad) st.fail(std::string("lit|") + d.name + w, std::string(d.name) + ": " + w); };
    f(d.val != d.v, "its value is " + str(d.val)); f(d.mn != d.v || d.mx != d.v || d.low != d.v, "advertises [" + str(d.mn) + "," + str(d.mx) + "], lowest " + str(d.low));
    f(d.print() != str(d.v), "prints as " + d.print()); f(d.wprint() != str(d.v), "prints as " + d.wprint() + " on a wide stream");
    if (d.neg) f(d.nv != -d.v || d.nmn != -d.v, "its negation is " + str(d.nv) + " and advertises " + str(d.nmn));
    if (d.cpl) f(d.cv != cplwant || d.cmn != cplwant, "its complement is " + str(d.cv) + " and advertises " + str(d.cmn) + ", not " + str(cplwant));
}
#endif
