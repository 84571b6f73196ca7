// S19: the promotion policy which emulates another machine.
#ifndef VERIF_MACH_HPP
#define VERIF_MACH_HPP
#include "binop.hpp"
struct Ty2 { int bits, sgn; };
inline bool same(Ty2 a, Ty2 b) { return a.bits == b.bits && a.sgn == b.sgn; }
inline std::string tyname(Ty2 t) { return std::string(t.sgn ? "" : "unsigned ") + std::to_string(t.bits) + " bit"; }
struct MRow { Row row; Ty2 want, quirk; Raw host; bool host_same; const char *mach; };
inline constexpr i128 tmn(Ty2 t) { return t.sgn ? -((i128)1 << (t.bits - 1)) : 0; }
inline constexpr i128 tmx(Ty2 t) { return t.sgn ? ((i128)1 << (t.bits - 1)) - 1 : ((i128)1 << t.bits) - 1; }
template <int O, class T, class U> constexpr MRow make_mrow(int id, int ti, int ui, Ty2 want, Ty2 quirk, const char *mach) {
    typedef decltype(OpF<O>::f(std::declval<const T &>(), std::declval<const U &>())) A;
    typedef base_t<A> B;
    // the value is judged in the type the result really has; the type itself is judged separately
    return MRow{Row{id, O, 0, ti, ui, (int)sizeof(B) * 8, is_cmp(O) ? tmn(want) : (i128)std::numeric_limits<B>::min(), is_cmp(O) ? tmx(want) : (i128)std::numeric_limits<B>::max(),
        Lim<A>::mn(), Lim<A>::mx(), Lim<A>::bmn(), Lim<A>::bmx(), &raw2<OpF<O>, T, U>, nullptr, 0, 0, 0}, want, quirk, nullptr, true, mach};
}
// the same operand types under the native policy, for widths which are the host's
template <int O, class T, class U, class NT, class NU> constexpr MRow make_hrow(int id, int ti, int ui, Ty2 want, Ty2 quirk, const char *mach) {
    typedef decltype(OpF<O>::f(std::declval<const T &>(), std::declval<const U &>())) A;
    typedef decltype(OpF<O>::f(std::declval<const NT &>(), std::declval<const NU &>())) N;
    MRow r = make_mrow<O, T, U>(id, ti, ui, want, quirk, mach); r.host = &raw2<OpF<O>, NT, NU>; r.host_same = std::is_same<base_t<A>, base_t<N>>::value; return r;
}
static bool g_quirk; // comparisons: the common type may also be the quirk's
static Ty2 g_qt; static Raw g_host;
inline std::string check_mach(const Case &c, i128 a, i128 b, const Out &o) {
    std::string s = check_value(c, a, b, o);
    if (s == "spurious error" && is_cmp(c.op) && g_quirk && !(fits(a, tmn(g_qt), tmx(g_qt)) && fits(b, tmn(g_qt), tmx(g_qt)))) return "KF2";
    if (!s.empty()) return s;
    if (g_host) { Out h; call(g_host, a, b, h); if (h.kind != o.kind || (o.kind == K_VALUE && h.v != o.v)) return "differs from the native policy, which gives " + show(h); }
    return "";
}
inline const char *mach_known(const Case &, i128, i128, const std::string &cl) { return cl == "KF2" ? "KF2: unsigned types narrower than int are promoted to unsigned int" : nullptr; }
inline void run_mach(const MRow &m, const TD *d, Rng &r, uint64_t n, uint64_t ex, Stats &st) {
    Case c = to_case(m.row, d);
    std::string what = std::string("cpp<") + m.mach + ">: " + c.T.name + " " + op_text[c.op] + " " + c.U.name;
    g_quirk = !same(m.want, m.quirk); g_qt = m.quirk; g_host = nullptr;
    if (!is_cmp(c.op)) {
        Ty2 act = {0, c.abmn < 0}; for (i128 s = c.abmx - c.abmn; s > 0; s >>= 1) ++act.bits;
        ++st.evals; st.nontrivial_unique(); st.cls("result types");
        if (!same(act, m.want)) {
            if (g_quirk && same(act, m.quirk)) { const char *k = mach_known(c, 0, 0, "KF2"); ++st.known[k]; ++st.excluded; auto &e = st.known_ex[k]; if (e.empty()) e = what + " has a " + tyname(act) + " type, C++: " + tyname(m.want); }
            else st.fail("type|" + what, what + " has a " + tyname(act) + " type; on that machine it is " + tyname(m.want));
        }
        if (m.host) { ++st.evals; st.cls("host widths compared with native"); if (!m.host_same && !(g_quirk && same(act, m.quirk))) st.fail("host|" + what, what + " (host widths) has another type than under the native policy"); if (m.host_same) g_host = m.host; }
    } else if (m.host && !g_quirk) g_host = m.host;
    run_case(c, r, n, ex, st, check_mach, mach_known, nontriv_default);
}
#endif
