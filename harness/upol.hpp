// S32: promotion policies written by users: a table of result types, one per operator and pair of operand types.
#ifndef VERIF_UPOL_HPP
#define VERIF_UPOL_HPP
#include "mach.hpp"
constexpr int up_index(int bits, int sgn) { return 2 * (bits == 8 ? 0 : bits == 16 ? 1 : bits == 32 ? 2 : 3) + sgn; }
template <class B> constexpr int up_index() { return up_index(sizeof(B) * 8, std::is_signed<B>::value); }
template <int I> struct up_type; 
#define VT(I, X) template <> struct up_type<I> { typedef X type; };
VT(0, unsigned char) VT(1, signed char) VT(2, unsigned short) VT(3, short) VT(4, unsigned) VT(5, int) VT(6, unsigned long) VT(7, long)
#undef VT
// the table, one digit per entry: [operation][type of the left operand][type of the right operand]
template <class TABLE> struct upol {
    template <int O, class T, class U> struct pick { typedef typename up_type<TABLE::get(O, up_index<base_t<T>>(), up_index<base_t<U>>())>::type type; };
    template <class T, class U> struct addition_result : pick<0, T, U> {};
    template <class T, class U> struct subtraction_result : pick<1, T, U> {};
    template <class T, class U> struct multiplication_result : pick<2, T, U> {};
    template <class T, class U> struct division_result : pick<3, T, U> {};
    template <class T, class U> struct modulus_result : pick<4, T, U> {};
    template <class T, class U> struct left_shift_result : pick<5, T, U> {};
    template <class T, class U> struct right_shift_result : pick<6, T, U> {};
    template <class T, class U> struct bitwise_or_result : pick<7, T, U> {};
    template <class T, class U> struct bitwise_and_result : pick<8, T, U> {};
    template <class T, class U> struct bitwise_xor_result : pick<9, T, U> {};
    template <class T, class U> struct comparison_result : pick<10, T, U> {};
};
// the type is judged by run_mach; a value must be exact and within the policy's type, an error needs a reason
inline std::string check_user(const Case &c, i128 a, i128 b, const Out &o) {
    if (is_bit(c.op) && o.kind == K_ERROR && (!fits(a, c.rbmn, c.rbmx) || !fits(b, c.rbmn, c.rbmx))) return "";
    std::string s = check_value(c, a, b, o);
    if (s == "spurious error" && is_cmp(c.op) && (!fits(a, tmn(g_qt), tmx(g_qt)) || !fits(b, tmn(g_qt), tmx(g_qt)))) return "";
    if (!s.empty()) return s;
    if (o.kind == K_VALUE && !is_cmp(c.op) && !fits(o.v, c.abmn, c.abmx)) return "value outside the policy's type";
    if (o.kind == K_VALUE && !is_cmp(c.op) && !fits(o.v, c.alo, c.ahi)) return "value outside advertised range";
    return "";
}
inline void run_user(const MRow &m, const TD *d, Rng &r, uint64_t n, uint64_t ex, Stats &st) {
    Case c = to_case(m.row, d); g_qt = m.quirk;
    std::string what = std::string(m.mach) + ": " + c.T.name + " " + op_text[c.op] + " " + c.U.name;
    if (!is_cmp(c.op)) {
        Ty2 act = {0, c.abmn < 0}; for (i128 s = c.abmx - c.abmn; s > 0; s >>= 1) ++act.bits;
        ++st.evals; st.nontrivial_unique(); st.cls("result types");
        if (!same(act, m.want)) st.fail("type|" + what, what + " has a " + tyname(act) + " type; the policy says " + tyname(m.want));
    }
    run_case(c, r, n, ex, st, check_user, nullptr, nontriv_default);
}
#endif
