// S27: static facts about result types.
#ifndef VERIF_RTYPE_HPP
#define VERIF_RTYPE_HPP
#include "binop.hpp"
enum { F_SAFE = 1, F_CXX = 2, F_POL = 4, F_EXC = 8, F_SIGNED = 16, F_UNWRAP = 32 };
template <int O, class T, class U, class P, class E, bool plain> struct Inv { static constexpr bool v = true; };
// built-in operands: wrapping either or both of them doesn't change the type of the result
template <int O, class T, class U, class P, class E> struct Inv<O, T, U, P, E, true> {
    typedef base_t<T> BT; typedef base_t<U> BU; typedef sn::safe<BT, P, E> ST; typedef sn::safe<BU, P, E> SU;
    typedef decltype(OpF<O>::f(std::declval<const ST &>(), std::declval<const SU &>())) A;
    static constexpr bool v = std::is_same<A, decltype(OpF<O>::f(std::declval<const ST &>(), std::declval<const BU &>()))>::value &&
                              std::is_same<A, decltype(OpF<O>::f(std::declval<const BT &>(), std::declval<const SU &>()))>::value;
};
template <int O, class T, class U, class P, class E, bool plain> constexpr Row make_trow(int id, int pol, int ti, int ui) {
    typedef decltype(OpF<O>::f(std::declval<const T &>(), std::declval<const U &>())) A;
    typedef decltype(OpF<O>::f(base_t<T>(), base_t<U>(1))) C;
    constexpr bool st = std::is_signed<base_t<T>>::value, su = std::is_signed<base_t<U>>::value;
    constexpr bool sgn = O == SUB || O == NEG ? true : is_shift(O) ? st : (st || su);
    return Row{id, O, pol, ti, ui, 0, sgn ? (i128)INT64_MIN : 0, sgn ? (i128)INT64_MAX : (i128)UINT64_MAX,
        Lim<A>::mn(), Lim<A>::mx(), Lim<A>::bmn(), Lim<A>::bmx(), nullptr, nullptr, 0, 0,
        (sn::is_safe<A>::value ? F_SAFE : 0) | (std::is_same<base_t<A>, C>::value ? F_CXX : 0) |
        (std::is_same<typename sn::get_promotion_policy<A>::type, P>::value ? F_POL : 0) |
        (std::is_same<typename sn::get_exception_policy<A>::type, E>::value ? F_EXC : 0) |
        (std::is_signed<base_t<A>>::value ? F_SIGNED : 0) | (Inv<O, T, U, P, E, plain && !is_unary(O)>::v ? F_UNWRAP : 0)};
}
inline void run_type(const Case &c, Rng &r, Stats &st) {
    std::string why;
    auto d = [&]() { return std::string(c.pol ? "automatic: " : "native: ") + (is_unary(c.op) ? op_text[c.op] + (" " + std::string(c.T.name)) : c.T.name + (" " + std::string(op_text[c.op])) + " " + c.U.name) +
        " is stored in [" + str(c.abmn) + "," + str(c.abmx) + "]"; };
    if (!(c.tflags & F_SAFE)) why = "the result is not a safe integer";
    else if (!(c.tflags & F_POL)) why = "the result has another promotion policy";
    else if (!(c.tflags & F_EXC)) why = "the result has another exception policy";
    else if (!(c.tflags & F_UNWRAP)) why = "safe op safe, safe op built-in and built-in op safe differ in type";
    else if (c.op == POS) {} // the operand itself
    else if (c.pol == 0 || is_bit(c.op)) { if (!(c.tflags & F_CXX)) why = "not the type of the C++ expression"; }
    else {
        bool sgn = c.rbmn < 0;
        if (((c.tflags & F_SIGNED) != 0) != sgn) why = sgn ? "unsigned result type" : "signed result type";
        else {
            std::vector<i128> as, bs;
            for (i128 x : {c.T.mn, c.T.mx, c.T.mn + 1, c.T.mx - 1, (i128)0, (i128)1, (i128)-1, gen_value(r, c.T.mn, c.T.mx), gen_value(r, c.T.mn, c.T.mx)}) if (fits(x, c.T.mn, c.T.mx) && fits(x, c.rbmn, c.rbmx)) as.push_back(x);
            for (i128 x : {c.U.mn, c.U.mx, c.U.mn + 1, c.U.mx - 1, (i128)0, (i128)1, (i128)-1, gen_value(r, c.U.mn, c.U.mx), gen_value(r, c.U.mn, c.U.mx)}) if (fits(x, c.U.mn, c.U.mx)) bs.push_back(x);
            if (is_shift(c.op)) for (int k = 0; k < 64; ++k) if (fits(k, c.U.mn, c.U.mx)) bs.push_back(k);
            for (i128 a : as) for (i128 b : bs) {
                if (!is_unary(c.op) && !is_shift(c.op) && !fits(b, c.rbmn, c.rbmx)) continue;
                if (is_shift(c.op) && (b < 0 || b > 63 || a < 0)) continue;
                Exact e = exact(c.op, a, b);
                if (e.def && fits(e.m, c.rbmn, c.rbmx) && !fits(e.m, c.abmn, c.abmx) && why.empty()) why = "can't hold the attainable result " + str(a) + " " + op_text[c.op] + " " + str(b) + " = " + str(e.m);
            }
        }
    }
    ++st.evals; st.nontrivial_unique(); st.cls(op_text[c.op]); st.cls(c.pol ? "automatic" : "native");
    if (st.srng.below(200) == 0) st.sample(d());
    if (!why.empty()) st.fail(std::string("type|") + op_text[c.op] + c.T.name + c.U.name, d() + " [" + why + "]");
}
#endif
