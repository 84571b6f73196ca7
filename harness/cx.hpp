// S20: constant evaluation against run-time evaluation.
#ifndef VERIF_CX_HPP
#define VERIF_CX_HPP
#include "ops.hpp"
constexpr i128 cxv(bool neg, uint64_t v) { return neg ? (i128)(int64_t)v : (i128)v; }
template <class T, bool safe = sn::is_safe<T>::value, bool lit = Lit<T>::value> struct CMk;
template <class T> struct CMk<T, false, false> { static constexpr T mk(i128 v) { return static_cast<T>(v); } };
template <class T> struct CMk<T, true, true> { static constexpr T mk(i128) { return T(); } };
template <class T> struct CMk<T, true, false> { static constexpr T mk(i128 v) { return T(static_cast<base_t<T>>(v), typename T::skip_validation()); } };
enum CF { CF_OP, CF_CONSTRUCT, CF_CAST, CF_IMPLICIT, CF_ASSIGNOP };
// bodies, usable both ways
template <int O, class T, class U> struct BOp { static constexpr i128 g(i128 a, i128 b) { return val(OpF<O>::f(CMk<T>::mk(a), CMk<U>::mk(b))); } };
template <int O, class T, class U> struct BOpTo { static constexpr i128 g(i128 a, i128 b) { return val(T(OpF<O>::f(CMk<T>::mk(a), CMk<U>::mk(b)))); } }; // result stored in T
// updates of a variable inside a constant-evaluated function: what it holds afterwards and what the expression returned
template <int O> struct CUpd;
#define VA(O, S) template <> struct CUpd<O> { template <class A, class B> static constexpr auto f(A &a, const B &b) { return a S b; } };
VA(ADD, +=) VA(SUB, -=) VA(MUL, *=) VA(DIV, /=) VA(MOD, %=) VA(SHL, <<=) VA(SHR, >>=) VA(OR, |=) VA(AND, &=) VA(XOR, ^=)
#undef VA
template <int O, class T, class U> struct BUpd { static constexpr i128 g(i128 a, i128 b) { T t = CMk<T>::mk(a); const i128 r = val(CUpd<O>::f(t, CMk<U>::mk(b))); return r == val(t) ? r : (i128)1 << 100; } };
template <int W, class T, class U> struct BInc { static constexpr i128 g(i128 a, i128) {
    T t = CMk<T>::mk(a); const i128 r = W == 0 ? val(++t) : W == 1 ? val(--t) : W == 2 ? val(t++) : val(t--); return val(t) * 1000 + (val(t) - r); } };
template <class T, class U> struct BAsg { static constexpr i128 g(i128 a, i128 b) { T t = CMk<T>::mk(a); t = CMk<U>::mk(b); return val(t); } };
template <class S, class D> struct BConstruct { static constexpr i128 g(i128 a, i128) { const S s = CMk<S>::mk(a); const D d(s); return val(d); } };
template <class S, class D> struct BCast { static constexpr i128 g(i128 a, i128) { return val(static_cast<D>(CMk<S>::mk(a))); } };
template <class S, class D> struct BImplicit { static constexpr i128 g(i128 a, i128) { const S s = CMk<S>::mk(a); const D d = s; return val(d); } };
template <class B, bool NA, uint64_t A, bool NB, uint64_t C> struct CF1 { static constexpr i128 f() { return B::g(cxv(NA, A), cxv(NB, C)); } };
template <class F, int = (static_cast<void>(F::f()), 0)> constexpr bool is_cx(int) { return true; }
template <class F> constexpr bool is_cx(...) { return false; }
template <class F, bool> struct CxVal { static constexpr i128 v() { return 0; } };
template <class F> struct CxVal<F, true> { static constexpr i128 v() { return std::integral_constant<bool, true>::value ? F::f() : 0; } };
struct CxRow { bool cx; i128 cv; i128 (*fn)(i128, i128); bool na; uint64_t a; bool nb; uint64_t b; const char *text; };
template <class B, bool NA, uint64_t A, bool NB, uint64_t C> constexpr CxRow cx_row(const char *text) {
    typedef CF1<B, NA, A, NB, C> F; constexpr bool c = is_cx<F>(0); constexpr i128 v = CxVal<F, c>::v();
    return CxRow{c, v, &B::g, NA, A, NB, C, text}; }
inline void run_cx(const CxRow *rows, size_t n, Stats &st) {
    for (size_t i = 0; i < n; ++i) {
        const CxRow &q = rows[i]; volatile uint64_t va = q.a, vb = q.b; i128 a = cxv(q.na, va), b = cxv(q.nb, vb);
        Out o; guard_body(o, [&] { o.v = q.fn(a, b); }); bool ok = o.kind == K_VALUE;
        ++st.evals; if (a != 0 && a != 1) st.nontrivial(h128(h128(hstr(q.text), a), b));
        std::string say = std::string(q.text) + " with " + str(a) + ", " + str(b) + ": constant " + (q.cx ? str(q.cv) : "expression ill-formed") + ", run time " + show(o);
        if (st.srng.below(64) == 0) st.sample(say);
        st.cls(ok ? "succeeds at run time" : "fails at run time");
        if (q.cx != ok) st.fail(std::string(q.text) + (q.cx ? "1" : "0"), say + (q.cx ? " [a failing operation is a constant expression]" : " [not usable in a constant expression]"));
        else if (ok && q.cv != o.v) st.fail(std::string(q.text) + "v", say + " [the values differ]");
    }
    st.end_block();
}
#endif
