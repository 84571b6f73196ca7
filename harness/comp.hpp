// Compound assignments and increments over type pairs (S09, S10, S11).
#ifndef VERIF_COMP_HPP
#define VERIF_COMP_HPP
#include "pol.hpp"
template <int OP> struct OpC;
#define VA(O, S) template <> struct OpC<O> { template <class A, class B> static void f(A &a, const B &b, i128 &r) { r = val(a S b); } };
VA(ADD, +=) VA(SUB, -=) VA(MUL, *=) VA(DIV, /=) VA(MOD, %=) VA(SHL, <<=) VA(SHR, >>=) VA(OR, |=) VA(AND, &=) VA(XOR, ^=)
#undef VA
static i128 g_left, g_ret; // what the variable holds afterwards, what the expression returned
template <int O, class T, class U> void raw_comp(i128 a, i128 b, Out &o) {
    T x = Mk<T>::mk(a); const U y = Mk<U>::mk(b); g_n = 0; g_left = a;
    try { OpC<O>::f(x, y, g_ret); o.v = g_left = val(x); } catch (...) { g_left = val(x); throw; }
}
template <int O, class T, class U> constexpr Row make_comp(int id, int pol, int ti, int ui) {
    Row r = make_row<O, T, U>(id, pol, ti, ui); r.fn = &raw_comp<O, T, U>; r.tflags = 1024; return r; }
inline Want comp_model(const Case &c, i128 a, i128 b) {
    Want w = model(c, a, b); bool fit = w.val_ok && fits(w.m, c.T.mn, c.T.mx);
    w.val_ok = fit; w.err_ok = w.err_ok || !fit; return w; }
inline std::string check_comp(const Case &c, i128 a, i128 b, const Out &o) {
    if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "foreign exception";
    Want w = comp_model(c, a, b);
    if (o.kind == K_VALUE) {
        if (!fits(o.v, c.T.mn, c.T.mx)) return "variable outside its declared range";
        if (!w.val_ok) return "value where an error is required";
        if (o.v != w.m) return "wrong value";
        return g_ret == o.v ? "" : "returns another value than the one stored"; }
    if (g_left != a) return "variable changed by an update which failed";
    return w.err_ok ? "" : "spurious error";
}
// S10: handlers which throw
inline std::string check_comp_log(const Case &c, i128 a, i128 b, const Out &o) {
    Want w = comp_model(c, a, b); int classes = 1 << CL_AE;
    if (is_shift(c.op)) classes |= 1 << CL_IDB;
    std::string s = judge_log(o, !w.val_ok, w.err_ok, o.v == w.m, classes);
    return s.empty() && o.kind == K_ERROR && g_left != a ? "variable changed by an update which failed" : s;
}
// S11: nothing throws
inline std::string check_comp_ign(const Case &c, i128 a, i128 b, const Out &o) {
    Want w = model(c, a, b); i128 m;
    if (w.err_ok && !wrapped(c, a, b, m)) return "";
    if (!w.err_ok) m = w.m;
    if (o.kind != K_VALUE) return o.kind == K_OTHER && o.code <= -100 ? "crash" : "exception from an ignoring policy";
    i128 e = fits(m, c.T.mn, c.T.mx) ? m : wrap_to(m, c.T.bmn, c.T.bmx);
    return o.v != e ? "not the value of the unchecked expression" : g_ret != o.v ? "returns another value than the one stored" : "";
}
#endif
