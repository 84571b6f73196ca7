// S10: which handler is invoked. S11: what an ignored error leaves.
#ifndef VERIF_POL_HPP
#define VERIF_POL_HPP
#include "binop.hpp"
#include "conv.hpp"
struct LogE { int cls, code; };
static LogE g_log[64]; static int g_n = 0;
inline void log_add(int c, int code) { if (g_n < 64) g_log[g_n] = LogE{c, code}; ++g_n; }
enum { CL_AE = 1, CL_IDB = 2, CL_UB = 3, CL_UV = 4 };
static const char *const cl_name[] = {"", "arithmetic error", "implementation defined behavior", "undefined behavior", "uninitialized value"};
template <int C, bool TH> struct RecH { void operator()(const sn::safe_numerics_error &e, const char *) const { log_add(C, (int)e); if (TH) throw sentinel_exception{(int)e, C}; } };
typedef sn::exception_policy<RecH<1, true>, RecH<2, true>, RecH<3, true>, RecH<4, true>> RecT; // record and throw
typedef sn::exception_policy<RecH<1, false>, RecH<2, false>, RecH<3, false>, RecH<4, false>> RecR; // record and return
struct RecD { // a policy which is no instance of the library's template
    static void h(int c, const sn::safe_numerics_error &e) { log_add(c, (int)e); throw sentinel_exception{(int)e, c}; }
    static void on_arithmetic_error(const sn::safe_numerics_error &e, const char *) { h(1, e); }
    static void on_implementation_defined_behavior(const sn::safe_numerics_error &e, const char *) { h(2, e); }
    static void on_undefined_behavior(const sn::safe_numerics_error &e, const char *) { h(3, e); }
    static void on_uninitialized_value(const sn::safe_numerics_error &e, const char *) { h(4, e); }
};
typedef sn::exception_policy<sn::ignore_exception, sn::ignore_exception, sn::ignore_exception, sn::ignore_exception> Ign;
typedef sn::exception_policy<RecH<1, true>, sn::ignore_exception, sn::ignore_exception, sn::ignore_exception> ArT;  // arithmetic errors only
typedef sn::exception_policy<sn::ignore_exception, RecH<2, true>, sn::ignore_exception, sn::ignore_exception> IdT;  // implementation defined behaviour only

inline int class_of(int code) { // independent statement of the classes
    switch (code) { case 1: case 2: case 3: case 4: case 5: case 6: return CL_AE; case 7: case 8: case 9: return CL_IDB; case 10: return CL_UV; default: return 0; } }

template <class OP, class T, class U> void rawL(i128 a, i128 b, Out &o) { T x = Mk<T>::mk(a); U y = Mk<U>::mk(b); g_n = 0; o.v = val(OP::f(x, y)); }
template <int O, class T, class U> constexpr Row make_lrow(int id, int pol, int ti, int ui) { Row r = make_row<O, T, U>(id, pol, ti, ui); r.fn = &rawL<OpF<O>, T, U>; return r; }
template <int F, class S, class D> void rawLC(i128 a, i128 b, Out &o) { g_n = 0; Conv<F, S, D>::f(a, b, o); }
template <int F, class S, class D> constexpr ConvRow make_lconv(int si, int di) { return ConvRow{si, di, F, Lim<D>::mn(), Lim<D>::mx(), &rawLC<F, S, D>}; }

inline std::string log_text() { std::string s = std::to_string(g_n) + " handler calls"; for (int i = 0; i < g_n && i < 4; ++i) s += std::string(i ? "," : ":") + " " + cl_name[g_log[i].cls] + "/" + err_name(g_log[i].code); return s; }
static bool g_returns = false; // the policy's handlers return
// shared judgement: failing = "must fail", may = "may fail", allowed classes as bit set
inline std::string judge_log(const Out &o, bool must, bool may, bool exactval, int classes) {
    if (o.kind == K_OTHER) { if (g_returns && g_n && (classes & 1 << g_log[0].cls)) return ""; return o.code <= -100 ? "crash" : "foreign exception"; }
    if (g_n == 0) {
        if (o.kind == K_ERROR) return "exception without a call of a handler";
        if (must) return "failed operation completed without a call of a handler";
        return exactval ? "" : "wrong value without a call of a handler";
    }
    if (!may) return "handler called although the operation can succeed";
    if (!(classes & 1 << g_log[0].cls)) return "handler of the wrong class";
    for (int i = 0; i < g_n && i < 64; ++i) if (class_of(g_log[i].code) != g_log[i].cls) return "handler called with a code of another class";
    if (!g_returns) { if (g_n != 1) return "more than one handler called"; if (o.kind != K_ERROR) return "operation completed although the handler threw"; if (o.code != g_log[0].code || o.extra != g_log[0].cls) return "another exception than the handler's"; }
    else if (o.kind == K_ERROR) return "exception from a handler which returns";
    return "";
}
inline std::string check_log(const Case &c, i128 a, i128 b, const Out &o) {
    Want w = model(c, a, b);
    int classes;
    if (is_shift(c.op)) {
        // operands which the type of the result can't hold may be reported first (as arithmetic errors), everything else is a bad shift
        bool fa = fits(a, c.rbmn, c.rbmx) && fits(a, c.abmn, c.abmx), fb = fits(b, c.rbmn, c.rbmx) && fits(b, c.abmn, c.abmx);
        classes = (fa && fb) ? 1 << CL_IDB : 1 << CL_AE | 1 << CL_IDB;
        if (fa && fb && a >= 0 && b >= 0 && w.val_ok && !fits(w.m, c.abmn, c.abmx)) classes |= 1 << CL_AE; // plain overflow
    } else classes = 1 << CL_AE;
    return judge_log(o, !w.val_ok, w.err_ok, o.v == w.m, classes);
}
inline std::string conv_log(const TD &s, const TD &d, i128 a, const Out &o) { (void)s; bool fit = fits(a, d.mn, d.mx); return judge_log(o, !fit, !fit, o.v == a, 1 << CL_AE); }

// ---- S11
// the expression on built-in integers of a wrapping machine; false when nothing is claimed
inline bool wrapped(const Case &c, i128 a, i128 b, i128 &m) {
    i128 x = wrap_to(a, c.rbmn, c.rbmx), y = wrap_to(b, c.rbmn, c.rbmx);
    switch (c.op) {
    case ADD: m = wrap_to(x + y, c.rbmn, c.rbmx); return true; case SUB: m = wrap_to(x - y, c.rbmn, c.rbmx); return true;
    case MUL: m = wrap_to((i128)((u128)x * (u128)y), c.rbmn, c.rbmx); return true; case NEG: m = wrap_to(-x, c.rbmn, c.rbmx); return true;
    case SHL: if (b < 0 || b >= c.rwidth) return false; m = wrap_to((i128)((u128)x << (int)b), c.rbmn, c.rbmx); return true;
    case SHR: if (b < 0 || b >= c.rwidth) return false; m = wrap_to(x >> (int)b, c.rbmn, c.rbmx); return true;
    default: return false; }
}
inline std::string check_ign(const Case &c, i128 a, i128 b, const Out &o) {
    Want w = model(c, a, b); i128 m;
    if (!w.err_ok || wrapped(c, a, b, m)) {
        if (o.kind == K_OTHER && o.code <= -100) return "crash";
        if (o.kind != K_VALUE) return "exception from an ignoring policy";
        if (!w.err_ok) return o.v == w.m ? "" : "wrong value of an operation which doesn't fail";
        return o.v == m ? "" : "not the value of the unchecked expression";
    }
    return "";
}
// arithmetic errors throw, a bad shift is ignored
inline std::string check_loose(const Case &c, i128 a, i128 b, const Out &o) {
    Want w = model(c, a, b); i128 m;
    if (!is_shift(c.op)) return check_value(c, a, b, o);
    if (o.kind == K_OTHER && o.code <= -100 && wrapped(c, a, b, m)) return "crash";
    if (o.kind == K_VALUE) { if (wrapped(c, a, b, m) && o.v != m) return "not the value of the unchecked expression"; return ""; }
    if (o.kind == K_ERROR && fits(a, c.rbmn, c.rbmx) && fits(b, c.rbmn, c.rbmx)) return class_of(o.code) == CL_IDB ? "exception for an ignored class" : w.err_ok ? "" : "spurious error";
    return "";
}
inline std::string conv_ign(const TD &s, const TD &d, i128 a, const Out &o) {
    (void)s; if (o.kind != K_VALUE) return "exception or crash under an ignoring policy";
    i128 e = fits(a, d.mn, d.mx) ? a : wrap_to(a, d.bmn, d.bmx);
    return o.v == e ? "" : "not the value of the unchecked conversion"; }
#endif
