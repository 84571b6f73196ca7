// S24: error codes, classes, messages, exceptions.
#ifndef VERIF_ERRS_HPP
#define VERIF_ERRS_HPP
#include "pol.hpp"
#include <typeinfo>
typedef sn::exception_policy<sn::throw_exception, sn::throw_exception, sn::throw_exception, sn::throw_exception> ThrowAll;
static const int g_actions[] = {(int)sn::safe_numerics_actions::no_action, (int)sn::safe_numerics_actions::arithmetic_error, (int)sn::safe_numerics_actions::implementation_defined_behavior, (int)sn::safe_numerics_actions::undefined_behavior, (int)sn::safe_numerics_actions::uninitialized_value};
// class by the error condition comparison: exactly one, or -1
inline int cond_class(const std::error_code &ec) {
    int n = 0, k = -1;
    for (int i = 0; i < 5; ++i) if (ec == std::error_condition(g_actions[i], sn::safe_numerics_actions_category)) { ++n; k = i; }
    return n == 1 ? k : -1;
}
inline std::string inspect(const std::system_error &e) {
    const std::error_code &ec = e.code();
    if (typeid(e) != typeid(std::system_error)) return "another exception type than std::system_error";
    if (&ec.category() != &sn::safe_numerics_error_category) return "another category";
    if (ec.value() < 1 || ec.value() > 10) return "no error code of the library";
    if (ec != make_error_code(static_cast<sn::safe_numerics_error>(ec.value()))) return "code does not equal its own error code";
    if (cond_class(ec) != class_of(ec.value())) return "the thrown code compares equal to another error class";
    std::string w = e.what(), m = ec.message();
    if (m.empty() || w.find(m) == std::string::npos) return "what() without the message of the code";
    if (w == m || w.find(m) == 0) return "what() without a description";
    return "";
}
static std::string g_insp;
template <class F> void thrower(F f) { g_insp.clear(); try { f(); } catch (const std::system_error &e) { g_insp = inspect(e); throw; } }
template <class OP, class T, class U> void rawT(i128 a, i128 b, Out &o) { thrower([&] { raw2<OP, T, U>(a, b, o); }); }
template <int F, class S, class D> void rawTC(i128 a, i128 b, Out &o) { thrower([&] { Conv<F, S, D>::f(a, b, o); }); }
struct ERow { Row r; Raw rec; };
template <int O, class T, class U, class TR, class UR> constexpr ERow make_erow(int id, int pol, int ti, int ui) { Row r = make_row<O, T, U>(id, pol, ti, ui); r.fn = &rawT<OpF<O>, T, U>; return ERow{r, &rawL<OpF<O>, TR, UR>}; }
struct ECRow { ConvRow r; Raw rec; };
template <int F, class S, class D, class SR, class DR> constexpr ECRow make_ecrow(int si, int di) { return ECRow{ConvRow{si, di, F, Lim<D>::mn(), Lim<D>::mx(), &rawTC<F, S, D>}, &rawLC<F, SR, DR>}; }

enum { C_POS = 1 << 1, C_NEG = 1 << 2, C_DOM = 1 << 3, C_NVS = 1 << 7, C_NS = 1 << 8, C_STL = 1 << 9 };
// (a signed value too low for an unsigned type may be called a domain error)
inline int conv_codes(i128 a, i128 lo, i128 hi, bool uns) { return a > hi ? C_POS : a < lo ? (uns ? C_NEG | C_DOM : C_NEG) : 0; }
// the codes which describe a failure of this operation
inline int codes_of(const Case &c, i128 a, i128 b) {
    int s = conv_codes(a, c.rbmn, c.rbmx, c.rbmn == 0) | (is_unary(c.op) ? 0 : conv_codes(b, c.rbmn, c.rbmx, c.rbmn == 0));
    if (is_shift(c.op)) {
        s |= conv_codes(a, c.abmn, c.abmx, c.abmn == 0) | conv_codes(b, c.abmn, c.abmx, c.abmn == 0);
        int aw = 0; for (i128 x = c.abmx - c.abmn; x > 0; x >>= 1) ++aw;
        if (a < 0) s |= c.op == SHL ? C_NVS | C_NS : C_NVS; // the library has one code for negative counts and (undefined) left shifts of negative values
        if (b < 0) s |= C_NS;
        if (b >= aw || b >= c.rwidth || (c.op == SHL && a == 0)) s |= C_STL;
        Exact e = exact(c.op, a, b);
        if (e.def && b >= 0) { if (e.m > c.abmx || e.m > c.rbmx) s |= C_POS | C_STL; if (e.m < c.abmn || e.m < c.rbmn) s |= C_NEG | C_STL; }
        return s;
    }
    if ((c.op == DIV || c.op == MOD) && b == 0) s |= C_DOM;
    if (is_cmp(c.op)) return s;
    Exact e = exact(c.op, a, b);
    if (e.def) { if (e.m > c.rbmx) s |= C_POS; if (e.m < c.rbmn) s |= C_NEG; }
    return s;
}
inline std::string judge_e(const Out &o, const Out &p, int codes, bool loose) {
    if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "another exception than std::system_error with a code of the library";
    if (p.kind == K_OTHER) return "";
    if (o.kind == K_VALUE) {
        if (p.kind == K_VALUE) return "";
        if (loose && class_of(p.code) == CL_IDB) return "";
        return "completes under a throwing policy although a recording policy is told of an error";
    }
    if (!g_insp.empty()) return g_insp;
    if (p.kind == K_VALUE) return "throws although a recording policy is told of no error";
    if (o.code != p.code) return "throws another code than the handler is called with";
    if (class_of(o.code) != p.extra) return "the handler's class is not that of the code";
    if (!(codes & 1 << o.code)) return std::string("code ") + err_name(o.code) + " does not describe this failure";
    return "";
}
inline void run_e(const ERow &q, const TD *d, Rng &r, uint64_t n, bool loose, Stats &st) {
    Case c = to_case(q.r, d); uint64_t hb = hmix(hstr(c.T.name), hmix(hstr(c.U.name), c.op * 8 + c.pol));
    for (uint64_t i = 0; i < n; ++i) {
        i128 a, b; gen_pair(r, c, a, b); if (is_unary(c.op)) b = 1;
        Out o, p; auto go = [&]() { g_insp.clear(); c.run(a, b, o); std::string s = g_insp; call(q.rec, a, b, p); g_insp = s; return judge_e(o, p, codes_of(c, a, b), loose); };
        std::string f = go(); ++st.evals; st.cls(o.kind == K_ERROR ? err_name(o.code) : "no error");
        if (o.kind == K_ERROR) st.nontrivial(h128(h128(hb, a), b));
        if (o.kind == K_ERROR && st.want_sample()) st.sample(describe(c, a, b) + " -> " + show(o));
        if (f.empty()) continue;
        std::string key = std::string(op_text[c.op]) + "|" + c.T.name + "|" + c.U.name + "|" + f; if (!st.want(key)) continue;
        auto pred = [&]() { return go() == f; };
        if (!(pred() && pred() && pred())) continue;
        shrink1(a, c.T.mn, c.T.mx, pred); if (!is_unary(c.op)) shrink1(b, c.U.mn, c.U.mx, pred);
        go(); st.fail(key, describe(c, a, b) + " -> " + show(o) + ", recording policy: " + show(p) + " [" + f + "]");
    }
    st.end_block();
}
inline void run_ec(const ECRow &q, const TD *t, Rng &r, uint64_t n, Stats &st) {
    const TD &s = t[q.r.si], &d = t[q.r.di]; uint64_t hb = hmix(hstr(s.name), hmix(hstr(d.name), q.r.form));
    for (uint64_t i = 0; i < n; ++i) {
        i128 a = gen_value(r, s.mn, s.mx);
        if (r.chance(1, 2)) { i128 lim[] = {d.mn, d.mx, d.bmn, d.bmx}; i128 b = lim[r.below(4)] + (i128)r.below(5) - 2; if (fits(b, s.mn, s.mx)) a = b; }
        Out o, p; auto go = [&]() { g_insp.clear(); call(q.r.fn, a, 0, o); std::string z = g_insp; call(q.rec, a, 0, p); g_insp = z; return judge_e(o, p, conv_codes(a, d.mn, d.mx, d.bmn == 0), false); };
        std::string f = go(); ++st.evals; st.cls(o.kind == K_ERROR ? err_name(o.code) : "no error");
        if (o.kind == K_ERROR) st.nontrivial(h128(hb, a));
        auto txt = [&]() { return std::string(form_name[q.r.form]) + " of " + d.name + " from (" + s.name + ")" + str(a) + " -> " + show(o); };
        if (o.kind == K_ERROR && st.want_sample()) st.sample(txt());
        if (f.empty()) continue;
        std::string key = std::string("conv|") + s.name + "|" + d.name + "|" + f; if (!st.want(key)) continue;
        auto pred = [&]() { return go() == f; };
        if (!(pred() && pred() && pred())) continue;
        shrink1(a, s.mn, s.mx, pred); go(); st.fail(key, txt() + ", recording policy: " + show(p) + " [" + f + "]");
    }
    st.end_block();
}
// ---- the tables
static std::string g_msg;
template <int C> struct MsgH { void operator()(const sn::safe_numerics_error &e, const char *m) const { log_add(C, (int)e); g_msg = m ? m : "(null)"; } };
typedef sn::exception_policy<MsgH<1>, MsgH<2>, MsgH<3>, MsgH<4>> MsgP;
template <int K, class R> void table_r(Stats &st, const char *rn) {
    constexpr sn::safe_numerics_error E = static_cast<sn::safe_numerics_error>(K);
    g_n = 0; g_msg = ""; const char *m = "the message";
    sn::checked_result<R> x = sn::dispatch_and_return<MsgP, R>::template invoke<E>(m);
    ++st.evals; st.nontrivial_unique();
    std::string who = std::string("dispatch of ") + err_name(K) + " with a result of type " + rn;
    if (x.m_e != E || !x.exception()) st.fail("dar|" + who, who + ": returned result carries another code");
    if (g_n != 1 || g_log[0].code != K || g_log[0].cls != class_of(K) || g_msg != m) st.fail("disp|" + who, who + ": " + log_text() + ", message \"" + g_msg + "\"");
}
static bool g_foreign_first = false;
template <int K> void table(Stats &st) {
    constexpr sn::safe_numerics_error E = static_cast<sn::safe_numerics_error>(K);
    const std::string who = err_name(K);
    std::error_code ec = make_error_code(E), e2(E);
    auto chk = [&](bool ok, const char *what) { ++st.evals; st.nontrivial_unique(); if (!ok) st.fail("table|" + who + "|" + what, who + ": " + what); };
    auto foreign_codes = [&]() {
    // a code of another category is in no class
        std::error_code foreign[] = {std::error_code(K, std::generic_category()), std::error_code(K, std::system_category()), std::error_code(K, sn::safe_numerics_actions_category)};
        for (int f = 0; f < 3; ++f) for (int i = 0; i < 5; ++i)
            chk(f == 2 && K == g_actions[i] ? true : !sn::safe_numerics_actions_category.equivalent(foreign[f], g_actions[i]), "a code of another category is counted as an error of the library");
    };
    if (g_foreign_first) foreign_codes(); // whether the classes were asked about another category first makes no difference
    chk(ec.value() == K && &ec.category() == &sn::safe_numerics_error_category && ec == e2 && ec == E, "make_error_code gives another code or category");
    static const int act[] = {0, 1, 2, 3, 4}; (void)act;
    constexpr sn::safe_numerics_actions A = sn::make_safe_numerics_action(E);
    chk(A == static_cast<sn::safe_numerics_actions>(g_actions[class_of(K)]), "make_safe_numerics_action gives another class than documented");
    sn::safe_numerics_error volatile ve = E; sn::safe_numerics_error ne = ve;
    chk(sn::make_safe_numerics_action(ne) == A, "make_safe_numerics_action differs at run time");
    chk(cond_class(ec) == class_of(K), "the error-condition comparison gives another class, or several");
    chk(bool(ec) == (K != 0), "error_code is true for success or false for an error");
    chk(!ec.message().empty(), "empty message");
    chk(std::string(sn::literal_string(E)).size() > 0, "empty name");
    chk(std::string(sn::literal_string(E)).find(K == 0 ? "success" : K == 1 ? "positive" : K == 2 ? "negative" : K == 3 ? "domain" : K == 4 ? "range" : K == 5 ? "precision" : K == 6 ? "underflow" : K == 7 ? "negative_value" : K == 8 ? "negative_shift" : K == 9 ? "large" : "uninit") != std::string::npos, "name of another code");
    chk(ec.message().find(K == 0 ? "success" : K == 1 ? "positive" : K == 2 ? "negative" : K == 3 ? "domain" : K == 4 ? "range" : K == 5 ? "precision" : K == 6 ? "underflow" : K == 7 ? "negative value" : K == 8 ? "negative shift" : K == 9 ? "large" : "uninit") != std::string::npos, "message of another code");
    for (int j = 0; j <= 10; ++j) if (j != K) {
        sn::safe_numerics_error F = static_cast<sn::safe_numerics_error>(j);
        chk(ec.message() != make_error_code(F).message(), "message shared with another code");
        chk(std::string(sn::literal_string(E)) != sn::literal_string(F), "name shared with another code");
        chk(ec != make_error_code(F), "equal to another code");
    }
    if (!g_foreign_first) foreign_codes();
    // a result made of the code, thrown by the stock handler
    if (K != 0) { std::string in = "nothing thrown"; try { sn::throw_exception()(E, "description"); } catch (const std::system_error &e) { in = inspect(e); if (e.code().value() != K) in = "thrown code is another"; } catch (...) { in = "another exception"; } chk(in.empty(), ("throw_exception: " + in).c_str()); }
}
#endif
