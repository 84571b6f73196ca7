// S25: everything under -fsanitize=undefined with traps; a trap is a "crash" outcome.
#ifndef VERIF_UB_HPP
#define VERIF_UB_HPP
#include "util.hpp"
#include "ext.hpp"
#include "conv.hpp"
#include "binop.hpp"
struct CrashOnly { CrashOnly() { g_crash_only = true; } };
static CrashOnly g_crash_only_init;
inline std::string check_nocrash(const Case &, i128, i128, const Out &o) { return o.kind == K_OTHER && o.code <= -100 ? "crash" : ""; }
inline std::string conv_nocrash(const TD &, const TD &, i128, const Out &o) { return o.kind == K_OTHER && o.code <= -100 ? "crash" : ""; }
// intervals with any bounds, also where nothing is claimed about the result
template <class T> void ub_intervals(const char *tn, Rng &r, Stats &st, uint64_t n) {
    typedef IvRun<T> V; V e{tn, r, st, n};
    const int ops[] = {ADD, SUB, MUL, MOD, SHL, SHR, OR, AND};
    for (uint64_t i = 0; i < n; ++i) {
        int op = ops[r.below(8)]; Iv a = e.gen_fin(e.mn, e.mx), b = e.gen_fin(e.mn, e.mx);
        if ((op == SHL || op == SHR) && r.chance(2, 3)) b = e.gen_fin(clampv(-3, e.mn, e.mx), clampv(70, e.mn, e.mx));
        Out o; V::eval(op, a, b, o); ++st.evals; st.nontrivial(h128(h128(h128(h128(hmix(hstr(tn), op), a.l.v), a.u.v), b.l.v), b.u.v));
        if (o.kind == K_VALUE) continue;
        std::string key = std::string("crash iv|") + tn + "|" + op_text[op]; if (!st.want(key)) continue;
        auto pred = [&]() { Out p; V::eval(op, a, b, p); return p.kind != K_VALUE; };
        if (!(pred() && pred() && pred())) continue;
        e.shrink_iv(a, b, pred); V::eval(op, a, b, o);
        st.fail(key, std::string("interval<checked_result<") + tn + ">>: " + show(a) + " " + op_text[op] + " " + show(b) + " -> " + show(o) + " [crash]");
    }
    st.cls("intervals of any bounds", n); st.end_block();
}
#endif
