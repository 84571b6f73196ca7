// S04: random typed expressions, evaluated step by step against exact arithmetic.
#ifndef VERIF_EXPR_HPP
#define VERIF_EXPR_HPP
#include "binop.hpp"
static i128 g_vals[64]; static volatile int g_done = 0; // values of the completed steps
inline void step_done(i128 v) { g_vals[g_done] = v; g_done = g_done + 1; }
enum { X_CONV = 100, X_STORE = 101 };
// one step: operands are leaves (>=0) or earlier steps (-1-k)
struct StepD { int kind, l, r; Row row; i128 dmn, dmx; const char *text; };
template <class D> constexpr StepD conv_step(int kind, int l, const char *text) { return StepD{kind, l, 0, Row(), Lim<D>::mn(), Lim<D>::mx(), text}; }
struct Prog { const char *pol, *whole; const TD *leaf; int nleaf; const StepD *step; int nstep; void (*fn)(const i128 *); };

inline std::string prog_values(const Prog &p, const std::vector<i128> &x) { std::string s; for (int i = 0; i < p.nleaf; ++i) s += std::string(i ? ", " : "") + p.leaf[i].name + " a" + std::to_string(i) + "=" + str(x[i]); return s; }
struct ExprRun {
    const Prog &p; Rng &r; Stats &st; std::vector<Case> cs; uint64_t done_steps = 0, full = 0, stopped = 0;
    ExprRun(const Prog &p, Rng &r, Stats &st) : p(p), r(r), st(st) {
        static const TD none = {"step", 0, 0, 0, 0, true, true};
        for (int k = 0; k < p.nstep; ++k) { Row q = p.step[k].row; TD d[2] = {none, none}; q.ti = 0; q.ui = 1; cs.push_back(p.step[k].kind >= X_CONV ? Case() : to_case(q, d)); }
    }
    static i128 opnd(const std::vector<i128> &x, const i128 *v, int i) { return i >= 0 ? x[i] : v[-1 - i]; }
    // "" or the failure; at = step it happened in
    std::string judge(const std::vector<i128> &x, int &at, Out &o) {
        g_done = 0;
        guard_body(o, [&] { p.fn(x.data()); });
        int n = g_done; i128 v[64]; for (int i = 0; i < n; ++i) v[i] = g_vals[i];
        at = n;
        if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "foreign exception";
        for (int k = 0; k <= n && k < p.nstep; ++k) {
            const StepD &s = p.step[k]; bool ok, err; i128 m;
            if (s.kind >= X_CONV) { m = opnd(x, v, s.l); ok = fits(m, s.dmn, s.dmx); err = !ok; }
            else { Want w = model(cs[k], opnd(x, v, s.l), is_unary(s.kind) ? 1 : opnd(x, v, s.r)); ok = w.val_ok; err = w.err_ok; m = w.m; }
            if (k < n) { if (!ok) { at = k; return "value where an error is required"; } if (v[k] != m) { at = k; return "wrong value"; } }
            else if (!err) { at = k; return "spurious error"; }
        }
        if (o.kind == K_VALUE && n != p.nstep) return "incomplete";
        return "";
    }
    void gen(std::vector<i128> &x) {
        int mode = (int)r.below(4); int bits = 1 + (int)r.below(20);
        for (int i = 0; i < p.nleaf; ++i) {
            const TD &t = p.leaf[i];
            if (mode == 0) x[i] = gen_value(r, t.mn, t.mx);
            else { i128 v = (i128)(r.next() & (((uint64_t)1 << bits) - 1)); if (r.chance(1, 2)) v = -v; if (r.chance(1, 8)) v = gen_value(r, t.mn, t.mx); if (!fits(v, t.mn, t.mx)) v = -v; x[i] = fits(v, t.mn, t.mx) ? v : gen_value(r, t.mn, t.mx); }
        }
        if (r.chance(1, 2)) { // aim one step at a limit
            int k = (int)r.below(p.nstep); const StepD &s = p.step[k]; if (s.kind >= X_CONV) return;
            Out o; int at; g_done = 0; judge(x, at, o); if (g_done < k) return;
            int leaf, other; bool right = s.r >= 0 && !is_unary(s.kind); if (right) { leaf = s.r; other = s.l; } else if (s.l >= 0) { leaf = s.l; other = s.r; } else return;
            i128 a = is_unary(s.kind) ? 0 : opnd(x, g_vals, other), lim, nb; const Case &c = cs[k];
            switch (r.below(4)) { case 0: lim = c.rbmx; break; case 1: lim = c.rbmn; break; case 2: lim = c.ahi; break; default: lim = c.alo; }
            i128 d = (i128)r.below(5) - 2;
            switch (s.kind) { case ADD: nb = lim - a + d; break; case SUB: nb = right ? a - lim + d : lim + a + d; break; case MUL: nb = a ? lim / a + d : d; break;
                case DIV: case MOD: nb = right ? d : lim + d; break; case SHL: case SHR: nb = right ? (i128)r.below(70) - 2 : (a >= 0 && a < 64 ? lim >> (int)a : d) + d; break; default: nb = a + d; }
            if (fits(nb, p.leaf[leaf].mn, p.leaf[leaf].mx)) x[leaf] = nb;
        }
    }
    void go(uint64_t n) {
        std::vector<i128> x(p.nleaf); uint64_t hb = hmix(hstr(p.pol), hstr(p.whole)); for (int i = 0; i < p.nleaf; ++i) hb = hmix(hb, hstr(p.leaf[i].name));
        for (uint64_t it = 0; it < n; ++it) {
            gen(x); Out o; int at; std::string f = judge(x, at, o); int n_done = g_done;
            ++st.evals; done_steps += n_done; if (n_done == p.nstep) ++full; else ++stopped;
            if (n_done >= 2) { uint64_t h = hb; for (auto v : x) h = h128(h, v); st.nontrivial(h); }
            if (st.want_sample()) st.sample(std::string(p.pol) + ": " + prog_values(p, x) + ": " + p.whole + " -> " + (n_done == p.nstep ? "value " + str(g_vals[n_done - 1]) : std::string("error at ") + p.step[n_done].text + ": " + show(o)));
            if (f.empty()) continue;
            std::string key = std::string("expr|") + p.pol + "|" + p.whole + "|" + prog_values(p, std::vector<i128>(p.nleaf)) + "|" + std::to_string(at) + f;
            if (!st.want(key)) continue;
            int k0 = at; auto pred = [&]() { Out q; int z; return judge(x, z, q) == f && z == k0; };
            if (!(pred() && pred() && pred())) continue;
            for (int i = 0; i < p.nleaf; ++i) shrink1(x[i], p.leaf[i].mn, p.leaf[i].mx, pred);
            judge(x, at, o);
            st.fail(key, std::string(p.pol) + ": " + prog_values(p, x) + ": step " + p.step[k0].text + " of " + p.whole + (g_done > k0 ? " -> value " + str(g_vals[k0]) : " -> " + show(o)) + " [" + f + "]");
        }
        st.cls("expressions", 1); st.cls("evaluated to the end", full); st.cls("stopped by an error", stopped); st.cls("steps", done_steps); st.end_block();
    }
};
#endif
