// S09: histories of updates over typed variables.
#ifndef VERIF_HIST_HPP
#define VERIF_HIST_HPP
#include "binop.hpp"
enum AK { A_OP, A_ASSIGN, A_PREINC, A_PREDEC, A_POSTINC, A_POSTDEC, A_COPY, A_SWAP, A_SETLL, A_SETULL, A_STREAM };
struct Act { int kind, i, j; Row row; void (*fn)(i128, Out &, const char *); };
struct VarD { int td; i128 (*get)(); void (*set)(i128); };
template <int OP> struct OpA;
#define VA(O, S) template <> struct OpA<O> { template <class A, class B> static auto f(A &a, const B &b) { return a S b; } };
VA(ADD, +=) VA(SUB, -=) VA(MUL, *=) VA(DIV, /=) VA(MOD, %=) VA(SHL, <<=) VA(SHR, >>=) VA(OR, |=) VA(AND, &=) VA(XOR, ^=)
#undef VA
template <class T> struct is_b : std::is_integral<T> {};
// bodies; X and Y are accessors
template <int O, class X, class Y> void a_op(i128, Out &o, const char *) { o.v = val(OpA<O>::f(X::v, Y::v)); }
template <class X, class Y> void a_assign(i128, Out &o, const char *) { o.v = val(X::v = Y::v); }
template <class X> void a_preinc(i128, Out &o, const char *) { o.v = val(++X::v); }
template <class X> void a_predec(i128, Out &o, const char *) { o.v = val(--X::v); }
template <class X> void a_postinc(i128, Out &o, const char *) { o.v = val(X::v++); }
template <class X> void a_postdec(i128, Out &o, const char *) { o.v = val(X::v--); }
template <class X, class Y> void a_copy(i128, Out &o, const char *) { auto c(Y::v); X::v = std::move(c); o.v = val(X::v); }
template <class X, class Y> void a_swap(i128, Out &o, const char *) { std::swap(X::v, Y::v); o.v = val(X::v); }
template <class X> void a_setll(i128 a, Out &o, const char *) { o.v = val(X::v = (long long)a); }
template <class X> void a_setull(i128 a, Out &o, const char *) { o.v = val(X::v = (unsigned long long)a); }
template <class X> void a_stream(i128, Out &o, const char *s) { std::istringstream is(s); is >> X::v; o.v = val(X::v); }

struct Machine { const char *pol; const VarD *vars; int nv; const Act *acts; int na; const TD *tds; };
struct Step { int a; i128 arg; std::string text; };
typedef std::vector<i128> State;

struct Hist {
    const Machine &m; Rng &r; Stats &st;
    std::vector<Case> cs;
    Hist(const Machine &m, Rng &r, Stats &st) : m(m), r(r), st(st) {
        static const TD one = {"int", 1, 1, INT32_MIN, INT32_MAX, false, true};
        for (int i = 0; i < m.na; ++i) {
            const Act &a = m.acts[i];
            if (a.kind == A_OP || (a.kind >= A_PREINC && a.kind <= A_POSTDEC)) {
                Row q = a.row; TD d[2] = {td(a.i), a.kind == A_OP ? td(a.j) : one}; q.ti = 0; q.ui = 1; cs.push_back(to_case(q, d));
            } else cs.push_back(Case());
        }
    }
    const TD &td(int v) const { return m.tds[m.vars[v].td]; }
    static bool number(const std::string &s, i128 &v, bool &minus) {
        size_t p = 0; while (p < s.size() && isspace((unsigned char)s[p])) ++p;
        minus = p < s.size() && s[p] == '-'; if (p < s.size() && (s[p] == '-' || s[p] == '+')) ++p;
        if (p >= s.size()) return false;
        v = 0; for (; p < s.size(); ++p) { if (s[p] < '0' || s[p] > '9') return false; v = v * 10 + (s[p] - '0'); }
        if (minus) v = -v; return true;
    }
    // expected effect of a step: value of the target if the step succeeds, and what is allowed
    struct Exp { bool val_ok, err_ok; i128 target, ret; int ti; bool both; i128 other; int tj; };
    Exp expect(const Step &s, const State &x) const {
        const Act &a = m.acts[s.a]; Exp e = {false, true, 0, 0, a.i, false, 0, a.j}; const TD &t = td(a.i);
        bool fit;
        switch (a.kind) {
        case A_OP: case A_PREINC: case A_PREDEC: case A_POSTINC: case A_POSTDEC: {
            Want w = model(cs[s.a], x[a.i], a.kind == A_OP ? x[a.j] : 1);
            fit = w.val_ok && fits(w.m, t.mn, t.mx);
            e.val_ok = fit; e.err_ok = w.err_ok || !fit; e.target = w.m; e.ret = a.kind >= A_POSTINC ? x[a.i] : w.m; return e; }
        case A_ASSIGN: case A_COPY: e.target = e.ret = x[a.j]; break;
        case A_SWAP: e.target = e.ret = x[a.j]; e.both = true; e.other = x[a.i]; break;
        case A_SETLL: case A_SETULL: e.target = e.ret = s.arg; break;
        case A_STREAM: { i128 v; bool minus; if (!number(s.text, v, minus)) return e; e.target = e.ret = v;
            e.val_ok = fits(v, t.mn, t.mx); e.err_ok = !e.val_ok || (minus && v == 0 && t.bmn == 0); return e; }
        }
        e.val_ok = fits(e.target, t.mn, t.mx); e.err_ok = !e.val_ok; return e;
    }
    std::string step_name(const Step &s) const {
        const Act &a = m.acts[s.a]; std::string x = "v" + std::to_string(a.i), y = "v" + std::to_string(a.j);
        switch (a.kind) {
        case A_OP: return x + " " + op_text[a.row.op] + "= " + y; case A_ASSIGN: return x + " = " + y; case A_PREINC: return "++" + x; case A_PREDEC: return "--" + x;
        case A_POSTINC: return x + "++"; case A_POSTDEC: return x + "--"; case A_COPY: return x + " = copy of " + y; case A_SWAP: return "swap(" + x + ", " + y + ")";
        case A_SETLL: return x + " = " + str(s.arg) + "LL"; case A_SETULL: return x + " = " + str(s.arg) + "ULL"; default: return "read \"" + s.text + "\" into " + x; }
    }
    uint64_t n_ok = 0, n_err = 0, n_steps = 0;
    // run; returns "" or what went wrong; at = failing step
    std::string run(const State &init, const std::vector<Step> &h, size_t &at, std::string *log = 0) {
        State x = init; for (int i = 0; i < m.nv; ++i) m.vars[i].set(x[i]);
        for (size_t k = 0; k < h.size(); ++k) {
            at = k; const Step &s = h[k]; const Act &a = m.acts[s.a];
            Exp e = expect(s, x);
            Out o; guard_body(o, [&] { a.fn(s.arg, o, s.text.c_str()); });
            ++n_steps; ++(o.kind == K_VALUE ? n_ok : n_err);
            if (log) *log += "; " + step_name(s) + " -> " + show(o);
            if (o.kind == K_OTHER) return o.code <= -100 ? "crash" : "foreign exception";
            if (o.kind == K_VALUE) {
                if (!e.val_ok) return "succeeded where an error is required";
                if (o.v != e.ret) return "wrong value returned";
                x[e.ti] = e.target; if (e.both) x[e.tj] = e.other;
            } else if (!e.err_ok) return "spurious error";
            for (int i = 0; i < m.nv; ++i) { i128 v = m.vars[i].get();
                if (log) { if (v != x[i]) *log += " (v" + std::to_string(i) + " is " + str(v) + ", expected " + str(x[i]) + ")"; }
                if (v != x[i]) return o.kind == K_ERROR ? "variable changed by a failed operation" : "wrong value stored"; }
        }
        return "";
    }
    std::string gen_text(const TD &t) {
        static const char *const junk[] = {"", " ", "abc", "-", "+", "--1", "x12", "\n\t", "-abc", "+-3"};
        if (r.chance(1, 5)) return junk[r.below(10)];
        i128 v;
        switch (r.below(4)) { case 0: v = r.range(t.mn, t.mx); break; case 1: v = (r.chance(1, 2) ? t.mn : t.mx) + (i128)r.below(5) - 2; break;
            case 2: v = gen_value(r, -((i128)1 << 66), (i128)1 << 66); break; default: v = gen_value(r, t.mn, t.mx); }
        std::string s = str(v); if (v >= 0 && r.chance(1, 8)) s = "+" + s; if (r.chance(1, 8)) s = std::string(1 + r.below(3), r.chance(1, 2) ? ' ' : '\n') + s; return s;
    }
    void go(uint64_t n) {
        uint64_t hb = hstr(m.pol); for (int i = 0; i < m.nv; ++i) hb = hmix(hb, hstr(td(i).name));
        uint64_t longest = 0;
        for (uint64_t it = 0; it < n; ++it) {
            State init; for (int i = 0; i < m.nv; ++i) init.push_back(gen_value(r, td(i).mn, td(i).mx));
            std::vector<Step> h; size_t len = 1 + r.below(r.chance(1, 4) ? 60 : 14); uint64_t hh = hb; for (auto v : init) hh = h128(hh, v);
            for (size_t k = 0; k < len; ++k) {
                Step s{(int)r.below(m.na), 0, ""}; const Act &a = m.acts[s.a]; const TD &t = td(a.i);
                if (a.kind == A_SETLL || a.kind == A_SETULL) { i128 lo = a.kind == A_SETLL ? (i128)INT64_MIN : 0, hi = a.kind == A_SETLL ? (i128)INT64_MAX : (i128)UINT64_MAX;
                    s.arg = r.chance(1, 2) ? gen_value(r, t.mn, t.mx) : r.chance(1, 2) ? (r.chance(1, 2) ? t.mn : t.mx) + (i128)r.below(5) - 2 : gen_value(r, lo, hi);
                    if (!fits(s.arg, lo, hi)) s.arg = gen_value(r, lo, hi); }
                if (a.kind == A_STREAM) s.text = gen_text(t);
                h.push_back(s); hh = h128(hmix(hh, s.a), s.arg); hh = hmix(hh, hstr(s.text.c_str()));
            }
            if (len > longest) longest = len;
            size_t at; std::string f = run(init, h, at);
            ++st.evals; if (len > 1) st.nontrivial(hh);
            if (st.srng.below(2000) == 0) { std::string lg; std::vector<Step> q(h.begin(), h.begin() + std::min<size_t>(h.size(), 5)); size_t z; run(init, q, z, &lg); st.sample(vars(init) + lg); }
            if (f.empty()) continue;
            const Act &fa = m.acts[h[at].a];
            std::string key = std::string("hist|") + m.pol + "|" + std::to_string(fa.kind) + "|" + (fa.kind == A_OP ? op_text[fa.row.op] : "") + "|" + td(fa.i).name + "|" + (fa.j >= 0 ? td(fa.j).name : "") + "|" + f;
            if (!st.want(key)) continue;
            auto bad = [&](const State &i, const std::vector<Step> &q) { size_t z; return !q.empty() && run(i, q, z) == f; };
            if (!(bad(init, h) && bad(init, h) && bad(init, h))) continue;
            h.resize(at + 1);
            for (bool more = true; more;) { more = false; // remove steps
                for (size_t k = 0; k < h.size(); ++k) { std::vector<Step> q = h; q.erase(q.begin() + k); if (bad(init, q)) { h = q; more = true; break; } } }
            for (int i = 0; i < m.nv; ++i) shrink1(init[i], td(i).mn, td(i).mx, [&]() { return bad(init, h); });
            for (auto &s : h) if (m.acts[s.a].kind == A_SETLL || m.acts[s.a].kind == A_SETULL) shrink1(s.arg, m.acts[s.a].kind == A_SETLL ? (i128)INT64_MIN : 0, (i128)INT64_MAX, [&]() { return bad(init, h); });
            std::string lg; run(init, h, at, &lg);
            st.fail(key, vars(init) + lg + " [" + f + "]");
        }
        st.cls("histories", n); st.cls("steps", n_steps); st.cls("steps which succeeded", n_ok); st.cls("steps which failed", n_err); st.classes["longest history"] = std::max<uint64_t>(st.classes["longest history"], longest); st.end_block();
    }
    std::string vars(const State &x) const { std::string s = std::string(m.pol) + ": "; for (int i = 0; i < m.nv; ++i) s += (i ? ", " : "") + std::string(td(i).name) + " v" + std::to_string(i) + "=" + str(x[i]); return s; }
};
#endif
