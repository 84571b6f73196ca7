// S13/S14: checked results as extended integers. S15/S16: intervals.
#ifndef VERIF_EXT_HPP
#define VERIF_EXT_HPP
#include "fcast.hpp"
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>

typedef sn::safe_numerics_error SE;
// an extended integer: in-range value, -1 = below minimum, +1 = above maximum, 2 = unknown (with a specific code)
struct Xv { int k; i128 v; int code; };
inline std::string show(const Xv &x) { return x.k == 0 ? str(x.v) : x.k == 1 ? "above-max" : x.k == -1 ? "below-min" : std::string("error:") + err_name(x.code); }
template <class T> sn::checked_result<T> mkx(const Xv &x) {
    if (x.k == 0) return sn::checked_result<T>((T)x.v);
    return sn::checked_result<T>(x.k == 1 ? SE::positive_overflow_error : x.k == -1 ? SE::negative_overflow_error : (SE)x.code, "verif");
}
template <class T> Xv rdx(const sn::checked_result<T> &r) {
    SE e = static_cast<SE>(r);
    if (e == SE::success) return Xv{0, (i128)static_cast<T>(r), 0};
    if (e == SE::positive_overflow_error) return Xv{1, 0, 1};
    if (e == SE::negative_overflow_error) return Xv{-1, 0, 2};
    return Xv{2, 0, (int)e};
}
static const int unknown_codes[] = {(int)SE::domain_error, (int)SE::range_error, (int)SE::precision_overflow_error, (int)SE::underflow_error,
    (int)SE::negative_value_shift, (int)SE::negative_shift, (int)SE::shift_too_large, (int)SE::uninitialized_value};
inline bool same(const Xv &a, const Xv &b) { return a.k == b.k && (a.k != 0 || a.v == b.v); }

static bool g_crash_only = false; // S25: crashes of operations about which nothing else is claimed count too
template <class T> struct ExtRun {
    const char *tn; Rng &r; Stats &st; uint64_t n, ex;
    i128 mn = tmin<T>(), mx = tmax<T>();
    Xv gen(int unk = 12) {
        uint64_t k = r.below(unk);
        if (k == 0) return Xv{1, 0, 1};
        if (k == 1) return Xv{-1, 0, 2};
        if (k == 2) return Xv{2, 0, unknown_codes[r.below(8)]};
        return Xv{0, gen_value(r, mn, mx), 0};
    }
    Xv nth(uint64_t i) { // enumeration: all values, both markers, all other errors
        uint64_t w = (uint64_t)(mx - mn) + 1;
        if (i < w) return Xv{0, mn + (i128)i, 0};
        i -= w;
        if (i == 0) return Xv{1, 0, 1};
        if (i == 1) return Xv{-1, 0, 2};
        return Xv{2, 0, unknown_codes[i - 2]};
    }
    static Xv eval(int op, const Xv &a, const Xv &b, Out &o) {
        Xv res{2, 0, 0};
        guard_body(o, [&] {
            sn::checked_result<T> x = mkx<T>(a), y = mkx<T>(b);
            switch (op) {
            case ADD: res = rdx<T>(x + y); break; case SUB: res = rdx<T>(x - y); break; case MUL: res = rdx<T>(x * y); break;
            case DIV: res = rdx<T>(x / y); break; case MOD: res = rdx<T>(x % y); break; case SHL: res = rdx<T>(x << y); break;
            case SHR: res = rdx<T>(x >> y); break; case OR: res = rdx<T>(x | y); break; case AND: res = rdx<T>(x & y); break;
            case XOR: res = rdx<T>(x ^ y); break; case NEG: res = rdx<T>(-x); break; case POS: res = rdx<T>(+x); break; }
        });
        return res;
    }
    static int sgnx(const Xv &x) { return x.k == 1 ? 1 : x.k == -1 ? -1 : x.v > 0 ? 1 : x.v < 0 ? -1 : 0; }
    // "" when the answer is permitted
    std::string judge(int op, const Xv &a, Xv b, const Xv &q) const {
        if (is_unary(op)) {
            if (op == POS) return same(q, a) ? "" : "not the operand";
            if (a.k == 0 && false) return "";
            return judge(SUB, Xv{0, 0, 0}, a, q);
        }
        bool unk = a.k == 2 || b.k == 2;
        if (is_bit(op)) {
            if (a.k || b.k) return q.k == 2 ? "" : "definite result from an error operand";
            i128 m = bits_exact(op, a.v, b.v, mn, mx);
            return q.k == 0 && q.v == m ? "" : "wrong bits";
        }
        if (unk) { // zero times / shifted by anything is zero
            bool az = a.k == 0 && a.v == 0, bz = b.k == 0 && b.v == 0;
            if (q.k == 0 && q.v == 0 && ((op == MUL && (az || bz)) || (op == SHL && az) || (op == SHR && az) || (op == DIV && az) || (op == MOD && az))) return "";
            if (op == DIV || op == MOD) { if (q.k != 0) return q.k == 2 ? "" : "definite marker from an unknown operand"; return "definite value from an unknown operand"; }
            return q.k == 2 ? "" : q.k == 0 ? "definite value from an unknown operand" : "definite marker from an unknown operand";
        }
        if (a.k == 0 && b.k == 0) {
            if (op == SHL || op == SHR) {
                bool left = (op == SHL) == (b.v >= 0);
                i128 k = b.v < 0 ? -b.v : b.v;
                if (a.v < 0) { // the rounding of a negative value shifted right, and the side of a shift that just fits, are not claimed
                    if (k > 200) k = 200;
                    if (!left) { i128 p = k > 120 ? HUGE128 : (i128)1 << k, tr = a.v / p, fl = tr - (a.v % p != 0);
                        return q.k == 0 ? (q.v == tr || q.v == fl ? "" : "wrong value of a negative value shifted right") : q.k == 2 ? "" : "wrong side"; }
                    i128 m = k > 63 ? -HUGE128 : a.v * ((i128)1 << k);
                    if (q.k == 0) return q.v == m ? "" : "wrong value of a negative value shifted left";
                    return q.k == 2 || (q.k == -1 && m <= mn) ? "" : "error although the exact result is well inside the range";
                }
                i128 m = exact(left ? SHL : SHR, a.v, k).m;
                if (fits(m, mn, mx)) return q.k == 0 ? (q.v == m ? "" : "wrong value") : "exact result exists but an error was given";
                return q.k == 1 ? "" : q.k == 2 ? "" : "wrong side";
            }
            Exact e = exact(op, a.v, b.v);
            if (!e.def) return q.k == 0 ? "value for a zero divisor" : "";
            if (fits(e.m, mn, mx)) return q.k == 0 ? (q.v == e.m ? "" : "wrong value") : "exact result exists but an error was given";
            if (q.k == 0) return "value although the exact result is out of range";
            if (q.k == 2) return "";
            return (e.m > mx) == (q.k == 1) ? "" : "wrong side";
        }
        // at least one infinite operand, none unknown
        switch (op) {
        case ADD: case SUB: {
            int sa = a.k, sb = op == SUB ? -b.k : b.k;
            if (sa && sb && sa != sb) return q.k == 2 ? "" : "definite result for infinity minus infinity";
            int s = sa ? sa : sb;
            return q.k == s || q.k == 2 ? "" : "wrong sign or value"; }
        case MUL: {
            int s = sgnx(a) * sgnx(b);
            if (s == 0) return q.k == 2 || (q.k == 0 && q.v == 0) ? "" : "zero times infinity";
            return q.k == s || q.k == 2 ? "" : "wrong sign or value"; }
        case DIV: {
            if (a.k && b.k) return q.k == 2 ? "" : "definite result for infinity / infinity";
            if (b.k) return q.k == 2 || (q.k == 0 && q.v == 0) ? "" : "finite / infinite must be zero";
            if (b.v == 0) return q.k == 0 ? "value for a zero divisor" : "";
            int s = a.k * sgnx(b);
            return q.k == s || q.k == 2 ? "" : "wrong sign or value"; }
        case MOD: if (a.k) return "?"; // not claimed: the remainder of a marker
            return q.k == 2 || (q.k == 0 && q.v == a.v) ? "" : "finite % infinite";
        case SHL: case SHR: {
            int s = sgnx(a);
            if (q.k == 2) return "";
            if (q.k) return q.k == s ? "" : "marker of the wrong sign";
            if (a.k) return "definite value from a shifted marker";
            if (a.v == 0) return q.v == 0 ? "" : "zero shifted is not zero";
            bool left = (op == SHL) == (b.k > 0);
            return !left && (q.v == 0 || (a.v < 0 && q.v == -1)) ? "" : "definite value from a shift by a marker"; }
        default: return "?";
        }
    }
    void run_arith(int op) {
        if (op == NEG && !std::is_signed<T>::value) {}
        uint64_t w = mx - mn < 70000 ? (uint64_t)(mx - mn) + 11 : 0;
        bool un = is_unary(op), exh = w && (un ? w : w * w) <= ex;
        uint64_t total = exh ? (un ? w : w * w) : n, judged = 0, mark = 0, val = 0, unk = 0;
        uint64_t hb = hmix(hstr(tn), op);
        for (uint64_t i = 0; i < total; ++i) {
            Xv a, b{0, 1, 0};
            if (exh) { a = nth(un ? i : i / w); if (!un) b = nth(i % w); }
            else {
                a = gen(); if (!un) b = gen();
                if (a.k == 0 && b.k == 0 && !un && r.chance(1, 2)) {
                    i128 lim = r.chance(1, 2) ? mx : mn, d = (i128)r.below(5) - 2, nb = b.v;
                    switch (op) { case ADD: nb = lim - a.v + d; break; case SUB: nb = a.v - lim + d; break; case MUL: if (a.v) nb = lim / a.v + d; break;
                        case DIV: case MOD: nb = d; break; case SHL: case SHR: nb = (i128)r.below(140) - 70; break; }
                    if (fits(nb, mn, mx)) b.v = nb;
                }
            }
            Out o; Xv q = eval(op, a, b, o);
            std::string j = o.kind != K_VALUE ? "?" : judge(op, a, b, q);
            // not claimed: the remainder of a marker
            bool claimed = is_unary(op) || is_bit(op) || op <= DIV || (a.k == 0 && b.k == 0 && op == MOD) || op == SHL || op == SHR || (op == MOD && a.k != 1 && a.k != -1);
            if (!claimed && !(g_crash_only && o.kind != K_VALUE)) { ++st.excluded; continue; }
            ++judged;
            if (a.k || b.k) ++mark;
            if (q.k == 0) ++val; else ++unk;
            if (!(a.k == 0 && (a.v == 0 || a.v == 1)) && !(b.k == 0 && !un && (b.v == 0 || b.v == 1))) {
                if (exh) st.nontrivial_unique(); else st.nontrivial(h128(h128(hmix(hb, a.k * 8 + b.k * 64 + a.code + 1000 * b.code), a.v), b.v)); }
            auto txt = [&]() { return std::string("checked_result<") + tn + ">: " + (un ? op_text[op] + (" " + show(a)) : show(a) + " " + op_text[op] + " " + show(b)) + " -> "; };
            if (st.want_sample()) st.sample(txt() + show(q));
            if (o.kind == K_VALUE && (j.empty() || j == "?")) continue;
            if (o.kind != K_VALUE) j = "crash or exception: " + show(o);
            else if (op == DIV && a.k && b.k == -a.k && (b.k == 1 || b.k == -1) && q.k == -1) { // the one listed finding
                static const char *const id = "KF1: an infinite checked result divided by one of the opposite sign is marked below-min";
                ++st.known[id]; ++st.excluded; auto &e = st.known_ex[id]; if (e.empty()) e = txt() + show(q); continue; }
            std::string key = std::string("ext|") + tn + "|" + op_text[op] + "|" + j + "|" + std::to_string(a.k) + std::to_string(b.k);
            if (!st.want(key)) continue;
            auto pred = [&]() { Out p; Xv z = eval(op, a, b, p); return p.kind != K_VALUE ? o.kind != K_VALUE : judge(op, a, b, z) == j; };
            if (!(pred() && pred() && pred())) continue;
            if (a.k == 0) shrink1(a.v, mn, mx, pred);
            if (b.k == 0 && !un) shrink1(b.v, mn, mx, pred);
            if (a.k == 0) shrink1(a.v, mn, mx, pred);
            q = eval(op, a, b, o);
            st.fail(key, txt() + (o.kind == K_VALUE ? show(q) : show(o)) + " [" + j + "]");
        }
        st.evals += judged; st.cls(op_text[op], judged); st.cls("error or marker operand", mark); st.cls("in-range result", val); st.cls("error or marker result", unk); st.end_block();
    }
    // three-valued comparison
    static int tri(boost::logic::tribool b) { return b ? 1 : (!b) ? 0 : 2; }
    static int ecmp(int op, const Xv &a, const Xv &b, Out &o) {
        int q = -1;
        guard_body(o, [&] {
            sn::checked_result<T> x = mkx<T>(a), y = mkx<T>(b);
            switch (op) { case LT: q = tri(x < y); break; case LE: q = tri(x <= y); break; case GT: q = tri(x > y); break;
                case GE: q = tri(x >= y); break; case EQ: q = tri(x == y); break; case NE: q = tri(x != y); break; } });
        return q;
    }
    int want_cmp(int op, const Xv &a, const Xv &b) const {
        if (a.k == 2 || b.k == 2) return 2;
        if (a.k == 0 && b.k == 0) return exact(op, a.v, b.v).m ? 1 : 0;
        if (a.k == b.k) return 2;
        i128 x = a.k ? (i128)a.k * HUGE128 : a.v, y = b.k ? (i128)b.k * HUGE128 : b.v;
        return exact(op, x, y).m ? 1 : 0;
    }
    void run_cmp3(int op) {
        uint64_t w = mx - mn < 70000 ? (uint64_t)(mx - mn) + 11 : 0;
        bool exh = w && w * w <= ex;
        uint64_t total = exh ? w * w : n, ind = 0, mark = 0;
        uint64_t hb = hmix(hstr(tn), op);
        static const char *const tt[] = {"false", "true", "indeterminate"};
        for (uint64_t i = 0; i < total; ++i) {
            Xv a, b;
            if (exh) { a = nth(i / w); b = nth(i % w); }
            else { a = gen(); b = gen(); if (a.k == 0 && b.k == 0 && r.chance(1, 2)) { i128 c = a.v + (i128)r.below(3) - 1; if (fits(c, mn, mx)) b.v = c; } }
            Out o; int q = ecmp(op, a, b, o), wv = want_cmp(op, a, b);
            if (wv == 2) ++ind;
            if (a.k || b.k) ++mark;
            if (!same(a, b)) { if (exh) st.nontrivial_unique(); else st.nontrivial(h128(h128(hmix(hb, a.k * 8 + b.k * 64 + a.code + 1000 * b.code), a.v), b.v)); }
            auto txt = [&]() { return std::string("checked_result<") + tn + ">: " + show(a) + " " + op_text[op] + " " + show(b) + " -> "; };
            if (st.want_sample()) st.sample(txt() + (q >= 0 ? tt[q] : "?"));
            // consistency between the operators
            Out o2; static const int mir[] = {GT, GE, LT, LE, EQ, NE}, neg[] = {GE, GT, LE, LT, NE, EQ};
            int m = ecmp(mir[op - LT], b, a, o2), g = ecmp(neg[op - LT], a, b, o2);
            std::string j;
            if (q < 0) j = "crash or exception";
            else if (q != wv) j = std::string("expected ") + tt[wv];
            else if (m != q) j = "differs from the mirrored comparison";
            else if (g != (q == 2 ? 2 : 1 - q)) j = "differs from the negated comparison";
            if (j.empty()) continue;
            std::string key = std::string("cmp|") + tn + "|" + op_text[op] + "|" + j + "|" + std::to_string(a.k) + std::to_string(b.k);
            if (!st.want(key)) continue;
            auto pred = [&]() { Out p; int z = ecmp(op, a, b, p); return z != want_cmp(op, a, b); };
            if (pred() && pred() && pred()) { if (a.k == 0) shrink1(a.v, mn, mx, pred); if (b.k == 0) shrink1(b.v, mn, mx, pred); q = ecmp(op, a, b, o);
                j = q < 0 ? "crash" : std::string("expected ") + tt[want_cmp(op, a, b)]; }
            st.fail(key, txt() + (q >= 0 ? tt[q] : "?") + " [" + j + "]");
        }
        st.evals += total; st.cls(op_text[op], total); st.cls("indeterminate expected", ind); st.cls("error or marker operand", mark); st.end_block();
    }
};

// ---------------------------------------------------------------- intervals
struct Iv { Xv l, u; };
inline std::string show(const Iv &i) { return "[" + show(i.l) + "," + show(i.u) + "]"; }
template <class T> struct IvRun {
    typedef sn::checked_result<T> C; typedef sn::interval<C> I; typedef sn::interval<T> J;
    const char *tn; Rng &r; Stats &st; uint64_t n;
    i128 mn = tmin<T>(), mx = tmax<T>();
    static I mki(const Iv &i) { return I(mkx<T>(i.l), mkx<T>(i.u)); }
    static J mkj(const Iv &i) { return J((T)i.l.v, (T)i.u.v); }
    static Iv rdi(const I &i) { return Iv{rdx<T>(i.l), rdx<T>(i.u)}; }
    static Iv rdj(const J &i) { return Iv{Xv{0, (i128)i.l, 0}, Xv{0, (i128)i.u, 0}}; }
    i128 lo(const Xv &x) const { return x.k == 0 ? x.v : x.k == 1 ? mx + 1 : -HUGE128; }
    // finite interval inside [a,b]
    Iv gen_fin(i128 a, i128 b) {
        i128 x = gen_value(r, a, b), y;
        switch (r.below(5)) { case 0: y = x; break; case 1: y = clampv(x + (i128)r.below(4), a, b); break; case 2: y = clampv(x + (i128)r.below(300), a, b); break; default: y = gen_value(r, a, b); }
        if (x > y) std::swap(x, y);
        return Iv{Xv{0, x, 0}, Xv{0, y, 0}};
    }
    Iv gen(i128 a, i128 b, bool inf) {
        Iv i = gen_fin(a, b);
        if (inf && r.chance(1, 4)) { if (r.chance(1, 2) && a == mn) i.l = Xv{-1, 0, 2}; if (r.chance(1, 2) && b == mx) i.u = Xv{1, 0, 1}; }
        return i;
    }
    i128 point(const Iv &i) {
        i128 a = i.l.k ? mn - 3 : i.l.v, b = i.u.k ? mx + 3 : i.u.v;
        switch (r.below(6)) { case 0: return a; case 1: return b; case 2: return clampv((i128)r.below(3) - 1, a, b); case 3: return clampv(a + 1, a, b); case 4: return clampv(b - 1, a, b); default: return r.range(a, b); }
    }
    static Iv eval(int op, const Iv &a, const Iv &b, Out &o) {
        Iv q{Xv{2, 0, 0}, Xv{2, 0, 0}};
        guard_body(o, [&] {
            I x = mki(a), y = mki(b);
            switch (op) { case ADD: q = rdi(x + y); break; case SUB: q = rdi(x - y); break; case MUL: q = rdi(x * y); break; case DIV: q = rdi(x / y); break;
                case MOD: q = rdi(x % y); break; case SHL: q = rdi(x << y); break; case SHR: q = rdi(x >> y); break; case OR: q = rdi(x | y); break; case AND: q = rdi(x & y); break; }
        });
        return q;
    }
    bool low_ok(const Xv &l, i128 m) const { return l.k == 2 || l.k == -1 || (l.k == 1 ? m > mx : l.v <= m); }
    bool high_ok(const Xv &u, i128 m) const { return u.k == 2 || u.k == 1 || (u.k == -1 ? m < mn : u.v >= m); }
    void run_op(int op) {
        uint64_t hb = hmix(hstr(tn), op), done = 0, inf = 0, pts = 0;
        for (uint64_t i = 0; i < n; ++i) {
            Iv a, b;
            if (op == SHL || op == SHR) { a = gen(r.chance(1, 3) ? mn : 0, mx, true); a.l.k == -1 ? (void)(a.l = Xv{0, 0, 0}) : (void)0; b = r.chance(3, 4) ? gen_fin(0, sizeof(T) * 8 + 2) : gen_fin(0, mx); }
            else if (op == DIV || op == MOD) { a = gen(mn, mx, op == DIV); b = (mn < 0 && r.chance(1, 2)) ? gen(mn, op == DIV ? -1 : mx, false) : gen(op == DIV ? 1 : mn, mx, op == DIV);
                if (r.chance(1, 3)) { b = gen_fin(op == DIV ? 1 : (mn < 0 ? -4 : 0), 8); } if (op == DIV && b.l.k == 0 && b.u.k == 0 && b.l.v <= 0 && b.u.v >= 0) continue; }
            else { a = gen(mn, mx, true); b = gen(mn, mx, true); }
            bool fin = !a.l.k && !a.u.k && !b.l.k && !b.u.k;
            Out o; Iv q = eval(op, a, b, o);
            ++done; if (!fin) ++inf;
            st.nontrivial(h128(h128(h128(h128(hmix(hb, a.l.k + 3 * a.u.k + 9 * b.l.k + 27 * b.u.k), a.l.v), a.u.v), b.l.v), b.u.v));
            auto txt = [&]() { return std::string("interval<checked_result<") + tn + ">>: " + show(a) + " " + op_text[op] + " " + show(b) + " -> " + show(q); };
            if (st.want_sample()) st.sample(txt());
            std::string why, cls;
            auto judge = [&]() -> bool { // true: violated
                why.clear();
                Out p; q = eval(op, a, b, p);
                if (p.kind != K_VALUE) { why = show(p); cls = "crash"; return true; }
                if (op == OR || op == AND) return false;
                Rng save = r;
                for (int k = 0; k < 24; ++k) {
                    i128 x = k == 0 || k == 1 ? (a.l.k ? point(a) : a.l.v) : k == 2 || k == 3 ? (a.u.k ? point(a) : a.u.v) : point(a);
                    i128 y = k == 0 || k == 2 ? (b.l.k ? point(b) : b.l.v) : k == 1 || k == 3 ? (b.u.k ? point(b) : b.u.v) : point(b);
                    if ((op == DIV || op == MOD) && y == 0) continue;
                    if ((op == SHL || op == SHR) && x < 0) continue; // an error, whatever the count
                    Exact e = exact(op, x, y); if (!e.def) continue;
                    ++pts;
                    if (!low_ok(q.l, e.m) || !high_ok(q.u, e.m)) { why = str(x) + " " + op_text[op] + " " + str(y) + " = " + str(e.m) + " is outside"; cls = "not enclosed"; r = save; return true; }
                }
                r = save; r.next();
                if (op <= MUL && fin) {
                    i128 c[4] = {exact(op, a.l.v, b.l.v).m, exact(op, a.l.v, b.u.v).m, exact(op, a.u.v, b.l.v).m, exact(op, a.u.v, b.u.v).m};
                    i128 l = *std::min_element(c, c + 4), u = *std::max_element(c, c + 4);
                    if (q.l.k == 0 && q.l.v != l) { why = "lower bound is not attained (least is " + str(l) + ")"; cls = "loose"; return true; }
                    if (q.u.k == 0 && q.u.v != u) { why = "upper bound is not attained (greatest is " + str(u) + ")"; cls = "loose"; return true; }
                }
                return false;
            };
            if (!judge()) continue;
            std::string key = std::string("iv|") + tn + "|" + op_text[op] + "|" + cls;
            if (!st.want(key)) continue;
            if (!(judge() && judge() && judge())) continue;
            shrink_iv(a, b, judge);
            judge();
            st.fail(key, txt() + " [" + why + "]");
        }
        st.evals += done; st.cls(op_text[op], done); st.cls("with an unbounded operand", inf); st.cls("member points evaluated", pts); st.end_block();
    }
    template <class P> void shrink_iv(Iv &a, Iv &b, P pred) {
        Xv *xs[4] = {&a.l, &a.u, &b.l, &b.u};
        bool divisor0 = b.l.k == 0 && b.u.k == 0 && (b.l.v > 0 || b.u.v < 0);
        auto ok = [&]() { if (a.l.k == 0 && a.u.k == 0 && a.l.v > a.u.v) return false; if (b.l.k == 0 && b.u.k == 0 && b.l.v > b.u.v) return false;
            if (divisor0 && b.l.k == 0 && b.u.k == 0 && b.l.v <= 0 && b.u.v >= 0) return false; return true; };
        i128 alo = a.l.k == 0 && a.l.v >= 0 ? 0 : mn, blo = b.l.k == 0 && b.l.v >= 0 ? 0 : mn;
        for (int round = 0; round < 3; ++round) for (int i = 0; i < 4; ++i) if (xs[i]->k == 0)
            shrink1(xs[i]->v, i < 2 ? alo : blo, mx, [&]() { return ok() && pred(); });
    }
    // union and intersection, on extended and on plain integers
    void run_sets() {
        uint64_t hb = hmix(hstr(tn), 777), done = 0;
        for (uint64_t i = 0; i < n; ++i) {
            bool plain = r.chance(1, 2);
            Iv a = gen(mn, mx, !plain), b = gen(mn, mx, !plain);
            if (r.chance(1, 3) && !a.l.k && !a.u.k) { i128 x = clampv(a.u.v + (i128)r.below(3) - 1, mn, mx), y = clampv(x + (i128)r.below(5), mn, mx); b = Iv{Xv{0, x, 0}, Xv{0, y, 0}}; }
            std::string why;
            auto judge = [&]() -> bool {
                why.clear(); Iv un, in; Out o;
                guard_body(o, [&] { if (plain) { un = rdj(mkj(a) | mkj(b)); in = rdj(mkj(a) & mkj(b)); } else { un = rdi(mki(a) | mki(b)); in = rdi(mki(a) & mki(b)); } });
                if (o.kind != K_VALUE) { why = show(o); return true; }
                Rng save = r; bool bad = false;
                for (int k = 0; k < 24 && !bad; ++k) {
                    i128 x = k % 3 == 0 ? point(a) : k % 3 == 1 ? point(b) : (k < 12 ? gen_value(r, mn, mx) : point(r.chance(1, 2) ? a : b) + (i128)r.below(3) - 1);
                    bool ia = low_ok(a.l, x) && high_ok(a.u, x), ib = low_ok(b.l, x) && high_ok(b.u, x);
                    if ((ia || ib) && !(low_ok(un.l, x) && high_ok(un.u, x))) { bad = true; why = "union " + show(un) + " misses " + str(x); }
                    else if ((ia && ib) != (low_ok(in.l, x) && high_ok(in.u, x))) { bad = true; why = "intersection " + show(in) + " is wrong about " + str(x); }
                }
                r = save; r.next(); return bad; };
            ++done; st.nontrivial(h128(h128(h128(h128(hmix(hb, a.l.k + 3 * a.u.k + 9 * b.l.k + 27 * b.u.k + 100 * plain), a.l.v), a.u.v), b.l.v), b.u.v));
            if (!judge()) continue;
            std::string key = std::string("sets|") + tn + (plain ? "|plain|" : "|ext|") + why.substr(0, 6);
            if (!st.want(key)) continue;
            if (!(judge() && judge() && judge())) continue;
            shrink_iv(a, b, judge); judge();
            st.fail(key, std::string(plain ? "interval<" : "interval<checked_result<") + tn + ">: " + show(a) + ", " + show(b) + " [" + why + "]");
        }
        st.evals += done; st.cls("union / intersection", done); st.end_block();
    }
    // -------- predicates (S16)
    enum { INC, EXC, INCP, EXCP, INT, PLT, PGT, PLE, PGE, PEQ, PNE, NPRED };
    static const char *pname(int p) { static const char *n[] = {"includes", "excludes", "includes point", "excludes point", "intersect", "<", ">", "<=", ">=", "==", "!="}; return n[p]; }
    static int tri(boost::logic::tribool b) { return b ? 1 : (!b) ? 0 : 2; }
    template <class X> static int pe(int p, const X &x, const X &y) {
        switch (p) { case INC: return tri(x.includes(y)); case EXC: return tri(x.excludes(y)); case INCP: return tri(x.includes(y.l)); case EXCP: return tri(x.excludes(y.l));
            case INT: return tri(intersect(x, y)); case PLT: return tri(x < y); case PGT: return tri(x > y); case PLE: return tri(x <= y); case PGE: return tri(x >= y);
            default: return -1; } }
    static int peq(int p, const J &x, const J &y) { return p == PEQ ? x == y : x != y; }
    static int peval(int p, bool plain, const Iv &a, const Iv &b, Out &o) { int q = -1; guard_body(o, [&] { q = p == PEQ || p == PNE ? peq(p, mkj(a), mkj(b)) : plain ? pe(p, mkj(a), mkj(b)) : pe(p, mki(a), mki(b)); }); return q; }
    struct F { i128 l, u; };
    static bool truth(int p, F a, F b) {
        switch (p) { case INC: return a.l <= b.l && b.u <= a.u; case EXC: return b.u < a.l || a.u < b.l; case INCP: return a.l <= b.l && b.l <= a.u; case EXCP: return b.l < a.l || b.l > a.u;
            case INT: return a.u >= b.l && a.l <= b.u; case PEQ: return a.l == b.l && a.u == b.u; case PNE: return !(a.l == b.l && a.u == b.u); default: return false; } }
    // set of answers which are right for some reading of the operands: bit 0 false, bit 1 true, bit 2 "neither"
    static int order(int p, F a, F b) { // 1 holds for all pairs, 0 fails for all pairs, 2 otherwise
        bool all, none;
        switch (p) { case PLT: all = a.u < b.l; none = a.l >= b.u; break; case PGT: all = a.l > b.u; none = a.u <= b.l; break;
            case PLE: all = a.u <= b.l; none = a.l > b.u; break; default: all = a.l >= b.u; none = a.u < b.l; }
        return all ? 1 : none ? 0 : 2; }
    void cands(const Xv &x, std::vector<i128> &v) const {
        if (x.k == 0) v = {x.v}; else if (x.k == 1) v = {mx + 1, mx + 50, HUGE128}; else if (x.k == -1) v = {mn - 1, mn - 50, -HUGE128};
        else v = {-HUGE128, mn, mn - 1, 0, mx, mx + 1, HUGE128}; }
    std::string pjudge(int p, bool plain, const Iv &a, const Iv &b, int q) const {
        bool fin = !a.l.k && !a.u.k && !b.l.k && !b.u.k;
        if (q < 0) return "crash or exception";
        if (fin) {
            F x{a.l.v, a.u.v}, y{b.l.v, b.u.v};
            if (p >= PLT && p <= PGE) {
                int w = order(p, x, y); bool disjoint = x.u < y.l || x.l > y.u;
                if (q != 2 && q != w) return "wrong";
                if (q == 2 && disjoint) return "indeterminate for disjoint intervals";
                return ""; }
            return q == (truth(p, x, y) ? 1 : 0) ? "" : "wrong";
        }
        if (p == PEQ || p == PNE) return ""; // two-valued, not claimed for bounds which aren't known
        if (q == 2) return "";
        std::vector<i128> al, au, bl, bu; cands(a.l, al); cands(a.u, au); cands(b.l, bl); cands(b.u, bu);
        if (a.l.k == 2 && a.u.k == 0) al.push_back(a.u.v); if (a.u.k == 2 && a.l.k == 0) au.push_back(a.l.v);
        if (b.l.k == 2 && b.u.k == 0) bl.push_back(b.u.v); if (b.u.k == 2 && b.l.k == 0) bu.push_back(b.l.v);
        for (i128 w : al) for (i128 x : au) if (w <= x) for (i128 y : bl) for (i128 z : bu) if (y <= z) {
            F f{w, x}, g{y, z};
            int t = p >= PLT && p <= PGE ? order(p, f, g) : truth(p, f, g);
            if (t != q) return "definite answer which the unknown bounds don't warrant"; }
        return "";
    }
    void run_pred(int p) {
        uint64_t hb = hmix(hstr(tn), 900 + p), done = 0, marks = 0, def = 0;
        static const char *const tt[] = {"false", "true", "indeterminate"};
        for (uint64_t i = 0; i < n; ++i) {
            bool plain = p == PEQ || p == PNE || r.chance(1, 3);
            Iv a = gen_fin(mn, mx), b = gen_fin(mn, mx);
            if (r.chance(1, 2)) { // touching / nested / equal
                i128 x = clampv((r.chance(1, 2) ? a.u.v : a.l.v) + (i128)r.below(3) - 1, mn, mx), y;
                switch (r.below(4)) { case 0: y = clampv(a.u.v + (i128)r.below(3) - 1, mn, mx); break; case 1: y = x; break; case 2: y = clampv(a.l.v + (i128)r.below(3) - 1, mn, mx); break; default: y = gen_value(r, mn, mx); }
                if (x > y) std::swap(x, y); b = Iv{Xv{0, x, 0}, Xv{0, y, 0}}; }
            if (r.chance(1, 10)) b = a;
            if (!plain && r.chance(1, 2)) {
                Xv *xs[4] = {&a.l, &a.u, &b.l, &b.u};
                for (int k = 0; k < 4; ++k) if (r.chance(1, 3)) { int z = (int)r.below(4); *xs[k] = z == 3 ? Xv{2, 0, unknown_codes[r.below(8)]} : (k % 2 == 0) == (z != 0) ? Xv{-1, 0, 2} : Xv{1, 0, 1}; }
                if (a.l.k == 1) a.u = Xv{1, 0, 1}; if (a.u.k == -1) a.l = Xv{-1, 0, 2}; if (b.l.k == 1) b.u = Xv{1, 0, 1}; if (b.u.k == -1) b.l = Xv{-1, 0, 2};
            }
            if (p == INCP || p == EXCP) b.u = b.l;
            Out o; int q = peval(p, plain, a, b, o);
            ++done; if (a.l.k || a.u.k || b.l.k || b.u.k) ++marks; if (q == 0 || q == 1) ++def;
            st.nontrivial(h128(h128(h128(h128(hmix(hb, a.l.k + 5 * a.u.k + 25 * b.l.k + 125 * b.u.k + 700 * plain), a.l.v), a.u.v), b.l.v), b.u.v));
            auto txt = [&]() { return std::string(plain ? "interval<" : "interval<checked_result<") + tn + ">: " + show(a) + " " + pname(p) + " " + show(b) + " -> " + (q >= 0 ? tt[q] : "?"); };
            if (st.want_sample()) st.sample(txt());
            std::string j = pjudge(p, plain, a, b, q);
            if (j.empty()) continue;
            std::string key = std::string("pred|") + tn + "|" + pname(p) + "|" + j + (plain ? "|plain" : "");
            if (!st.want(key)) continue;
            auto pred = [&]() { Out z; q = peval(p, plain, a, b, z); return pjudge(p, plain, a, b, q) == j; };
            if (!(pred() && pred() && pred())) continue;
            if (p == INCP || p == EXCP) {} else shrink_iv(a, b, pred);
            pred();
            st.fail(key, txt() + " [" + j + "]");
        }
        st.evals += done; st.cls(pname(p), done); st.cls("with unknown bounds", marks); st.cls("definite answers", def); st.end_block();
    }
};
#endif
