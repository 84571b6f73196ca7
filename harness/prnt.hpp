// S28: printed ranges, intervals and checked results.
#ifndef VERIF_PRNT_HPP
#define VERIF_PRNT_HPP
#include "ops.hpp"
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/range_value.hpp>
#include <iostream>
// text of a number in the given base; negative ones wrap at the given width
inline std::string numtext(i128 v, int bits, int base) {
    if (base == 10) return str(v);
    u128 u = v < 0 ? (u128)v & ((((u128)1) << bits) - 1) : (u128)v; std::string s;
    do { s.insert(s.begin(), "0123456789abcdef"[(int)(u % base)]); u /= base; } while (u);
    return s;
}
enum { PR_RANGE, PR_DISPLAY, PR_VALUE, PR_HEX, PR_OCT, PR_IV, PR_CR, PR_IVCR, NPR };
static const char *const PRN[] = {"range_value", "result_display", "value", "hexadecimal value", "octal value", "interval", "checked_result", "interval of checked_result"};
template <class C> std::string narrowed(const std::basic_string<C> &s) { std::string o; for (C c : s) o += c > 0 && c < 128 ? (char)c : '?'; return o; }
// a safe type
template <class T, class C> std::string pr_safe(int what, i128 v) {
    std::basic_ostringstream<C> os; const T x = Mk<T>::mk(v);
    if (what == PR_RANGE) os << make_range_value(x); else if (what == PR_DISPLAY) os << make_result_display(x); else if (what == PR_HEX) os << std::hex << x; else if (what == PR_OCT) os << std::oct << x; else if (what == PR_IV) os << sn::make_interval<T>(); else os << x;
    return narrowed(os.str());
}
typedef std::string (*PrFn)(int, i128);
struct PRow { PrFn f[2]; int bits; };
template <class T> constexpr PRow make_prow() { return PRow{{&pr_safe<T, char>, &pr_safe<T, wchar_t>}, (int)sizeof(base_t<T>) * 8}; }
inline std::string want_safe(int what, i128 v, const TD &t, int bits) {
    std::string b = "[" + str(t.mn) + "," + str(t.mx) + "]";
    if (what == PR_RANGE) return b + str(v);
    if (what == PR_DISPLAY) return "[" + numtext(t.mn, bits, 16) + "," + numtext(t.mx, bits, 16) + "]" + numtext(v, bits, 16) + "(" + str(v) + ")";
    if (what == PR_HEX || what == PR_OCT) return numtext(v, bits, what == PR_HEX ? 16 : 8);
    return what == PR_IV ? b : str(v);
}
inline void run_prsafe(const PRow &q, const TD &t, Rng &r, Stats &st, uint64_t n) {
    for (int what : {PR_RANGE, PR_DISPLAY, PR_IV, PR_VALUE, PR_HEX, PR_OCT}) {
        for (uint64_t i = 0; i < n; ++i) {
            i128 v = gen_value(r, t.mn, t.mx); bool wide = r.chance(1, 4);
            Out o; std::string got; auto run = [&] { got.clear(); guard_body(o, [&] { got = q.f[wide](what, v); }); if (o.kind != K_VALUE) return true;
                for (int bits = q.bits; bits <= 64; bits *= 2) if (got == want_safe(what, v, t, bits)) return false; // hexadecimal digits of a negative number: any width which holds the type
                return true; };
            bool bad = run(); ++st.evals; st.cls(PRN[what]);
            if (v < 0 || v > 9) st.nontrivial(h128(hmix(hstr(t.name), what), v));
            if (st.want_sample()) st.sample(std::string(PRN[what]) + " of " + t.name + "{" + str(v) + "} -> " + got);
            if (!bad) continue;
            std::string key = std::string(PRN[what]) + "|" + t.name; if (!st.want(key)) continue;
            shrink1(v, t.mn, t.mx, run); run();
            st.fail(key, std::string(PRN[what]) + (wide ? " (wide stream)" : "") + " of " + t.name + "{" + str(v) + "} -> \"" + got + "\", expected \"" + want_safe(what, v, t, q.bits) + "\"");
        }
        st.end_block();
    }
}
// plain intervals and checked results over a built-in type
template <class T> struct PrBuilt {
    const char *tn; Rng &r; Stats &st; uint64_t n;
    typedef sn::checked_result<T> C;
    static C mk(i128 v, int e, const char *m) { return e ? C((sn::safe_numerics_error)e, m) : C((T)v); }
    static std::string want_c(i128 v, int e, const char *m) { return e ? "1" + sn::make_error_code((sn::safe_numerics_error)e).message() + ":" + m : "0" + str(v); }
    template <class X> static std::string text(const X &x, bool wide, std::true_type) { if (wide) { std::wostringstream os; os << x; return narrowed(os.str()); } return text(x, false, std::false_type()); }
    template <class X> static std::string text(const X &x, bool, std::false_type) { std::ostringstream os; os << x; return os.str(); }
    void go() {
        const i128 mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
        static const char *const msgs[] = {"", "multiplication overflow", "x", "a:b [1,2]"};
        for (int what : {PR_IV, PR_CR, PR_IVCR}) {
            // a character type other than signed char is printed as a character in a checked result
            if (what != PR_IV && std::is_same<T, unsigned char>::value) continue;
            for (uint64_t i = 0; i < n; ++i) {
                i128 a = gen_value(r, mn, mx), b = gen_value(r, mn, mx); if (a > b) std::swap(a, b);
                int e = 0, f = 0; const char *m = msgs[r.below(4)];
                if (what != PR_IV && r.chance(1, 3)) e = 1 + (int)r.below(9);
                if (what == PR_IVCR && r.chance(1, 3)) f = 1 + (int)r.below(9);
                bool wide = what == PR_IV && r.chance(1, 4); std::string got, want;
                auto run = [&] {
                    Out o; got.clear();
                    guard_body(o, [&] {
                        if (what == PR_IV) got = text(sn::interval<T>((T)a, (T)b), wide, std::true_type());
                        else if (what == PR_CR) got = text(mk(a, e, m), false, std::false_type());
                        else got = text(sn::interval<C>(mk(a, e, m), mk(b, f, m)), false, std::false_type()); });
                    want = what == PR_IV ? "[" + str(a) + "," + str(b) + "]" : what == PR_CR ? want_c(a, e, m) : "[" + want_c(a, e, m) + "," + want_c(b, f, m) + "]";
                    return o.kind != K_VALUE || got != want; };
                bool bad = run(); ++st.evals; st.cls(PRN[what]); if (e || f) st.cls("with an error");
                if (e || f || a < 0 || a > 9) st.nontrivial(h128(h128(hmix(hmix(hstr(tn), what), e * 16 + f), a), what == PR_CR ? 0 : b));
                if (st.want_sample()) st.sample(std::string(PRN[what]) + " over " + tn + " -> " + got);
                if (!bad) continue;
                std::string key = std::string(PRN[what]) + "|" + tn; if (!st.want(key)) continue;
                shrink1(a, mn, b, run); shrink1(b, a, mx, run); run();
                st.fail(key, std::string(PRN[what]) + (wide ? " (wide stream)" : "") + " over " + tn + " -> \"" + got + "\", expected \"" + want + "\"");
            }
            st.end_block();
        }
    }
};
#endif
