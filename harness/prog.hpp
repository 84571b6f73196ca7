// S31: whole programs, written once, run with safe integers and with an independent model of an integer type which does
// exact arithmetic in the C++ type of each expression (64 bits under the automatic policy) and throws when it can't.
#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP
#include "ops.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <stack>
#include <tuple>
#include <boost/rational.hpp>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
#if __cplusplus >= 202002L
#include <compare>
#include <ranges>
#include <span>
#endif

namespace vp {
struct Must : std::exception {};  // the operation has to report an error
struct May {};                    // it may report an error or go on: nothing after this point is compared

// ---------------------------------------------------------------- the model
template <class T, int P, T Lo = std::numeric_limits<T>::min(), T Hi = std::numeric_limits<T>::max()> struct M;
template <class A> struct tr { typedef A base; enum { m = 0, full = 1, pol = -1, ok = std::is_integral<A>::value }; };
template <class T, int P, T L, T H> struct tr<M<T, P, L, H>> { typedef T base; enum { m = 1, full = L == std::numeric_limits<T>::min() && H == std::numeric_limits<T>::max(), pol = P, ok = 1 }; };
template <class A, std::enable_if_t<std::is_integral<A>::value, int> = 0> constexpr i128 mv(const A &a) { return (i128)a; }
template <class T, int P, T L, T H> constexpr i128 mv(const M<T, P, L, H> &a) { return (i128)a.v; }
template <class T> constexpr bool in(i128 x) { return x >= (i128)std::numeric_limits<T>::min() && x <= (i128)std::numeric_limits<T>::max(); }

template <class T, int P, T Lo, T Hi> struct M {
    T v;
    static constexpr T chk(i128 x) { return x < (i128)Lo || x > (i128)Hi ? throw Must() : (T)x; }
    template <class A, std::enable_if_t<tr<A>::ok, int> = 0> constexpr M(const A &a) : v(chk(mv(a))) {}
    template <class R, std::enable_if_t<std::is_integral<R>::value, int> = 0> constexpr operator R() const { return in<R>((i128)v) ? (R)v : throw Must(); }
    void step(int d) const { if ((P & 1) && !((i128)v + d <= (i128)INT64_MAX && (i128)v <= (i128)INT64_MAX)) throw May(); }
    M &operator++() { step(1); v = chk((i128)v + 1); return *this; }
    M &operator--() { step(0); v = chk((i128)v - 1); return *this; }
    M operator++(int) { M o = *this; ++*this; return o; }
    M operator--(int) { M o = *this; --*this; return o; }
};
// a step of one within the C++ type of x + 1
template <class A, class B> using two = std::enable_if_t<tr<A>::ok && tr<B>::ok && (tr<A>::m || tr<B>::m), int>;
template <class A, class B> struct pol_of { enum { p = tr<A>::m ? (int)tr<A>::pol : (int)tr<B>::pol }; };
template <int P, class C> struct res { typedef std::conditional_t<!(P & 1), C, long> type; };

template <int O, class A, class B> auto arith(const A &a, const B &b) {
    enum { P = pol_of<A, B>::p };
    typedef decltype(std::declval<typename tr<A>::base>() + std::declval<typename tr<B>::base>()) C;
    typedef typename res<P, C>::type R;
    i128 x = mv(a), y = mv(b), m = 0;
    bool fit = true;
    switch (O) {
    case ADD: m = x + y; break;
    case SUB: m = x - y; break;
    case MUL: fit = !__builtin_mul_overflow(x, y, &m); break;
    case DIV: case MOD: if (y == 0) throw Must(); m = O == DIV ? x / y : x % y; break;
    }
    if (!(P & 1)) { if (!fit || !in<C>(m)) throw Must(); if (!in<C>(x) || !in<C>(y)) throw May(); }
    else { if (!fit || !(in<long>(m) || in<unsigned long>(m))) throw Must(); if (!in<long>(m) || !in<long>(x) || !in<long>(y)) throw May(); }
    return M<R, P>((R)m);
}
template <int O, class A, class B> auto bits(const A &a, const B &b) {
    enum { P = pol_of<A, B>::p };
    typedef decltype(std::declval<typename tr<A>::base>() + std::declval<typename tr<B>::base>()) C;
    typedef typename res<P, C>::type R;
    C x = (C)mv(a), y = (C)mv(b), m = O == OR ? x | y : O == AND ? x & y : x ^ y;
    if (!in<R>((i128)m)) throw May();
    return M<R, P>((R)m);
}
template <int O, class A, class B> auto shift(const A &a, const B &b) {
    enum { P = pol_of<A, B>::p };
    typedef decltype(+std::declval<typename tr<A>::base>()) C;
    typedef typename res<P, C>::type R;
    const i128 x = mv(a), y = mv(b);
    const int w = !(P & 1) ? sizeof(C) * 8 : sizeof(typename tr<A>::base) * 8;
    if (x < 0 || y < 0 || y >= w || (x == 0 && O == SHL) || ((P & 1) && !(tr<A>::full && tr<B>::full))) throw May();
    const i128 m = O == SHL ? x << (int)y : x >> (int)y; // x < 2^64, y < 64
    if ((P >> 1) == 1 && (m < x || !in<R>(m))) throw May(); // the loose policy ignores what it takes for implementation-defined
    if (!(P & 1)) { if (m < x && O == SHL) throw Must(); if (!in<C>(m)) throw Must(); }
    else { if (!in<unsigned long>(m) || (m < x && O == SHL)) throw Must(); if (!in<long>(m) || !in<long>(x)) throw May(); }
    return M<R, P>((R)m);
}
template <int O, class A, class B> bool cmp(const A &a, const B &b) {
    enum { P = pol_of<A, B>::p };
    typedef decltype(std::declval<typename tr<A>::base>() + std::declval<typename tr<B>::base>()) C;
    const i128 x = mv(a), y = mv(b);
    if (!(P & 1) ? !in<C>(x) || !in<C>(y) : !in<long>(x) || !in<long>(y)) throw May();
    return O == LT ? x < y : O == LE ? x <= y : O == GT ? x > y : O == GE ? x >= y : O == EQ ? x == y : x != y;
}
#define VM(F, O, S) template <class A, class B, two<A, B> = 0> auto operator S(const A &a, const B &b) { return F<O>(a, b); } \
    template <class A, class B, two<A, B> = 0> A &operator S##=(A &a, const B &b) { return a = static_cast<A>(F<O>(a, b)); }
VM(arith, ADD, +) VM(arith, SUB, -) VM(arith, MUL, *) VM(arith, DIV, /) VM(arith, MOD, %) VM(bits, OR, |) VM(bits, AND, &) VM(bits, XOR, ^) VM(shift, SHL, <<) VM(shift, SHR, >>)
#undef VM
#define VM(O, S) template <class A, class B, two<A, B> = 0> bool operator S(const A &a, const B &b) { return cmp<O>(a, b); }
VM(LT, <) VM(LE, <=) VM(GT, >) VM(GE, >=) VM(EQ, ==) VM(NE, !=)
#undef VM
template <class T, int P, T L, T H> auto operator-(const M<T, P, L, H> &a) { typedef decltype(-T()) C; typedef typename res<P, C>::type R;
    const i128 m = -(i128)a.v; if (!in<R>(m)) throw Must(); if ((P & 1) && !in<long>((i128)a.v)) throw May(); return M<R, P>((R)m); }
template <class T, int P, T L, T H> auto operator+(const M<T, P, L, H> &a) { typedef decltype(+T()) C; typedef typename res<P, C>::type R;
    if (!in<R>((i128)a.v)) throw May(); return M<R, P>((R)a.v); }
template <class T, int P, T L, T H> auto operator~(const M<T, P, L, H> &a) { typedef decltype(~T()) C; typedef typename res<P, C>::type R;
    const C m = ~(C)a.v; if (!in<R>((i128)m)) throw May(); return M<R, P>((R)m); }
template <class T, int P, T L, T H> std::ostream &operator<<(std::ostream &o, const M<T, P, L, H> &a) { return o << str((i128)a.v); }
template <class T, int P, T L, T H> std::istream &operator>>(std::istream &i, M<T, P, L, H> &a) { // a whole number, possibly negative, with an optional sign
    if (i.peek() == EOF || i.fail()) { i.setstate(std::ios::failbit); throw Must(); }
    std::string s; i >> std::ws; if (i.peek() == '-' || i.peek() == '+') s += (char)i.get();
    while (i.peek() >= '0' && i.peek() <= '9') s += (char)i.get();
    bool neg = s.size() && s[0] == '-'; i128 x = 0; int n = 0;
    for (char c : s) if (c != '-' && c != '+') { x = x * 10 + (c - '0'); if (++n > 30) break; }
    if (!n || (neg && std::is_unsigned<T>::value && sizeof(T) > 1)) { i.setstate(std::ios::failbit); throw Must(); }
    a.v = M<T, P, L, H>::chk(neg ? -x : x); return i; }

}
namespace std { template <class T, int P, T L, T H> struct numeric_limits<vp::M<T, P, L, H>> : numeric_limits<T> {
    typedef vp::M<T, P, L, H> X; static constexpr X min() { return X(L); } static constexpr X max() { return X(H); } static constexpr X lowest() { return X(L); } }; }
namespace vp {
// ---------------------------------------------------------------- the two worlds
template <int P> struct Model {
    template <class T> using t = M<T, P>;
    template <long long L, long long H> using sr = M<typename sn::base_type<sn::safe_signed_range<L, H>>::type, P, L, H>;
    template <unsigned long long L, unsigned long long H> using ur = M<typename sn::base_type<sn::safe_unsigned_range<L, H>>::type, P, L, H>;
};
// a policy of the user's
struct own_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct own_action { constexpr own_action() {} void operator()(const sn::safe_numerics_error &, const char *m) { throw own_error(m); } };
typedef sn::exception_policy<own_action, own_action, own_action, sn::ignore_exception> own_policy;
template <int P> struct Safe {
    typedef std::conditional_t<!(P & 1), sn::native, sn::automatic> pp;
    typedef std::conditional_t<(P >> 1) == 0, sn::strict_exception_policy, std::conditional_t<(P >> 1) == 1, sn::loose_exception_policy, own_policy>> E_;
    template <class T> using t = sn::safe<T, pp, E_>;
    template <long long L, long long H> using sr = sn::safe_signed_range<L, H, pp, E_>;
    template <unsigned long long L, unsigned long long H> using ur = sn::safe_unsigned_range<L, H, pp, E_>;
};
template <class A, std::enable_if_t<tr<A>::ok, int> = 0> i128 num(const A &a) { return mv(a); }
template <class T, T L, T H, class P, class E> i128 num(const sn::safe_base<T, L, H, P, E> &a) { return (i128)sn::base_value(a); }

// ---------------------------------------------------------------- what a program does
struct Trace {
    struct Ev { int st, kind; i128 v; std::string s; };
    std::vector<Ev> e; bool may = false; int st = 0; long fuel = 0;
    void stmt(int n) { st = n; fuel = 400; }
    bool go() { return --fuel > 0; } // bounds every loop alike in both worlds
    template <class A> void put(const A &a) { e.push_back({st, 0, num(a), ""}); }
    template <class C> void all(const C &c) { for (const auto &x : c) put(x); }
    void text(const std::string &s) { e.push_back({st, 1, 0, s}); }
    void ok() { e.push_back({st, 2, 0, ""}); }
    void err() { e.push_back({st, 3, 0, ""}); }
};
inline std::string ev_text(const Trace::Ev &e) { return e.kind == 0 ? "value " + str(e.v) : e.kind == 1 ? "text \"" + e.s + "\"" : e.kind == 2 ? "success" : "an exception"; }
#define ST(N, ...) tr.stmt(N); try { __VA_ARGS__; tr.ok(); } catch (const std::exception &) { tr.err(); } dump();

// ---------------------------------------------------------------- code a user might write
template <class T> T gcd_(T a, T b) { while (b != 0) { const T t = a % b; a = b; b = t; } return a; }
template <class T> T gcdr_(const T &a, const T &b) { return b == 0 ? a : gcdr_<T>(b, a % b); }
template <class T> T pow_(T b, unsigned n) { T r = 1; while (n) { if (n & 1) r *= b; n >>= 1; if (n) b *= b; } return r; }
template <class T> T fact_(const T &n) { T r = 1; for (T i = 2; i <= n && i <= 40; ++i) r *= i; return r; }
template <class T> T factr_(const T &n) { if (n <= 1) return 1; if (n > 60) return n; return n * factr_<T>(n - 1); }
template <class T> T fib_(int n) { T a = 0, b = 1; while (n-- > 0) { T c = a + b; a = b; b = c; } return a; }
template <class T> T isqrt_(const T &x) { if (x < 2) return x; T lo = 1, hi = x / 2 + 1; while (lo + 1 < hi) { T m = lo + (hi - lo) / 2; if (m <= x / m) lo = m; else hi = m; } return lo; }
template <class T> T digits_(T x, int b) { T s = 0; while (x != 0) { s += x % b; x /= b; } return s; }
template <class T> T reverse_(T x) { T r = 0; while (x != 0) { r = r * 10 + x % 10; x /= 10; } return r; }
template <class T> std::string base_(T x, int b) { std::string s; if (x < 0) s = "-"; std::string d; do { int k = x % b; d += char('0' + (k < 0 ? -k : k)); x /= b; } while (x != 0); return s + std::string(d.rbegin(), d.rend()); }
template <class T, class I> T horner_(I b, I e, const T &x) { T r = 0; for (; b != e; ++b) r = r * x + *b; return r; }
template <class T, class I> T hash_(I b, I e) { T h = 7; for (; b != e; ++b) { h = h * 31 + *b; h %= 1009; } return h; }
template <class T> bool prime_(const T &n) { if (n < 2) return false; int k = 0; for (T i = 2; i <= n / i && ++k < 100; ++i) if (n % i == 0) return false; return true; }
template <class T> int collatz_(T n) { int k = 0; while (n > 1 && k < 60) { if (n % 2 == 0) n /= 2; else n = 3 * n + 1; ++k; } return k; }
template <class T> T binom_(int n, int k) { std::vector<T> c(n + 1, T(0)); c[0] = 1; for (int i = 1; i <= n; ++i) for (int j = i; j > 0; --j) c[j] += c[j - 1]; return c[k]; }
template <class C> void bubble_(C &v) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 1; j < v.size(); ++j) if (v[j] < v[j - 1]) std::swap(v[j], v[j - 1]); }
template <class C, class T> int search_(const C &v, const T &x) { int lo = 0, hi = (int)v.size(); while (lo < hi) { int m = (lo + hi) / 2; if (v[m] < x) lo = m + 1; else hi = m; } return lo; }
template <class T> T clamp_(const T &x, const T &lo, const T &hi) { return x < lo ? lo : hi < x ? hi : x; }
template <class T, class U> T satadd_(T x, const U &y) { try { x += y; } catch (const std::exception &) { x = y < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); } return x; }
template <class T> T mulmod_(T a, T b, const T &m) { T r = 0; a %= m; int k = 0; while (b > 0 && ++k < 70) { if ((b & 1) != 0) r = (r + a) % m; a = (a + a) % m; b >>= 1; } return r; }
template <class T> T popcount_(T x) { T n = 0; int k = 0; while (x != 0 && ++k < 70) { x = x & (x - 1); ++n; } return n; }
template <class T> T mid_(const T &a, const T &b) { return a + (b - a) / 2; }
template <class T> T avg_(const T &a, const T &b) { return (a + b) / 2; }
template <class T> long as_long(long x) { return x; }
inline long f_long(long x) { return x; }
inline int f_int(int x) { return x; }
inline unsigned f_uint(unsigned x) { return x; }
inline short f_short(const short &x) { return x; }
inline unsigned char f_uchar(unsigned char x) { return x; }
template <class T> T ident_(const T &x) { return x; }
template <class T> T ident_v(T x) { return x; }
template <class T> void inc_(T &x, const T &by) { x += by; }
template <class T> void set_(T *p, const T &x) { *p = x; }
template <class T> struct Point { T x, y; Point(const T &x, const T &y) : x(x), y(y) {}
    Point operator+(const Point &o) const { return Point(x + o.x, y + o.y); } Point operator*(const T &k) const { return Point(x * k, y * k); }
    T dot(const Point &o) const { return x * o.x + y * o.y; } bool operator<(const Point &o) const { return std::tie(x, y) < std::tie(o.x, o.y); } bool operator==(const Point &o) const { return x == o.x && y == o.y; } };
template <class T> struct Frac { T n, d; Frac(const T &a, const T &b) : n(a), d(b) { if (d < 0) { n = -n; d = -d; } T g = gcd_<T>(n, d); if (g != 0) { n /= g; d /= g; } }
    Frac operator+(const Frac &o) const { return Frac(n * o.d + o.n * d, d * o.d); } Frac operator*(const Frac &o) const { return Frac(n * o.n, d * o.d); } bool operator<(const Frac &o) const { return n * o.d < o.n * d; } };
template <class T> struct Account { T balance; std::vector<T> log; explicit Account(const T &b) : balance(b) {} void deposit(const T &x) { balance += x; log.push_back(x); } void withdraw(const T &x) { T left = balance - x; if (left < 0) throw std::runtime_error("overdrawn"); balance = left; log.push_back(-x); } };

inline int overload_(long) { return 1; } inline int overload_(const std::string &) { return 2; } inline int overload_(const std::vector<int> &) { return 3; } // an integer is the first
template <class T> int overload2_(const T &) { return 1; } template <class T> int overload2_(const std::string &) { return 2; } // text is the second
template <class T> struct Meters { T v; Meters(const T &v) : v(v) {} // an integer converts to it
    friend Meters operator+(const Meters &a, const Meters &b) { return Meters(a.v + b.v); } friend Meters operator*(const Meters &a, const T &k) { return Meters(a.v * k); } friend Meters operator*(const T &k, const Meters &a) { return Meters(k * a.v); }
    friend bool operator<(const Meters &a, const Meters &b) { return a.v < b.v; } Meters &operator+=(const Meters &o) { v += o.v; return *this; } };

// ---------------------------------------------------------------- driver
struct Prog { const char *name, *desc; int nin; const TD *in; void (*safe)(const i128 *, Trace &); void (*model)(const i128 *, Trace &); const char *const *text; };
struct Diff { int st; std::string what; };
// "" when the traces agree as far as they are defined
inline bool differ(const Trace &m, const Trace &s, Diff &d) {
    const size_t n = m.e.size();
    for (size_t i = 0; i < n; ++i) {
        if (i >= s.e.size()) { d.st = m.e[i].st; d.what = "the program stopped; expected " + ev_text(m.e[i]); return true; }
        const Trace::Ev &a = m.e[i], &b = s.e[i];
        if (a.st != b.st || a.kind != b.kind || a.v != b.v || a.s != b.s) { d.st = a.st; d.what = ev_text(b) + " instead of " + ev_text(a); return true; }
    }
    if (!m.may && s.e.size() != n) { d.st = s.e[n].st; d.what = ev_text(s.e[n]) + " which isn't expected"; return true; }
    return false;
}
struct RunR { bool bad; Diff d; bool may; size_t nev, nerr; };
inline RunR run_prog(const Prog &p, const std::vector<i128> &in) {
    Trace m, s; RunR r = {false, {0, ""}, false, 0, 0};
    try { p.model(in.data(), m); } catch (const May &) { m.may = true; }
    Out o; guard_body(o, [&] { p.safe(in.data(), s); });
    if (o.kind != K_VALUE && !(m.may && s.e.size() >= m.e.size())) { if (!differ(m, s, r.d)) r.d.st = s.st; r.d.what = (o.code <= -100 ? "the program crashed" : "an exception escaped") + std::string("; ") + r.d.what; r.bad = true; return r; }
    r.bad = differ(m, s, r.d); r.may = m.may; r.nev = m.e.size(); for (auto &e : m.e) r.nerr += e.kind == 3;
    return r;
}
inline void drive(const Prog &p, Rng &r, uint64_t n, Stats &st) {
    uint64_t full = 0, part = 0, errs = 0, evs = 0;
    for (uint64_t k = 0; k < n; ++k) {
        std::vector<i128> in; uint64_t h = hstr(p.name); const int mode = (int)r.below(4);
        for (int i = 0; i < p.nin; ++i) {
            i128 v = gen_value(r, p.in[i].mn, p.in[i].mx);
            if (mode == 1 || (mode == 2 && r.chance(1, 2))) { v = (i128)r.below(mode == 1 ? 14 : 120) - (r.chance(1, 3) ? 6 : 0); if (!(v >= p.in[i].mn && v <= p.in[i].mx)) v = p.in[i].mx < 14 ? p.in[i].mx : (i128)r.below(14) < p.in[i].mn ? p.in[i].mn : (i128)r.below(14); if (v < p.in[i].mn) v = p.in[i].mn; }
            in.push_back(v); h = h128(h, v);
        }
        RunR q = run_prog(p, in); ++st.evals; evs += q.nev; errs += q.nerr; ++(q.may ? part : full);
        if (q.nev > 8) st.nontrivial(h);
        auto show_in = [&] { std::string s; for (int i = 0; i < p.nin; ++i) s += (i ? ", " : "") + str(in[i]); return s; };
        if (st.want_sample()) st.sample(std::string(p.name) + " (" + p.desc + ") for " + show_in() + ": " + std::to_string(q.nev) + " events, " + std::to_string(q.nerr) + " exceptions" + (q.may ? ", compared up to an operation which may fail" : ""));
        if (!q.bad) continue;
        const int bad = q.d.st; std::string key = std::string(p.name) + "|" + std::to_string(bad);
        if (!st.want(key)) continue;
        auto pred = [&] { RunR z = run_prog(p, in); return z.bad && z.d.st == bad; };
        if (!(pred() && pred() && pred())) continue;
        for (int round = 0; round < 2; ++round) for (int i = 0; i < p.nin; ++i) shrink1(in[i], p.in[i].mn, p.in[i].mx, pred);
        q = run_prog(p, in);
        st.fail(key, std::string(p.name) + " (" + p.desc + "), inputs " + show_in() + ": " + q.d.what + " at statement " + std::to_string(bad) + ": " + p.text[bad]);
    }
    st.cls("runs compared to the end", full); st.cls("runs compared up to an operation which may fail", part); st.cls("statements which threw", errs); st.cls("events compared", evs); st.end_block();
}
}
using namespace vp;
#endif
