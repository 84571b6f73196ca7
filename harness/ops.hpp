// Operators, operand construction, evaluation into a type-erased outcome.
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "core.hpp"
#include <csetjmp>
#include <csignal>
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/exception_policies.hpp>

namespace sn = boost::safe_numerics;

enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, OR, AND, XOR, LT, LE, GT, GE, EQ, NE, NEG, CPL, POS, OPCOUNT };
static const char *const op_text[] = {"+", "-", "*", "/", "%", "<<", ">>", "|", "&", "^", "<", "<=", ">", ">=", "==", "!=", "unary-", "~", "unary+"};

template <int O> struct OpF;
#define VBIN(O, S) template <> struct OpF<O> { enum { id = O }; \
    template <class A, class B> static constexpr auto f(const A &a, const B &b) { return a S b; } };
VBIN(ADD, +) VBIN(SUB, -) VBIN(MUL, *) VBIN(DIV, /) VBIN(MOD, %) VBIN(SHL, <<) VBIN(SHR, >>)
VBIN(OR, |) VBIN(AND, &) VBIN(XOR, ^) VBIN(LT, <) VBIN(LE, <=) VBIN(GT, >) VBIN(GE, >=) VBIN(EQ, ==) VBIN(NE, !=)
#undef VBIN
#define VUN(O, S) template <> struct OpF<O> { enum { id = O }; \
    template <class A, class B> static constexpr auto f(const A &a, const B &) { return S a; } };
VUN(NEG, -) VUN(CPL, ~) VUN(POS, +)
#undef VUN

constexpr bool is_unary(int o) { return o == NEG || o == CPL || o == POS; }
constexpr bool is_cmp(int o) { return o >= LT && o <= NE; }
constexpr bool is_bit(int o) { return o == OR || o == AND || o == XOR || o == CPL; }
constexpr bool is_shift(int o) { return o == SHL || o == SHR; }

template <class T> struct Lit : std::false_type {};
template <class T, T N, class P, class E> struct Lit<sn::safe_literal_impl<T, N, P, E>> : std::true_type {};

template <class T> using base_t = typename sn::base_type<T>::type;

// build an operand without going through the library's own validation
template <class T, bool safe = sn::is_safe<T>::value, bool lit = Lit<T>::value> struct Mk;
template <class T> struct Mk<T, false, false> { static T mk(i128 v) { return static_cast<T>(v); } };
template <class T> struct Mk<T, true, true> { static T mk(i128) { return T(); } };
template <class T> struct Mk<T, true, false> {
    static T mk(i128 v) { return T(static_cast<base_t<T>>(v), typename T::skip_validation()); }
};
template <class T> constexpr i128 val(const T &t) { return static_cast<i128>(sn::base_value(t)); }
constexpr i128 val(bool b) { return b; }

template <class T> struct Lim {
    typedef base_t<T> B;
    static constexpr i128 mn() { return val(std::numeric_limits<T>::min()); }
    static constexpr i128 mx() { return val(std::numeric_limits<T>::max()); }
    static constexpr i128 bmn() { return (i128)std::numeric_limits<B>::min(); }
    static constexpr i128 bmx() { return (i128)std::numeric_limits<B>::max(); }
    static constexpr i128 low() { return val(std::numeric_limits<T>::lowest()); }
};
template <> struct Lim<bool> {
    static constexpr i128 low() { return 0; }
    static constexpr i128 mn() { return 0; } static constexpr i128 mx() { return 1; }
    static constexpr i128 bmn() { return 0; } static constexpr i128 bmx() { return 1; }
};

// the declared range of the operand, given independently by the generator, is in TD
template <class T> constexpr TD make_td(const char *name, i128 mn, i128 mx) {
    typedef base_t<T> B;
    return TD{name, mn, mx, (i128)std::numeric_limits<B>::min(), (i128)std::numeric_limits<B>::max(),
              sn::is_safe<T>::value, std::is_signed<B>::value};
}

struct sentinel_exception { int code; int cls; };

// a CPU trap (division trap, abort from a failed assertion) is an outcome too
static sigjmp_buf g_trap;
static volatile int g_armed = 0;
static void on_trap(int s) { if (g_armed) { g_armed = 0; siglongjmp(g_trap, s); } signal(s, SIG_DFL); raise(s); }
struct TrapInit { TrapInit() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_trap; sa.sa_flags = SA_NODEFER; sigemptyset(&sa.sa_mask);
    int sigs[] = {SIGFPE, SIGABRT, SIGSEGV, SIGILL, SIGBUS}; for (int s : sigs) sigaction(s, &sa, 0); } };
static TrapInit g_trap_init;

typedef void (*Raw)(i128, i128, Out &);
// run f with exceptions and CPU traps turned into outcomes
inline void guarded(Out &o, const std::function<void()> &f);
template <class F> inline void guard_body(Out &o, F f) {
    o.kind = K_OTHER; o.code = 0; o.v = 0; o.extra = 0;
    const int sig = sigsetjmp(g_trap, 0);
    if (sig) { o.kind = K_OTHER; o.code = -100 - sig; return; }
    g_armed = 1;
    try { f(); o.kind = K_VALUE; }
    catch (const std::system_error &e) { o.kind = K_ERROR; o.code = e.code().value();
        if (e.code().category() != sn::safe_numerics_error_category) { o.kind = K_OTHER; o.code = -3; } }
    catch (const sentinel_exception &e) { o.kind = K_ERROR; o.code = e.code; o.extra = e.cls; }
    catch (const std::exception &) { o.kind = K_OTHER; o.code = -2; }
    g_armed = 0;
}
inline void guarded(Out &o, const std::function<void()> &f) { guard_body(o, f); }
inline void call(Raw fn, i128 a, i128 b, Out &o) { guard_body(o, [&] { fn(a, b, o); }); }

template <class OP, class T, class U> void raw2(i128 a, i128 b, Out &o) {
    o.v = val(OP::f(Mk<T>::mk(a), Mk<U>::mk(b)));
}

inline const char *err_name(int c) {
    static const char *n[] = {"success", "positive_overflow", "negative_overflow", "domain", "range", "precision_overflow",
                              "underflow", "negative_value_shift", "negative_shift", "shift_too_large", "uninitialized"};
    return c >= 0 && c <= 10 ? n[c] : "?";
}
inline std::string show(const Out &o) {
    if (o.kind == K_VALUE) return "value " + str(o.v);
    if (o.kind == K_ERROR) return std::string("error ") + err_name(o.code);
    if (o.code <= -100) return "crash (signal " + std::to_string(-100 - o.code) + ")";
    return "foreign exception";
}

// ---- exact model -----------------------------------------------------------
static const i128 HUGE128 = ((i128)1 << 126);
inline bool fits(i128 v, i128 lo, i128 hi) { return lo <= v && v <= hi; }
struct Exact { bool def; i128 m; };
inline i128 fdiv2k(i128 a, int k) { // floor(a / 2^k)
    if (k > 126) return a < 0 ? -1 : 0;
    return a >> k;
}
inline Exact exact(int op, i128 a, i128 b) {
    i128 r = 0;
    switch (op) {
    case ADD: case SUB:
        return {true, op == ADD ? a + b : a - b};
    case MUL:
        if (__builtin_mul_overflow(a, b, &r) || r > HUGE128 || r < -HUGE128) r = ((a < 0) != (b < 0)) ? -HUGE128 : HUGE128;
        return {true, r};
    case DIV: if (b == 0) return {false, 0}; return {true, a / b};
    case MOD: if (b == 0) return {false, 0}; return {true, a % b};
    case SHL:
        if (b < 0) return {false, 0};
        if (a == 0) return {true, 0};
        if (b > 126 || (b > 0 && (a > (HUGE128 >> (int)b) || a < -(HUGE128 >> (int)b)))) return {true, a < 0 ? -HUGE128 : HUGE128};
        return {true, a * ((i128)1 << (int)b)};
    case SHR:
        if (b < 0) return {false, 0};
        return {true, fdiv2k(a, b > 200 ? 200 : (int)b)};
    case LT: return {true, a < b}; case LE: return {true, a <= b};
    case GT: return {true, a > b}; case GE: return {true, a >= b};
    case EQ: return {true, a == b}; case NE: return {true, a != b};
    case NEG: return {true, -a};
    case POS: return {true, a};
    default: return {false, 0};
    }
}
// value reduced modulo 2^width into the type [mn,mx]
inline i128 wrap_to(i128 v, i128 mn, i128 mx) {
    u128 w = (u128)mx - (u128)mn + 1; // power of two
    u128 x = (u128)v & (w - 1);
    i128 r = (i128)x;
    if (r > mx) r -= (i128)w;
    return r;
}
inline i128 bits_exact(int op, i128 a, i128 b, i128 rmn, i128 rmx) {
    i128 x = wrap_to(a, rmn, rmx), y = wrap_to(b, rmn, rmx);
    i128 r = op == OR ? (x | y) : op == AND ? (x & y) : op == XOR ? (x ^ y) : ~x;
    return wrap_to(r, rmn, rmx);
}

#endif
