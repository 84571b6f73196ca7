// S18: stream input and output.
#ifndef VERIF_STRM_HPP
#define VERIF_STRM_HPP
#include "ops.hpp"
#include <iomanip>
#include <iostream>
struct Rd { std::vector<Out> o; };
template <class C> std::basic_string<C> widen(const std::string &s) { std::basic_string<C> r; for (unsigned char c : s) r += (sizeof(C) == 1 || c < 128) ? (C)c : (C)(0x660 + (c & 15)); return r; }
template <class T, class C> void rd(const std::string &text, int n, bool exc, i128 init, std::vector<Out> &res) {
    std::basic_istringstream<C> is(widen<C>(text)); if (exc) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    T x = Mk<T>::mk(init); res.clear();
    for (int k = 0; k < n; ++k) { Out o; guard_body(o, [&] { is >> x; }); o.v = val(x); o.extra = is.fail(); res.push_back(o); if (o.kind != K_VALUE) break; }
}
// several values through one stream
enum { FMT_PLAIN, FMT_SHOWPOS, FMT_RIGHT, FMT_LEFT, FMT_HEX, FMT_OCT, NFMT };
template <class T, class C> void rt(const std::vector<i128> &v, int fmt, std::string &text, std::vector<Out> &res) {
    std::basic_stringstream<C> s; res.clear(); Out o;
    guard_body(o, [&] { for (i128 a : v) { const T x = Mk<T>::mk(a);
        if (fmt == FMT_SHOWPOS) s << std::showpos; if (fmt == FMT_LEFT) s << std::left; if (fmt == FMT_HEX) s << std::hex; if (fmt == FMT_OCT) s << std::oct; if (fmt == FMT_RIGHT || fmt == FMT_LEFT) s << std::setw(9);
        s << x << C(' '); } });
    text.clear(); for (C c : s.str()) text += c < 128 ? (char)c : '?';
    if (o.kind != K_VALUE) { res.push_back(o); return; }
    T x = Mk<T>::mk(v[0] == Lim<T>::mn() ? Lim<T>::mx() : Lim<T>::mn());
    for (size_t k = 0; k < v.size(); ++k) { Out q; guard_body(q, [&] { s >> x; }); q.v = val(x); res.push_back(q); if (q.kind != K_VALUE) break; }
}
typedef void (*RdFn)(const std::string &, int, bool, i128, std::vector<Out> &);
typedef void (*RtFn)(const std::vector<i128> &, int, std::string &, std::vector<Out> &);
struct SRow { RdFn rd[2]; RtFn rt[2]; bool uns; };
template <class T> constexpr SRow make_srow() { return SRow{{&rd<T, char>, &rd<T, wchar_t>}, {&rt<T, char>, &rt<T, wchar_t>}, std::is_unsigned<base_t<T>>::value}; }

struct Num { bool num, minus, junk, ovf; i128 v; };
inline Num parse_num(const std::string &s, size_t &p) {
    Num n = {false, false, false, false, 0};
    while (p < s.size() && isspace((unsigned char)s[p]) && (unsigned char)s[p] < 128) ++p;
    if (p < s.size() && (s[p] == '-' || s[p] == '+')) { n.minus = s[p] == '-'; ++p; }
    const i128 cap = (i128)1 << 100;
    for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p) { n.num = true; n.v = n.v > cap ? cap + 1 : n.v * 10 + (s[p] - '0'); }
    if (n.minus) n.v = -n.v;
    n.junk = p < s.size() && !(isspace((unsigned char)s[p]) && (unsigned char)s[p] < 128);
    return n;
}
struct StrmRun {
    const SRow &q; const TD &t; Rng &r; Stats &st; uint64_t n, ex;
    std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; } return o; }
    std::string judge_rd(const std::string &text, int k, bool wide, bool exc, i128 init, std::vector<Out> &res) {
        q.rd[wide](text, k, exc, init, res);
        size_t p = 0; i128 cur = init;
        for (auto &o : res) {
            if (o.kind == K_OTHER && o.code <= -100) return "crash";
            if (o.kind == K_OTHER && !exc) return "foreign exception";
            Num m = parse_num(text, p); bool fit = m.num && fits(m.v, t.mn, t.mx), must = fit && !m.junk && !(m.minus && m.v == 0 && q.uns);
            if (o.kind == K_VALUE) {
                if (!m.num) return "accepted what is no number";
                if (!fit) return m.minus && q.uns ? "accepted a negative number as an unsigned one" : "accepted a number out of range";
                if (o.v != m.v) return "stored another value";
                cur = m.v;
            } else {
                if (o.v != cur) return "variable changed by a failed read";
                if (must) return "refused a number in range";
                return "";
            }
        }
        return "";
    }
    std::string token() {
        std::string s; i128 v;
        switch (r.below(8)) {
        case 0: case 1: v = gen_value(r, t.mn, t.mx); break;
        case 2: case 3: v = (r.chance(1, 2) ? t.mn : t.mx) + (i128)r.below(7) - 3; break;
        case 4: v = (r.chance(1, 2) ? t.bmn : t.bmx) + (i128)r.below(7) - 3; break;
        case 5: { v = ((i128)1 << (7 + r.below(60))) + (i128)r.below(5) - 2; if (r.chance(1, 2)) v = -v; break; }
        case 6: v = (i128)(t.bmx - t.bmn) + 1; v = v * (i128)(r.below(3)) + r.range(t.mn, t.mx); if (r.chance(1, 3)) v = -v; break; // same bits modulo the width
        default: v = gen_value(r, -((i128)1 << 70), (i128)1 << 70);
        }
        s = str(v < 0 ? -v : v);
        if (r.chance(1, 10)) s = std::string(1 + r.below(30), '0') + s;
        if (v < 0) s = "-" + s; else if (r.chance(1, 10)) s = "+" + s; else if (r.chance(1, 20)) s = "-" + s;
        return s;
    }
    std::string text() {
        static const char *const junk[] = {"", "-", "+", "abc", "--1", "+-3", "- 5", "+ 5", ".5", "e5", "0x", "x", "\x80", "nan", "-0", "+0", "-00", "-a"};
        static const char *const tail[] = {"abc", ".0", "e3", "-1", "+1", "x10", ",000", "\x81", "'000"};
        static const char *const ws[] = {" ", "\n", "\t", "  ", "\r\n", "\v"};
        std::string s; int k = 1 + (int)r.below(r.chance(1, 3) ? 4 : 1);
        for (int i = 0; i < k; ++i) {
            if (i || r.chance(1, 5)) s += ws[r.below(6)];
            s += r.chance(1, 6) ? std::string(junk[r.below(18)]) : token();
            if (r.chance(1, 12)) s += tail[r.below(9)];
        }
        if (r.chance(1, 6)) s += ws[r.below(6)];
        if (r.chance(1, 20) && !s.empty()) s[r.below(s.size())] = (char)(32 + r.below(95));
        return s;
    }
    void reads() {
        uint64_t acc = 0, rej = 0;
        for (uint64_t i = 0; i < n; ++i) {
            std::string s = text(); bool wide = r.chance(1, 3), exc = r.chance(1, 6); int k = 1 + (int)r.below(4); i128 init = gen_value(r, t.mn, t.mx);
            std::vector<Out> res; std::string f = judge_rd(s, k, wide, exc, init, res);
            for (auto &o : res) ++(o.kind == K_VALUE ? acc : rej);
            ++st.evals; if (s.size() > 1) st.nontrivial(hmix(hmix(hstr(s.c_str()), hstr(t.name)), k * 4 + wide * 2 + exc));
            auto say = [&]() { std::string x = std::string("reading \"") + esc(s) + "\" " + (wide ? "(wide stream) " : "") + (exc ? "(throwing stream) " : "") + "into " + t.name + " holding " + str(init) + ":"; for (auto &o : res) x += " " + show(o) + " (variable " + str(o.v) + ")"; return x; };
            if (st.want_sample()) st.sample(say());
            if (f.empty()) continue;
            std::string key = std::string("read|") + t.name + "|" + f; if (!st.want(key)) continue;
            auto bad = [&](const std::string &z, int kk) { std::vector<Out> w; return judge_rd(z, kk, wide, exc, init, w) == f; };
            if (!(bad(s, k) && bad(s, k) && bad(s, k))) continue;
            while (k > 1 && bad(s, k - 1)) --k;
            for (bool more = true; more;) { more = false; for (size_t j = 0; j < s.size(); ++j) { std::string z = s; z.erase(j, 1); if (bad(z, k)) { s = z; more = true; break; } } }
            shrink1(init, t.mn, t.mx, [&]() { return bad(s, k); });
            judge_rd(s, k, wide, exc, init, res); st.fail(key, say() + " [" + f + "]");
        }
        st.cls("reads accepted", acc); st.cls("reads refused", rej);
    }
    std::string judge_rt(const std::vector<i128> &v, int fmt, bool wide, std::string &txt, std::vector<Out> &res) {
        q.rt[wide](v, fmt, txt, res);
        for (size_t k = 0; k < res.size(); ++k) { if (res[k].kind != K_VALUE) return res[k].kind == K_OTHER && res[k].code <= -100 ? "crash" : "not read back"; if (res[k].v != v[k]) return "another value read back"; }
        return "";
    }
    void round_trips() {
        static const char *const fmts[] = {"plain", "showpos", "right aligned", "left aligned", "hexadecimal", "octal"};
        u128 card = (u128)(t.mx - t.mn) + 1; bool exh = card <= ex; uint64_t total = exh ? (uint64_t)card : n / 2;
        for (uint64_t i = 0; i < total; ++i) {
            std::vector<i128> v{exh ? t.mn + (i128)i : gen_value(r, t.mn, t.mx)}; if (r.chance(1, 3)) { v.push_back(gen_value(r, t.mn, t.mx)); v.push_back(gen_value(r, t.mn, t.mx)); }
            int fmt = (int)r.below(NFMT); if (fmt >= FMT_HEX) for (auto a : v) if (a < 0) fmt = FMT_PLAIN; bool wide = r.chance(1, 3); std::string txt; std::vector<Out> res; std::string f = judge_rt(v, fmt, wide, txt, res);
            ++st.evals; if (v[0] > 9 || v[0] < 0) st.nontrivial(hmix(h128(hstr(t.name), v[0]), fmt * 2 + wide));
            auto say = [&]() { std::string x = std::string("writing (") + fmts[fmt] + (wide ? ", wide stream" : "") + ") " + t.name; for (auto a : v) x += " " + str(a); x += " gives \"" + esc(txt) + "\", read back:"; for (auto &o : res) x += " " + (o.kind == K_VALUE ? str(o.v) : show(o)); return x; };
            if (st.want_sample()) st.sample(say());
            if (f.empty()) continue;
            std::string key = std::string("trip|") + t.name + "|" + f; if (!st.want(key)) continue;
            auto bad = [&]() { std::string z; std::vector<Out> w; return judge_rt(v, fmt, wide, z, w) == f; };
            if (!(bad() && bad() && bad())) continue;
            if (v.size() > 1) { auto w = v; v.resize(1); if (!bad()) v = w; }
            for (auto &a : v) shrink1(a, fmt >= FMT_HEX && t.mn < 0 ? 0 : t.mn, t.mx, bad);
            judge_rt(v, fmt, wide, txt, res); st.fail(key, say() + " [" + f + "]");
        }
        st.cls(exh ? "round trips (every value)" : "round trips (sampled)", total);
    }
    void go() { reads(); round_trips(); st.end_block(); }
};
#endif
