"""Generators of operator instantiations (operand type pairs) for the properties over safe operators."""
from .common import *

P_NAME = {'native': 'sn::native', 'automatic': 'sn::automatic'}
ARITH = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD']
SHIFT = ['SHL', 'SHR']
BITS = ['OR', 'AND', 'XOR']
CMP = ['LT', 'LE', 'GT', 'GE', 'EQ', 'NE']
UNARY = ['NEG', 'CPL', 'POS']
ODD = ['wchar_t', 'char16_t', 'char32_t']
ALLOPS = ARITH + SHIFT + BITS + CMP + UNARY


def pol_args(pol, exc):
    # the default policy is spelled by leaving it out, as users do
    return (None if pol == 'native' and not exc else P_NAME[pol]), exc


def safe_builtin_types(pol, exc=None, names=MAIN8):
    p, e = pol_args(pol, exc)
    return [t_safe(b, p, e) for b in names]


def range_types(pol, exc=None):
    p, e = pol_args(pol, exc)
    return [t_srange(a, b, p, e) for a, b in S_RANGES] + [t_urange(a, b, p, e) for a, b in U_RANGES]


def rng_type(r, lo, hi, pol, exc):
    """a range type with these bounds, unsigned when possible half of the time"""
    p, e = pol_args(pol, exc)
    if lo > hi:
        lo, hi = hi, lo
    if lo >= 0 and (hi >= 2**63 or r.random() < .4):
        return t_urange(lo, min(hi, 2**64 - 1), p, e)
    return t_srange(max(lo, -2**63), min(hi, 2**63 - 1), p, e)


LIMITS = [127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1,
          -128, -129, -32768, -32769, -2**31, -2**31 - 1, -2**63, 0]


def targeted_pair(r, pol, op, exc=None):
    """operand ranges whose extreme result is at, just below or just above a limit of an integer type"""
    L = r.choice(LIMITS) if r.random() < .5 else r.choice([2**31 - 1, 2**32 - 1, 2**63 - 1, 2**64 - 1, -2**31, -2**63, 0, 0])
    L += r.choice([-1, 0, 1])

    def other(v):  # an other bound on some side of v
        k = r.randrange(4)
        if k == 0:
            return v
        if k == 1:
            return v - r.choice([1, 2, 10, 300, 2**20, 2**33])
        if k == 2:
            return v + r.choice([1, 2, 10, 300, 2**20, 2**33])
        return rand_value(r)
    a = rand_value(r)
    if r.random() < .4:
        a = r.choice([0, 1, -1, 2, -2, L, L // 2, 2**31 - 1, 2**32 - 1])
    if op == 'ADD':
        b = L - a
    elif op == 'SUB':
        b = a - L
    elif op == 'MUL':
        b = L // a if a else rand_value(r)
    elif op == 'DIV':
        b = r.choice([-1, 1, 2, -2, 0, 3])
        a = L
    elif op == 'MOD':
        b = L
    elif op in ('SHL', 'SHR'):
        b = r.choice([0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 62, 63, 64, -1])
        a = (abs(L) >> max(b, 0)) if op == 'SHL' else L
        a += r.choice([0, 0, 1, -1])
    else:
        b = a + r.choice([-1, 0, 1])  # comparisons, bitwise: touching ranges
    clamp = lambda v: max(-2**63, min(2**64 - 1, v))
    a, b = clamp(a), clamp(b)
    oa, ob = clamp(other(a)), clamp(other(b))
    if op in ('SHL', 'SHR'):
        ob = r.choice([b, 0, 1, b + 1, max(0, b - 1), 3])
    return rng_type(r, a, oa, pol, exc), rng_type(r, b, ob, pol, exc)


def one_cause_pair(r, pol, op, exc=None):
    """operand ranges for which nothing fails, but for at most one cause: a single bound is moved just past (or just up to) it"""
    wide = r.random() < .3
    big = r.choice([2**40, 2**33, 2**32]) if wide else r.choice([1, 2, 7, 100, 300])
    W = 64 if wide or pol == 'automatic' else 32
    k = r.randrange(4)
    if op == 'SHL':
        m = r.randrange(0, 9)
        t, u = [r.choice([0, 1, big]), big], [r.choice([0, 1, m]), m]
        if k == 1:
            u[0] = r.choice([-1, -1, -3, -128])
        elif k == 2:
            t[0] = r.choice([-1, -1, -5])
        elif k == 3:
            n = W - r.choice([0, 1]) - big.bit_length()  # the largest count which keeps all bits
            u = [r.choice([0, max(n, 0)]), max(0, n + r.choice([-1, 0, 1]))]
    elif op == 'SHR':
        m = r.randrange(0, 20)
        t, u = [r.choice([0, 1, big]), big], [r.choice([0, 1, m]), m]
        if k == 1:
            u[0] = r.choice([-1, -1, -3, -128])
        elif k == 2:
            t[0] = r.choice([-1, -1, -5])
        elif k == 3:
            u[1] = W + r.choice([-2, -1, 0, 1])
    elif op in ('DIV', 'MOD'):
        t = [r.choice([0, 1, -1, -big, big]), big]
        u = r.choice([[1, 9], [2, 2], [-9, -1], [-1, -1], [1, big], [-big, -2]])
        if k == 1:
            u = r.choice([[0, 9], [-9, 0], [-3, 3], [0, 0], [0, big], [-1, 1], [-big, 0]])
        elif k == 2:
            lim = -2**(W - 1) if r.random() < .7 else -2**31
            t = [lim + r.choice([0, 0, 1]), r.choice([0, lim + 1, 5])]
            u = r.choice([[-1, -1], [-9, -1], [-9, -2], [1, 9]])
    else:
        t, u = [r.choice([0, 1, big]), big], [r.choice([0, 1, big]), big]
        if k == 1:
            t[0] = r.choice([-1, -5])
        elif k == 2:
            t = [r.choice([0, 1]), W == 32 and r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32]) or r.choice([2**63 - 1, 2**63, 2**64 - 1])]
        if r.random() < .5:
            t, u = u, t
    for v in (t, u):
        v.sort()
    return rng_type(r, t[0], t[1], pol, exc), rng_type(r, u[0], u[1], pol, exc)


def op_cases(r, pol, ops, budget, exc=None, builtin_pairs=1.0, extra_builtins=True, share_target=.35):
    """list of (op, T, U) to instantiate"""
    safe8 = safe_builtin_types(pol, exc)
    built8 = [t_builtin(b) for b in MAIN8]
    p, e = pol_args(pol, exc)
    xs = [t_safe(b, p, e) for b in ('char', 'long long', 'unsigned long long')] if extra_builtins else []
    xb = [t_builtin(b) for b in ('char', 'long long', 'unsigned long long')] if extra_builtins else []
    odd = [t_safe(b, p, e) for b in ODD + ['bool']] + [t_builtin(b) for b in ODD + ['bool']] if extra_builtins else []
    ranges = range_types(pol, exc) + [rand_range(r, p, e) for _ in range(24)]
    out, seen = [], set()

    def add(op, t, u):
        if not (t.safe or (u.safe and op not in UNARY)):
            return
        if op in UNARY:
            u = t
            if not t.safe or t.base[0] == 1:
                return
        if not pair_ok(pol, op, t, u):
            return
        k = (op, t.name, u.name)
        if k in seen:
            return
        seen.add(k)
        out.append((op, t, u))
    nb = [o for o in ops if o not in UNARY]
    for op in ops:
        if op in UNARY:
            for t in safe8 + xs + ranges:
                add(op, t, t)
            continue
        for t in safe8 + built8:
            for u in safe8 + built8:
                if builtin_pairs >= 1 or r.random() < builtin_pairs:
                    add(op, t, u)
    everything = safe8 + built8 + xs + xb + ranges
    rr = ranges
    tries = 0
    while nb and len(out) < budget and tries < 40 * budget:
        tries += 1
        op = nb[tries % len(nb)]
        x = r.random()
        if x < share_target:
            t, u = one_cause_pair(r, pol, op, exc) if r.random() < (.4 if op in SHIFT else .25 if op in ('DIV', 'MOD') or op in CMP else 0) else targeted_pair(r, pol, op, exc)
            y = r.random()
            if y < .15:
                t = r.choice(safe8 + built8)
            elif y < .3:
                u = r.choice(safe8 + built8)
        elif x < share_target + .35:
            t, u = r.choice(rr), r.choice(rr)
        elif odd and x > .94:
            t, u = r.choice(odd), r.choice(odd + everything)
            if r.random() < .5:
                t, u = u, t
        else:
            t, u = r.choice(everything), r.choice(everything)
        add(op, t, u)
    return out


def comp_cases(r, pol, budget, exc=None, builtin_pairs=1.0):
    """compound assignments `t op= u` which have to compile: some result can be stored back"""
    out = []
    for op, t, u in op_cases(r, pol, ARITH + SHIFT + BITS, budget, exc=exc, builtin_pairs=builtin_pairs):
        if t.base[0] == 1:
            continue
        zero = lambda x: x.mn <= 0 <= x.mx
        if not (zero(t) and zero(u)):
            if op not in ('ADD', 'SUB', 'MUL'):
                continue
            f = {'ADD': lambda a, b: a + b, 'SUB': lambda a, b: a - b, 'MUL': lambda a, b: a * b}[op]
            c = [f(a, b) for a in (t.mn, t.mx) for b in (u.mn, u.mx)]
            rr = result_range(pol, op, t, u)
            lo, hi = max(min(c), rr[0]), min(max(c), rr[1])
            if lo > min(t.mx, hi) or hi < t.mn:
                continue
        out.append((op, t, u))
    return out


def emit_ops(name, cases, pol, check_fn, args, includes=('binop.hpp',), pre=(), known='0', nontriv='nontriv_default', make='make_row', post=(), flags=(), cxx='g++', body=None, std='c++14', row=None):
    types, order = {}, []

    def idx(t):
        if t.name not in types:
            types[t.name] = len(order)
            order.append(t)
        return types[t.name]
    lines = ['#include "%s"' % i for i in includes] + list(pre)
    rows = [(c[0], idx(c[1]), idx(c[2]), c[1], c[2], c[3] if len(c) > 3 else None) for c in cases]
    for i, t in enumerate(order):
        lines.append('typedef %s T%d;' % (t.name, i))
    lines.append('static const TD d[] = {')
    for i, t in enumerate(order):
        lines.append('make_td<T%d>("%s",%s,%s),' % (i, t.name, c128(t.mn), c128(t.mx)))
    lines.append('};')
    polid = 0 if pol == 'native' else 1
    lines.append('static const Row rows[] = {')
    for k, (op, i, u, t, tu, dst) in enumerate(rows):
        if row:
            lines.append('/*@ %s %s %s %s */%s,' % (pol, op, t.name, tu.name, row(k, op, i, u, t, tu)))
            continue
        if dst:
            lines.append('/*@ %s static_cast<%s>(%s %s %s) */make_row_conv<%s,T%d,T%d,%s>(%d,%d,%d,%d,"%s",%s,%s),' % (pol, dst.name, op, t.name, tu.name, op, i, u, dst.name, k, polid, i, u, dst.name, c128(dst.mn), c128(dst.mx)))
            continue
        lines.append('/*@ %s %s %s %s */%s<%s,T%d,T%d>(%d,%d,%d,%d),' % (pol, op, t.name, tu.name, make, op, i, u, k, polid, i, u))
    lines.append('};')
    lines.append('int main(int c,char**v){ Rng r(strtoull(v[1],0,10)); Stats st; uint64_t n=strtoull(v[2],0,10); uint64_t ex=c>3?strtoull(v[3],0,10):0; (void)ex;')
    lines.append('std::vector<Case> cs; for(auto&q:rows) cs.push_back(to_case(q,d));')
    lines += list(post)
    lines.append(body or ('for(auto&c:cs) run_case(c,r,n,ex,st,%s,%s,%s);' % (check_fn, known, nontriv)))
    lines.append('st.report(); return 0; }')
    return TU(name, lines, args, cxx=cxx, flags=flags, std=std)


def op_tus(ck, cases, pol, check_fn, n, exh, tag='', parts=None, **kw):
    r = ck.rng
    cases = list(cases)
    # keep the cases of one pair of types together (they share instantiations), but balance the programs
    parts = parts or max(8, -(-len(cases) // 1300))
    groups = split(cases, parts)
    ck.instances += len(cases)
    return [emit_ops('%s_%s%s_%d' % (ck.prop, pol, tag, i), g, pol, check_fn, (ck.seed * 1000 + i, n, exh), **kw) for i, g in enumerate(groups)]
