"""S32: promotion policies of users, each a random table of result types."""
from .common import *
from .ops import *

TYPES = [(8, 0), (8, 1), (16, 0), (16, 1), (32, 0), (32, 1), (64, 0), (64, 1)]
NAMES = ['unsigned char', 'signed char', 'unsigned short', 'short', 'unsigned int', 'int', 'unsigned long', 'long']
SLOT = dict(zip(ARITH + SHIFT + ['OR', 'AND', 'XOR'], range(10)))


def slot(op):
    return 10 if op in CMP else SLOT[op]


UNARY2 = ['NEG']


def result(T, op, i, j):
    """-x is 0 - x"""
    if op == 'NEG':
        return TYPES[T[1, 5, i]]
    return TYPES[T[slot(op), i, j]]


def wider(i, j):
    a, b = TYPES[i], TYPES[j]
    w = max(a[0], b[0])
    return TYPES.index((w, 1 if a[1] or b[1] else 0))


def table(r, style):
    T = {}
    for o in range(11):
        for i in range(8):
            for j in range(8):
                k = {'any': lambda: r.randrange(8),
                     'signed': lambda: TYPES.index((max(TYPES[i][0], TYPES[j][0]), 1)),
                     'wide': lambda: r.choice([6, 7]),
                     'left': lambda: i,
                     'right': lambda: j,
                     'narrow': lambda: min(i, j, key=lambda x: TYPES[x]),
                     'up': lambda: min(7, wider(i, j) + r.choice([0, 0, 1, 2])),
                     'op': lambda: None}[style]()
                T[o, i, j] = k
        if style == 'op':
            k = r.randrange(8)
            for i in range(8):
                for j in range(8):
                    T[o, i, j] = k
    return T


def s32(ck):
    ck.rule = ('promotion policies (tables of result types: arbitrary, signed, wide, that of one operand, the narrower one, growing, one per operator) x operators x operand types (safe, ranged, built-in), the result type '
               'compared with the table and values with exact arithmetic; non-trivial: no operand is 0 or 1')
    r = ck.rng
    styles = ['any', 'any', 'any', 'signed', 'wide', 'left', 'right', 'narrow', 'up', 'op', 'any', 'up']
    np = 12 if ck.quick else 72
    tus = []
    for p in range(np):
        style = styles[p % len(styles)]
        T = table(r, style)
        exc = r.choice(['', '', ', sn::strict_exception_policy'])
        pn = 'UP'
        pre = ['struct Tab { static constexpr int get(int o, int i, int j) { constexpr const char *t = "%s"; return t[(o * 8 + i) * 8 + j] - \'0\'; } };' % ''.join(str(T[o, i, j]) for o in range(11) for i in range(8) for j in range(8)),
               'typedef upol<Tab> UP;']
        base = lambda t: TYPES.index(tuple(t.base))
        mk = lambda b: t_safe(b, pn, exc[2:]) if exc else t_safe(b, pn)
        safes = [mk(b) for b in NAMES]
        builts = [t_builtin(b) for b in NAMES]
        rngs = [t_srange(a, b, pn) for a, b in S_RANGES] + [t_urange(a, b, pn) for a, b in U_RANGES] + [rand_range(r, pn) for _ in range(20)]
        if exc and 'loose' in exc:
            rngs = []
        cases, seen = [], set()
        ops = ARITH + SHIFT + ['OR', 'AND', 'XOR'] + CMP + UNARY2
        want = 380 if ck.quick else 900
        for _ in range(40 * want):
            if len(cases) >= want:
                break
            op = r.choice(ops)
            pool = safes * 3 + rngs if rngs else safes
            t, u = r.choice(pool), r.choice(pool + builts * 2)
            if r.random() < .3:
                t, u = u, t
            if not (t.safe or u.safe) or (op, t.name, u.name) in seen:
                continue
            if op in UNARY2:
                u = t
                if not t.safe or (op, t.name, u.name) in seen:
                    continue
            w = result(T, op, base(t), base(u))
            R = rng_of(w)
            if not (overlap((t.mn, t.mx), R) and overlap((u.mn, u.mx), R)):
                continue
            seen.add((op, t.name, u.name))
            cases.append((op, t, u))

        def row(k, op, ti, ui, t, u, T=T, base=base, style=style):
            w = result(T, op, base(t), base(u))
            q = TYPES[T[10, base(u), base(t)]] if op in CMP else w  # a > b may be asked as b < a
            return 'make_mrow<%s,T%d,T%d>(%d,%d,%d,Ty2{%d,%d},Ty2{%d,%d},"%s policy")' % (op, ti, ui, k, ti, ui, *w, *q, style)
        tu = emit_ops('S32_%d' % p, cases, 'user policy (%s)' % style, None, (ck.seed * 1000 + p, 2500 if ck.quick else 12000, 20000 if ck.quick else 200000), includes=('upol.hpp',), pre=pre, row=row,
                      body='for(auto&q:rows) run_user(q,d,r,n,ex,st);')
        for k, l in enumerate(tu.lines):
            tu.lines[k] = l.replace('static const Row rows[]', 'static const MRow rows[]').replace('std::vector<Case> cs; for(auto&q:rows) cs.push_back(to_case(q,d));', '')
        tus.append(tu)
        ck.instances += len(cases)
    ck.extra['policies'] = np
    ck.run(tus)
