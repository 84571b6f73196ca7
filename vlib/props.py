from .common import *
from .ops import *

PROPS = {}
PAIR_RULE = ('operand type pairs (built-in, safe, ranged; hand-designed, random and aimed at type limits) x operand values (boundary-biased and '
             'aimed at result limits; exhaustive when both ranges are small)')


def prop(f):
    PROPS[f.__name__] = f
    return f


def N(ck, quick, thorough):
    return quick if ck.quick else thorough


@prop
def S01(ck):
    ck.rule = PAIR_RULE + '; non-trivial: no operand is 0 or 1; distinct by operation, types and values'
    cases = op_cases(ck.rng, 'native', ARITH + ['NEG', 'POS'], N(ck, 7500, 45000))
    ck.run(op_tus(ck, cases, 'native', 'check_value', N(ck, 3000, 12000), N(ck, 66000, 300000)))


@prop
def S02(ck):
    ck.rule = PAIR_RULE + '; non-trivial: no operand is 0 or 1; distinct by operation, types and values'
    cases = op_cases(ck.rng, 'automatic', ARITH + ['NEG', 'POS'], N(ck, 7500, 45000))
    ck.run(op_tus(ck, cases, 'automatic', 'check_value', N(ck, 3000, 12000), N(ck, 66000, 300000)))


@prop
def S03(ck):
    ck.rule = PAIR_RULE + '; every operator, both policies; one evaluation compares a value with the advertised range, or a range of + - * with the exact hull; non-trivial: no operand is 0 or 1'
    tus = []
    for pol in ('native', 'automatic'):
        ops = ARITH + SHIFT + BITS + UNARY
        cases = op_cases(ck.rng, pol, ops, N(ck, 4200, 25000), builtin_pairs=.35)
        tus += op_tus(ck, cases, pol, 'check_range', N(ck, 2500, 10000), N(ck, 20000, 200000), parts=N(ck, 4, 20),
                      post=['for(auto&q:cs) run_hull(q,st);'])
    types = [t for pol in ('native', 'automatic') for t in safe_builtin_types(pol, names=ALL11 + ODD) + range_types(pol)] + \
        [rand_range(ck.rng, ck.rng.choice([None, 'sn::automatic'])) for _ in range(N(ck, 300, 3000))]
    ck.instances += len(types)
    for i, g in enumerate(split(types, N(ck, 1, 4))):
        tus.append(TU('S03_limits_%d' % i, ['#include "binop.hpp"'] + types_decl(g) + ['static const TD d[] = {'] + ['make_td<T%d>("%s",%s,%s),' % (k, t.name, c128(t.mn), c128(t.mx)) for k, t in enumerate(g)] + ['};',
                      'static const LimRow rows[] = {'] + ['/*@ limits of %s */lim_row<T%d>(),' % (t.name, k) for k, t in enumerate(g)] + ['};'] + DRIVER +
                      ['for(size_t k=0;k<sizeof rows/sizeof*rows;++k) run_lim(rows[k],d[k],st);', 'st.report(); return 0; }'], (1, 1, 1)))
    ck.run(tus)


@prop
def S05(ck):
    ck.rule = PAIR_RULE + '; non-trivial: no operand is 0 or 1'
    tus = []
    for pol in ('native', 'automatic'):
        cases = op_cases(ck.rng, pol, CMP, N(ck, 4500, 25000), builtin_pairs=.7)
        tus += op_tus(ck, cases, pol, 'check_value', N(ck, 2500, 10000), N(ck, 66000, 300000), parts=N(ck, 4, 20))
    ck.run(tus)


@prop
def S06(ck):
    ck.rule = PAIR_RULE + ', shift counts concentrated on -3..66; non-trivial: no operand is 0 or 1'
    tus = []
    for pol in ('native', 'automatic'):
        cases = op_cases(ck.rng, pol, SHIFT, N(ck, 4000, 25000))
        tus += op_tus(ck, cases, pol, 'check_value', N(ck, 4000, 15000), N(ck, 20000, 300000), parts=N(ck, 4, 20))
    ck.run(tus)


@prop
def S07(ck):
    ck.rule = PAIR_RULE + '; the result itself and its conversion to narrower and wider safe types; non-trivial: no operand is 0 or 1'
    tus = []
    for pol in ('native', 'automatic'):
        p, e = pol_args(pol, None)
        cases = op_cases(ck.rng, pol, BITS + ['CPL'], N(ck, 2300, 14000), builtin_pairs=.6)
        out = []
        dsts = [t_safe(b, p, e) for b in MAIN8] + [t_srange(-1, 1, p, e), t_urange(0, 100, p, e), t_builtin('signed char'), t_builtin('unsigned long')]
        for c in cases:
            out.append(c)
            out.append(c + (ck.rng.choice(dsts),))
        tus += op_tus(ck, out, pol, 'check_conv', N(ck, 3000, 12000), N(ck, 66000, 300000), parts=N(ck, 4, 20))
    ck.run(tus)


DRIVER = ['int main(int c,char**v){ Rng r(strtoull(v[1],0,10)); Stats st; uint64_t n=strtoull(v[2],0,10),ex=strtoull(v[3],0,10); (void)n;(void)ex;']


def per_type(ck, body, n, ex, types=ALL11, tag='', flags=()):
    """one program per built-in integer type; body(type) -> lines"""
    tus = []
    for i, t in enumerate(types):
        b = body(t)
        ck.instances += len(b)
        tus.append(TU('%s%s_%s' % (ck.prop, tag, t.replace(' ', '_')), ['#include "ext.hpp"'] + DRIVER + b + ['st.report(); return 0; }'],
                      (ck.seed * 1000 + i, n, ex), flags=list(flags)))
    return tus


def rand_subrange(r, rt):
    """bounds inside a built-in type"""
    lo, hi = rng_of(BUILTIN[rt][:2])
    k = r.randrange(6)
    cand = [lo, hi, 0, 1, 10, 100, 127, 128, 255, -1, -10, -128, 2**15, 2**31, 2**31 - 1, 2**32, lo + 1, hi - 1, r.randint(lo, hi), r.randint(lo, hi)]
    cand = [c for c in cand if lo <= c <= hi]
    a, b = sorted([r.choice(cand), r.choice(cand)])
    return a, b


FORMS = ['F_CONSTRUCT', 'F_ASSIGN', 'F_CAST', 'F_IMPLICIT', 'F_RETURN', 'F_BRACE']


def conv_pairs(r, budget, pol, exc):
    """(source, destination) pairs which share a value"""
    p, e = pol_args(pol, exc)
    safe11 = [t_safe(b, p, e) for b in ALL11 + ODD]
    built = [t_builtin(b) for b in ALL11 + ODD]
    rngs = range_types(pol, exc) + [rand_range(r, p, e) for _ in range(40)]
    lits = [t_slit(v, p, e) for v in (0, 1, -1, 5, 127, 128, -128, -129, 2**31, -2**31, 2**63 - 1, -2**63)] + \
        [t_ulit(v, p, e) for v in (0, 1, 255, 256, 2**32, 2**63, 2**64 - 1)]
    out, seen = [], set()

    def add(s, d):
        if not (s.safe or d.safe) or s.mn > d.mx or s.mx < d.mn or (s.name, d.name) in seen:
            return
        seen.add((s.name, d.name))
        out.append((s, d))
    for s in safe11 + built:
        for d in safe11 + built:
            add(s, d)
    tries = 0
    while len(out) < budget and tries < 50 * budget:
        tries += 1
        x = r.random()
        if x < .35:
            s, d = r.choice(rngs), r.choice(rngs)
        elif x < .5:
            s, d = r.choice(safe11 + built), r.choice(rngs)
        elif x < .65:
            s, d = r.choice(rngs), r.choice(safe11 + built)
        elif x < .75:
            s, d = r.choice(lits), r.choice(safe11 + built + rngs)
        else:  # a destination whose bounds nearly are the source's
            s = r.choice(rngs + safe11)
            a, b = s.mn + r.choice([-1, 0, 0, 1]), s.mx + r.choice([-1, 0, 0, 1])
            if a > b or a < -2**63 or b > 2**64 - 1 or (a < 0 and b >= 2**63):
                continue
            d = rng_type(r, a, b, pol, exc)
        add(s, d)
    return out


@prop
def S08(ck):
    ck.rule = ('conversion forms (construction, assignment, static_cast, implicit, return, member initialisation) over source/destination pairs which share a value (built-in incl. wchar_t/char16_t/char32_t, safe, '
               'ranges, literals); all values of sources up to 16 bits, otherwise boundary-biased and aimed at both types\' limits; non-trivial: value not 0 or 1')
    tus = []
    r = ck.rng
    for pol in ('native', 'automatic'):  # a safe value into a built-in variable, by way of a compound assignment
        cases = [c for c in comp_cases(r, pol, N(ck, 1500, 8000), builtin_pairs=.25) if not c[1].safe]
        tus += op_tus(ck, cases, pol, 'check_comp', N(ck, 3000, 15000), N(ck, 20000, 200000), tag='_comp', parts=N(ck, 1, 4), includes=('comp.hpp',), make='make_comp')
    for pol, exc, share in (('native', None, .5), ('automatic', None, .3), ('native', 'sn::strict_exception_policy', .1), ('automatic', 'sn::loose_exception_policy', .1)):
        budget = int(N(ck, 8000, 40000) * share)
        pairs = conv_pairs(r, budget, pol, exc)
        if share < .2:
            pairs = r.sample(pairs, min(len(pairs), budget))
        tus += conv_tus(ck, pairs, '%s_%s' % (pol, (exc or 'dflt')[4:8]), N(ck, 8, 32) if share > .2 else N(ck, 2, 8), N(ck, 3000, 20000))
    ck.run(tus)


def conv_tus(ck, pairs, tag, parts, n, forms=2, header='conv.hpp', make='make_conv', judge='conv_judge', pre=(), start=()):
    tus, r = [], ck.rng
    for i, g in enumerate(split(pairs, parts)):
        types, order, rows = {}, [], []

        def idx(t):
            if t.name not in types:
                types[t.name] = len(order)
                order.append(t)
            return types[t.name]
        for s, d in g:
            if d.kind == 'lit':
                continue
            si, di = idx(s), idx(d)
            for f in r.sample(FORMS, forms):
                rows.append('/*@ %s from %s (%s) */%s<%s,T%d,T%d>(%d,%d),' % (d.name, s.name, f, make, f, si, di, si, di))
        ck.instances += len(rows)
        L = ['#include "%s"' % header] + list(pre) + ['typedef %s T%d;' % (t.name, k) for k, t in enumerate(order)] + ['static const TD d[] = {'] + \
            ['make_td<T%d>("%s",%s,%s),' % (k, t.name, c128(t.mn), c128(t.mx)) for k, t in enumerate(order)] + ['};', 'static const ConvRow rows[] = {'] + rows + ['};'] + \
            DRIVER + list(start) + ['for(auto&q:rows) run_conv(q,d,r,n,ex,st,%s);' % judge, 'st.report(); return 0; }']
        tus.append(TU('%s_%s_%d' % (ck.prop, tag, i), L, (ck.seed * 1000 + i, n, N(ck, 70000 if i % 4 == 0 else 3000, 70000))))
    return tus


@prop
def S10(ck):
    ck.rule = PAIR_RULE + '; all operators and conversions under recording policies (throwing, returning, hand-written); non-trivial: no operand is 0 or 1'
    tus, r = [], ck.rng
    for pol in ('native', 'automatic'):
        for exc, share in (('RecT', .5), ('RecR', .3), ('RecD', .2)):
            cases = op_cases(r, pol, ARITH + SHIFT + BITS + CMP + ['NEG', 'CPL'], int(N(ck, 7000, 40000) * share), exc=exc, builtin_pairs=.18 * share)
            start = ['g_returns=%s;' % ('true' if exc == 'RecR' else 'false')]
            tus += op_tus(ck, cases, pol, 'check_log', N(ck, 3000, 15000), N(ck, 20000, 200000), tag='_' + exc, parts=N(ck, 2 if share < .4 else 4, 8), includes=('pol.hpp',), make='make_lrow', post=start)
            pairs = conv_pairs(r, 900, pol, exc)
            pairs = r.sample(pairs, N(ck, 250, 900))
            tus += conv_tus(ck, pairs, 'conv_%s_%s' % (pol, exc), 1, N(ck, 3000, 15000), header='pol.hpp', make='make_lconv', judge='conv_log', start=start)
        cases = comp_cases(r, pol, N(ck, 1100, 8000), exc='RecT', builtin_pairs=.12)
        tus += op_tus(ck, cases, pol, 'check_comp_log', N(ck, 3000, 15000), N(ck, 20000, 200000), tag='_comp', parts=N(ck, 1, 6), includes=('comp.hpp',), make='make_comp')
    tus.append(misc_s10(ck))
    ck.run(tus)


def misc_s10(ck):
    """default construction and stream input"""
    L = ['#include "pol.hpp"'] + DRIVER
    n = 0
    for exc in ('RecT', 'RecR', 'RecD'):
        for pol in ('sn::native', 'sn::automatic'):
            for t in ['sn::safe<%s,%s,%s>' % (b, pol, exc) for b in ALL11] + ['sn::safe_signed_range<-5,100,%s,%s>' % (pol, exc), 'sn::safe_unsigned_range<3ULL,70000ULL,%s,%s>' % (pol, exc)]:
                ret = exc == 'RecR'
                L.append('/*@ default construction of %s */{ Out o; g_n=0; guard_body(o,[&]{ %s x; (void)x; }); ++st.evals; st.nontrivial_unique(); st.cls("default construction"); '
                         'if(g_n!=1||g_log[0].cls!=CL_UV||g_log[0].code!=(int)sn::safe_numerics_error::uninitialized_value||o.kind!=%s) st.fail("default construction of %s","default construction of %s: "+log_text()+", "+show(o)); }' % (t, t, 'K_VALUE' if ret else 'K_ERROR', t, t))
                for txt in ['', 'x', '-', '99999999999999999999999', '-99999999999999999999999', 'abc 5']:
                    L.append('/*@ reading %s */{ Out o; %s x(5); g_n=0; guard_body(o,[&]{ std::istringstream is("%s"); is>>x; }); ++st.evals; st.nontrivial_unique(); st.cls("failing stream input"); '
                             'if(g_n<1||g_log[0].cls!=CL_AE||class_of(g_log[0].code)!=CL_AE||o.kind!=%s) st.fail("reading %s","reading \\"%s\\" into %s: "+log_text()+", "+show(o)); }' % (t, t, txt, 'K_VALUE' if ret else 'K_ERROR', t, txt, t))
                L.append('/*@ reading %s */{ Out o; %s x(5); g_n=0; guard_body(o,[&]{ std::istringstream is("7"); is>>x; }); ++st.evals; st.nontrivial_unique(); st.cls("stream input"); '
                         'if(g_n!=0||o.kind!=K_VALUE||val(x)!=7) st.fail("reading 7 %s","reading 7 into %s: "+log_text()+", "+show(o)); }' % (t, t, t, t))
                n += 8
    ck.instances += n
    return TU('S10_misc', L + ['st.report(); return 0; }'], (1, 1, 1))


@prop
def S11(ck):
    ck.rule = PAIR_RULE + '; under policies which ignore everything (and the loose policy), compiled with -fwrapv; non-trivial: no operand is 0 or 1'
    tus, r = [], ck.rng
    for exc, chk, share in (('Ign', 'check_ign', .7), ('sn::loose_exception_policy', 'check_loose', .3)):
        cases = op_cases(r, 'native', (ARITH + SHIFT + BITS + ['NEG']) if exc == 'Ign' else (ARITH + SHIFT + SHIFT), int(N(ck, 8000, 45000) * share), exc=exc, builtin_pairs=.6 if exc == 'Ign' else .3)
        tus += op_tus(ck, cases, 'native', chk, N(ck, 3000, 15000), N(ck, 20000, 200000), tag='_' + exc[-6:], parts=N(ck, 6 if share > .5 else 3, 24), includes=('pol.hpp',))
    cases = comp_cases(r, 'native', N(ck, 1500, 10000), exc='Ign', builtin_pairs=.25)
    tus += op_tus(ck, cases, 'native', 'check_comp_ign', N(ck, 3000, 15000), N(ck, 20000, 200000), tag='_comp', parts=N(ck, 2, 8), includes=('comp.hpp',), make='make_comp')
    for pol in ('native', 'automatic'):
        pairs = [(s, d) for s, d in conv_pairs(r, 1500, pol, 'Ign')]
        tus += conv_tus(ck, r.sample(pairs, N(ck, 700, 1500)), 'conv_' + pol, N(ck, 1, 3), N(ck, 3000, 15000), header='pol.hpp', judge='conv_ign')
    ck.run(tus)


@prop
def S12(ck):
    ck.rule = ('each checked primitive of every built-in type on operand pairs (all pairs of 8-bit values; otherwise boundary-biased and aimed at the limits), casts between all type pairs and into '
               'random subranges; non-trivial: no operand is 0 or 1')
    r = ck.rng

    def body(rt):
        L = ['std::vector<Prim> ps; add_ops<%s>(ps,"%s");' % (rt, rt)]
        for t in ALL11:
            L.append('add_cast<%s,%s>(ps,"%s","%s");' % (rt, t, rt, t))
        for _ in range(N(ck, 24, 120)):
            a, b = rand_subrange(r, rt)
            t = r.choice(ALL11)
            L.append('add_castr<%s,(%s)%s,(%s)%s,%s>(ps,"%s [%d,%d]","%s");' % (rt, rt, lit(a), rt, lit(b), t, rt, a, b, t))
        return L + ['for(auto&p:ps) run_prim(p,r,n,ex,st);']
    ck.run(per_type(ck, body, N(ck, 250000, 3000000), 70000))


EXT_OPS = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'SHL', 'SHR', 'OR', 'AND', 'XOR', 'NEG', 'POS']


@prop
def S13(ck):
    ck.rule = 'checked results (in-range value, the two markers, every other error) x operators x all integer types; all pairs of 8-bit operands; non-trivial: no operand is the value 0 or 1'
    ck.run(per_type(ck, lambda t: ['ExtRun<%s> e{"%s",r,st,n,ex};' % (t, t), 'for(int o: {%s}) e.run_arith(o);' % ','.join(EXT_OPS)], N(ck, 300000, 8000000), 80000))


@prop
def S14(ck):
    ck.rule = 'pairs of checked results x six comparisons x all integer types; all pairs of 8-bit operands; non-trivial: the operands differ'
    ck.run(per_type(ck, lambda t: ['ExtRun<%s> e{"%s",r,st,n,ex};' % (t, t), 'for(int o=LT;o<=NE;++o) e.run_cmp3(o);'], N(ck, 300000, 8000000), 80000))


@prop
def S15(ck):
    ck.rule = 'pairs of intervals of extended integers x operators x all integer types, 24 member pairs each; distinct by operation and bounds (every pair of intervals counts as non-trivial)'
    ck.run(per_type(ck, lambda t: ['IvRun<%s> e{"%s",r,st,n};' % (t, t), 'for(int o: {ADD,SUB,MUL,DIV,MOD,SHL,SHR}) e.run_op(o);', 'e.run_sets();'], N(ck, 250000, 5000000), 0))


@prop
def S16(ck):
    ck.rule = 'pairs of intervals (plain bounds, markers, unknown bounds) x predicates x all integer types; distinct by predicate and bounds'
    ck.run(per_type(ck, lambda t: ['IvRun<%s> e{"%s",r,st,n};' % (t, t), 'for(int p=0;p<e.NPRED;++p) e.run_pred(p);'], N(ck, 300000, 8000000), 0))


@prop
def S17(ck):
    ck.rule = 'all 121 pairs of built-in integer types x six functions; all pairs of 8-bit values, otherwise boundary-biased, adjacent and same-bit-pattern pairs; non-trivial: the operands differ'

    def body(t):
        return ['std::vector<CmpRow> ps;'] + ['add_cmp<%s,%s>(ps,"%s","%s");' % (t, u, t, u) for u in ALL11] + ['for(auto&p:ps) run_cmp(p,r,n,ex,st);']
    ck.run(per_type(ck, body, N(ck, 150000, 4000000), 70000))


def stored_rows(r, n):
    L = []
    pts = sorted({s * (2**k) + d for k in range(0, 65) for d in (-1, 0, 1) for s in (1, -1)} | {0})
    S = [p for p in pts if -2**63 <= p < 2**63]
    U = [p for p in pts if 0 <= p < 2**64]
    pairs = set()
    for p in S:
        pairs |= {('s', p, p), ('s', min(p, 0), max(p, 0))}
    for p in U:
        pairs |= {('u', 0, p), ('u', p, p)}
    while len(pairs) < n:
        k = r.choice('su')
        pool = S if k == 's' else U
        a, b = sorted([r.choice(pool), r.choice(pool) if r.random() < .6 else max(pool[0], min(pool[-1], rand_value(r)))])
        pairs.add((k, a, b))
    for k, a, b in sorted(pairs):
        fn = r.choice(['st_s', 'st_sr'] if k == 's' else ['st_u', 'st_ur'])
        x = (lit(a), lit(b)) if k == 's' else ('%dULL' % a, '%dULL' % b)
        L.append('/*@ stored type of [%d,%d] */%s<%s,%s>(),' % (a, b, fn, *x))
    return L


@prop
def S26(ck):
    ck.rule = ('bit helpers on every value of 8- and 16-bit types (thorough: 32-bit) and generated values of wider ones, minmax on lists of 1-13 values; stored types of ranges with bounds around every '
               'power of two and random ones; non-trivial: |value| > 1, lists longer than 1, every range')
    tus = per_type(ck, lambda t: ['UtilRun<%s> e{"%s",r,st,n,ex};' % (t, t), 'e.run();'], N(ck, 1500000, 20000000), N(ck, 70000, 2**32))
    for t in tus:
        t.lines[0] = '#include "util.hpp"'
    rows = stored_rows(ck.rng, N(ck, 2400, 12000))
    ck.instances += len(rows)
    for i, g in enumerate(split(rows, N(ck, 2, 8))):
        tus.append(TU('S26_stored_%d' % i, ['#include "util.hpp"', 'static const StRow rows[] = {'] + g + ['};'] + DRIVER + ['for(auto&q:rows) run_st(q,st);', 'st.report(); return 0; }'], (1, 1, 1)))
    ck.run(tus)


@prop
def S27(ck):
    ck.rule = 'operator instantiations over operand type pairs (all built-in pairs incl. char and long long, designed, random and limit-aimed ranges), both policies and three exception policies; each distinct instantiation counts'
    tus = []
    for pol in ('native', 'automatic'):
        for exc in (None, 'sn::loose_exception_policy', 'sn::strict_exception_policy'):
            ops = ARITH + SHIFT + BITS + UNARY
            cases = op_cases(ck.rng, pol, ops, N(ck, 5000 if not exc else 1500, 25000 if not exc else 8000), exc=exc, builtin_pairs=1 if not exc else .2)
            if not exc:
                p, e = pol_args(pol, exc)
                for t in ALL11:
                    for u in ('char', 'long long', 'unsigned long long', 'long', 'unsigned long'):
                        for op in ck.rng.sample(ARITH + SHIFT + BITS, 4):
                            cases.append((op, t_safe(t, p, e), t_safe(u, p, e)))
                            cases.append((op, t_safe(u, p, e), t_safe(t, p, e)))
            pn, en = P_NAME[pol], exc or 'sn::default_exception_policy'
            plain = lambda t: t.kind in ('builtin', 'safe')
            tus += op_tus(ck, cases, pol, None, 1, 0, tag='_' + (exc or 'dflt')[4:8], parts=N(ck, 4 if not exc else 2, 16), includes=('rtype.hpp',),
                          row=lambda k, op, i, u, t, tu: 'make_trow<%s,T%d,T%d,%s,%s,%s>(%d,%d,%d,%d)' % (op, i, u, pn, en, 'true' if plain(t) and plain(tu) else 'false', k, 0 if pol == 'native' else 1, i, u),
                          body='for(auto&c:cs) run_type(c,r,st);')
    ck.run(tus)


def hist_machine(r, k, pol, ck):
    """C++ text of one machine: variables of several types and the updates they can undergo"""
    p, e = pol_args(pol, None)
    pool = [t_safe(b, p, e) for b in ALL11] * 2 + [t for t in range_types(pol) if t.mn <= 0 <= t.mx] + \
        [t_srange(-abs(rand_value(r)) // 2, abs(rand_value(r)) // 2, p, e) for _ in range(20)] + [t_urange(0, abs(rand_value(r)), p, e) for _ in range(8)]
    odd = [t_srange(1, 100, p, e), t_urange(5, 20, p, e), t_srange(-100, -1, p, e), t_urange(1, 255, p, e), t_srange(200, 300, p, e), t_srange(-129, -128, p, e)]
    vs = r.sample(pool, 4)
    vs += [vs[0]] + [r.choice(odd)] + [t_builtin(b) for b in r.sample(ALL11, 2)]
    L = ['namespace m%d {' % k]
    tn = []
    for i, t in enumerate(vs):
        if t.name not in tn:
            tn.append(t.name)
            L.append('typedef %s T%d;' % (t.name, len(tn) - 1))
    ti = [tn.index(t.name) for t in vs]
    byname = {t.name: t for t in vs}
    L.append('static const TD td[] = {' + ','.join('make_td<T%d>("%s",%s,%s)' % (i, n, c128(byname[n].mn), c128(byname[n].mx)) for i, n in enumerate(tn)) + '};')
    for i, t in enumerate(vs):
        L.append('struct X%d { static T%d v; static i128 get() { return val(v); } static void set(i128 a) { v = Mk<T%d>::mk(a); } }; T%d X%d::v = Mk<T%d>::mk(%s);' % (i, ti[i], ti[i], ti[i], i, ti[i], c128(t.mn)))
    L.append('static const VarD vars[] = {' + ','.join('{%d,&X%d::get,&X%d::set}' % (ti[i], i, i) for i in range(len(vs))) + '};')
    acts = []
    pid = 0 if pol == 'native' else 1
    nr = 'Row()'

    def act(desc, kind, i, j, row, fn):
        acts.append('/*@ %s: %s */{%s,%d,%d,%s,&%s},' % (pol, desc, kind, i, j, row, fn))
    zero = lambda t: t.mn <= 0 <= t.mx
    for i, t in enumerate(vs):
        if not t.safe:
            continue
        incdec = [('PREINC', 'ADD'), ('POSTINC', 'ADD'), ('PREDEC', 'SUB'), ('POSTDEC', 'SUB')]
        for kind, op in incdec:
            if pair_ok(pol, op, t, t_builtin('int')):
                act('%s of %s' % (kind, t.name), 'A_' + kind, i, -1, 'make_row<%s,T%d,int>(0,%d,0,0)' % (op, ti[i], pid), 'a_%s<X%d>' % (kind.lower(), i))
        if t.mn <= 2**63 - 1 and t.mx >= -2**63:
            act('%s = long long' % t.name, 'A_SETLL', i, -1, nr, 'a_setll<X%d>' % i)
        if t.mx >= 0:
            act('%s = unsigned long long' % t.name, 'A_SETULL', i, -1, nr, 'a_setull<X%d>' % i)
        act('read %s' % t.name, 'A_STREAM', i, -1, nr, 'a_stream<X%d>' % i)
    pairs = [(i, j) for i in range(len(vs)) for j in range(len(vs)) if vs[i].safe or vs[j].safe]
    for i, j in pairs:
        if vs[i].mn <= vs[j].mx and vs[j].mn <= vs[i].mx and r.random() < .5:
            act('%s = %s' % (vs[i].name, vs[j].name), 'A_ASSIGN', i, j, nr, 'a_assign<X%d,X%d>' % (i, j))
        if ti[i] == ti[j] and vs[i].safe:
            act('copy %s' % vs[i].name, 'A_COPY', i, j, nr, 'a_copy<X%d,X%d>' % (i, j))
            act('swap %s' % vs[i].name, 'A_SWAP', i, j, nr, 'a_swap<X%d,X%d>' % (i, j))
    combos = [(i, j, op) for i, j in pairs for op in ARITH + SHIFT + BITS]
    r.shuffle(combos)
    n = 0
    for i, j, op in combos:
        t, u = vs[i], vs[j]
        if n >= N(ck, 60, 90):
            break
        if not pair_ok(pol, op, t, u):
            continue
        if not zero(t) or not zero(u):
            if op not in ('ADD', 'SUB', 'MUL'):
                continue
            f = {'ADD': lambda a, b: a + b, 'SUB': lambda a, b: a - b, 'MUL': lambda a, b: a * b}[op]
            c = [f(a, b) for a in (t.mn, t.mx) for b in (u.mn, u.mx)]
            rr = result_range(pol, op, t, u)
            lo, hi = max(min(c), rr[0]), min(max(c), rr[1])
            if lo > min(t.mx, hi) or hi < t.mn or lo > t.mx:
                continue
        act('%s %s= %s' % (t.name, op, u.name), 'A_OP', i, j, 'make_row<%s,T%d,T%d>(0,%d,0,0)' % (op, ti[i], ti[j], pid), 'a_op<%s,X%d,X%d>' % (op, i, j))
        n += 1
    L.append('static const Act acts[] = {')
    L += acts
    L.append('};')
    L.append('static const Machine machine = {"%s",vars,%d,acts,%d,td};' % (pol, len(vs), len(acts)))
    L.append('}')
    ck.instances += len(acts)
    return L


@prop
def S09(ck):
    ck.rule = ('histories of 1-60 updates over 8 variables of mixed types; a reference model follows every step and every variable is compared after it; compound assignments over operand type pairs, '
               'the variable compared whether or not they fail; non-trivial: more than one step, no operand 0 or 1')
    tus = []
    per = N(ck, 5, 12)
    for i in range(N(ck, 16, 64)):
        pol = 'native' if i % 2 == 0 else 'automatic'
        L = ['#include "hist.hpp"']
        for k in range(per):
            L += hist_machine(ck.rng, k, pol, ck)
        L += DRIVER + ['{ Hist h(m%d::machine,r,st); h.go(n); }' % k for k in range(per)] + ['st.report(); return 0; }']
        tus.append(TU('S09_%s_%d' % (pol, i), L, (ck.seed * 1000 + i, N(ck, 20000, 200000), 0)))
    for pol in ('native', 'automatic'):
        cases = comp_cases(ck.rng, pol, N(ck, 3200, 20000), builtin_pairs=.5)
        tus += op_tus(ck, cases, pol, 'check_comp', N(ck, 2500, 10000), N(ck, 20000, 200000), tag='_comp', parts=N(ck, 4, 16), includes=('comp.hpp',), make='make_comp')
    ck.run(tus)


def expr_prog(r, k, pol, ck):
    """one random expression: leaves, then steps over earlier values; static ranges are tracked so that every step is one which has to compile"""
    p, e = pol_args(pol, None)
    zero = [t_safe(b, p, e) for b in ALL11] * 3 + [t for t in range_types(pol) if t.mn <= 0 <= t.mx] + \
        [t_srange(-(2**r.randrange(0, 63)) + r.randrange(2), 2**r.randrange(0, 63) - r.randrange(2), p, e) for _ in range(25)] + \
        [t_urange(0, 2**r.randrange(0, 64) - r.randrange(2), p, e) for _ in range(15)]
    odd = [t_srange(1, 100, p, e), t_urange(5, 20, p, e), t_urange(1, 255, p, e), t_srange(1, 2, p, e), t_srange(2, 62, p, e), t_urange(1, 8, p, e), t_urange(100, 1000, p, e)]
    lits = [t_slit(v) for v in (0, 1, 2, 3, 7, 10, 100, 127, 128, 1000, 65536, 2**31 - 1, 2**40, -1, -2, -10, -128)] + [t_ulit(v) for v in (1, 2, 5, 8, 255, 4294967295)]
    built = [t_builtin(b) for b in ALL11]
    leaves, steps, L = [], [], []
    vals = []  # (index code, lo, hi, safe, base-known?)

    def leaf(pool):
        t = r.choice(pool)
        leaves.append(t)
        return (len(leaves) - 1, t.mn, t.mx, t.safe, t.kind == 'lit')
    nstep = r.randrange(2, 11)
    avail = []
    for s in range(nstep):
        for _ in range(60):
            nl = len(leaves)
            # left: mostly the previous step, so that checks are elided on computed ranges
            if avail and r.random() < .9:
                a = avail[-1] if r.random() < .85 else r.choice(avail)
            else:
                a = leaf(zero)
            x = r.random()
            if x < .12:
                b = None
            elif avail and x < .27:
                b = r.choice(avail)
            else:
                b = leaf(zero if x < .62 else odd if x < .76 else lits if x < .9 else built)
            if b and b[0] >= 0 and a[0] < 0 and not b[4] and r.random() < .25:
                a, b = b, a
            op = r.choice(['NEG', 'CONV', 'CONV', 'POS', 'STORE']) if b is None else r.choice(['ADD', 'ADD', 'SUB', 'SUB', 'MUL', 'MUL', 'DIV', 'MOD', 'SHL', 'SHR', 'CMP' if s == nstep - 1 else 'ADD'])
            res = None
            z = a[1] <= 0 <= a[2]
            pos = lambda lo, hi: (lo, hi) if lo <= 2**31 - 1 and hi >= 0 else None
            if b is not None and (a[4] and b[4] or not (a[3] or b[3])):
                pass
            elif op in SHIFT and b[4] and not 0 <= b[1] <= 64:
                pass  # a count no type of the result can hold need not compile
            elif op in ('CONV', 'STORE'):
                d = r.choice(zero)
                if z and d.mn <= 0 <= d.mx:
                    res = (d.mn, d.mx)
            elif op == 'NEG':
                if z:
                    res = (0, 0)
            elif op == 'POS':
                res = a[1:3]
            elif op == 'CMP':
                op = r.choice(CMP)
                res = (0, 1) if pos(*a[1:3]) and pos(*b[1:3]) else None
            elif op in ('ADD', 'SUB', 'MUL'):
                f = {'ADD': lambda m, n: m + n, 'SUB': lambda m, n: m - n, 'MUL': lambda m, n: m * n}[op]
                c = [f(m, n) for m in a[1:3] for n in b[1:3]]
                if pos(*a[1:3]) and pos(*b[1:3]):
                    res = pos(min(c), max(c))
            elif z and pos(*b[1:3]):
                res = (0, 0)  # a part of the range which is certain to be there
                if op == 'MOD' and b[1] == b[2] == 0 or op == 'DIV' and b[1] == b[2] == 0:
                    res = None
            if res is None or (a[4] and b is None):
                del leaves[nl:]
                continue
            if a[0] >= 0 and not a[3] and b is None:
                del leaves[nl:]
                continue
            break
        else:
            break
        # what is certain of a computed range: it contains the part of res which any type of the operation can hold
        lo, hi = res
        safe_res = op not in CMP
        avail.append((-1 - s, max(lo, 0), min(hi, 2**31 - 1), safe_res, False) if op not in ('CONV', 'STORE') else (-1 - s, lo, hi, True, False))
        steps.append((op, a, b, d if op in ('CONV', 'STORE') else None))
        if not safe_res:
            break
    if not steps:
        return expr_prog(r, k, pol, ck)
    name = lambda v: 'a%d' % v[0] if v[0] >= 0 else 's%d' % (-1 - v[0])
    tname = lambda v: 'A%d' % v[0] if v[0] >= 0 else 'S%d' % (-1 - v[0])
    sym = dict(zip(ARITH + SHIFT + BITS + CMP, ['+', '-', '*', '/', '%', '<<', '>>', '|', '&', '^', '<', '<=', '>', '>=', '==', '!=']))
    sym.update({'NEG': '-', 'POS': '+'})
    text, body, dec, typ = {}, [], [], []
    tx = lambda v: 'a%d' % v[0] if v[0] >= 0 else text[-1 - v[0]]
    pid = 0 if pol == 'native' else 1
    for s, (op, a, b, d) in enumerate(steps):
        if op in ('CONV', 'STORE'):
            cx = 'static_cast<D%d>(%s)' % (s, name(a)) if op == 'CONV' else '[&]{ D%d q = %s; return q; }()' % (s, name(a))
            text[s] = '%s(%s)' % (d.name, tx(a))
            typ.append('typedef %s D%d; typedef D%d S%d;' % (d.name, s, s, s))
            dec.append('conv_step<D%d>(%s,%d,"%s")' % (s, 'X_' + op, a[0], text[s]))
        else:
            cx = '%s %s %s' % (name(a), sym[op], name(b)) if b else '%s%s' % (sym[op], name(a))
            text[s] = '(%s %s %s)' % (tx(a), sym[op], tx(b)) if b else '%s(%s)' % (sym[op], tx(a))
            typ.append('typedef decltype(OpF<%s>::f(std::declval<const %s&>(),std::declval<const %s&>())) S%d;' % (op, tname(a), tname(b or a), s))
            dec.append('{%s,%d,%d,make_row<%s,%s,%s>(0,%d,0,0),0,0,"%s"}' % (op, a[0], b[0] if b else 0, op, tname(a), tname(b or a), pid, text[s]))
        body.append('const auto s%d = %s; step_done(val(s%d));' % (s, cx, s))
    whole = text[len(steps) - 1]
    desc = '%s: %s with %s' % (pol, whole, ', '.join('a%d %s' % (i, t.name) for i, t in enumerate(leaves)))
    desc = desc.replace('/', '÷').replace('*', '×')
    ck.instances += len(steps)
    line = '/*@ %s */namespace e%d { ' % (desc, k) + ' '.join('typedef %s A%d;' % (t.name, i) for i, t in enumerate(leaves)) + ' '.join(typ) + \
        ' static const TD leaf[] = {' + ','.join('make_td<A%d>("%s",%s,%s)' % (i, t.name, c128(t.mn), c128(t.mx)) for i, t in enumerate(leaves)) + '};' + \
        ' static const StepD step[] = {' + ','.join(dec) + '};' + \
        ' static void f(const i128*in) { ' + ' '.join('const A%d a%d = Mk<A%d>::mk(in[%d]);' % (i, i, i, i) for i in range(len(leaves))) + ' '.join(body) + ' }' + \
        ' static const Prog prog = {"%s","%s",leaf,%d,step,%d,&f}; }' % (pol, whole, len(leaves), len(steps))
    return line


@prop
def S04(ck):
    ck.rule = 'random typed expressions of 2-10 steps (+ - * / % << >> unary, comparisons, conversions) over safe, ranged, built-in and literal leaves; each step compared with exact arithmetic; non-trivial: at least two steps completed'
    tus = []
    per = N(ck, 70, 120)
    for i in range(N(ck, 16, 64)):
        pol = 'native' if i % 2 == 0 else 'automatic'
        L = ['#include "expr.hpp"'] + [expr_prog(ck.rng, k, pol, ck) for k in range(per)] + DRIVER + \
            ['{ ExprRun e(e%d::prog,r,st); e.go(n); }' % k for k in range(per)] + ['st.report(); return 0; }']
        tus.append(TU('S04_%s_%d' % (pol, i), L, (ck.seed * 1000 + i, N(ck, 12000, 120000), 0)))
    ck.run(tus)


INTN = {(8, 1): 'signed char', (8, 0): 'unsigned char', (16, 1): 'short', (16, 0): 'unsigned short', (32, 1): 'int', (32, 0): 'unsigned int', (64, 1): 'long', (64, 0): 'unsigned long'}


def mach_promote(t, mach, quirk):
    return t if t[0] >= mach[2] else (mach[2], 1 if t[1] or not quirk else 0)


def mach_type(op, t, u, mach, quirk=False):
    """(width, sign) of an operation on that machine; quirk: with the promotion of KF2"""
    a, b = mach_promote(t.base, mach, quirk), mach_promote(u.base, mach, quirk)
    if op in SHIFT or a == b:
        return a
    if a[1] == b[1]:
        return max(a, b)
    un, si = (a, b) if a[1] == 0 else (b, a)
    return un if un[0] >= si[0] else si


@prop
def S19(ck):
    ck.rule = ('machine width tuples (all non-decreasing 5-tuples of 8/16/32/64 in the thorough tier) x operators x operand types of that machine (built-in, safe, ranged), the result type compared with the C++ '
               'rules for these widths and values with exact arithmetic; non-trivial: no operand is 0 or 1')
    import itertools
    r = ck.rng
    HOST = (8, 16, 32, 64, 64)
    tuples = [t for t in itertools.combinations_with_replacement((8, 16, 32, 64), 5) if t[2] >= 16]
    fixed = [HOST, (8, 16, 16, 32, 64), (8, 16, 32, 32, 64), (8, 16, 16, 32, 32), (8, 8, 16, 32, 64), (8, 16, 64, 64, 64), (16, 16, 16, 32, 64), (8, 32, 32, 32, 64)]
    tuples = fixed + [t for t in r.sample(tuples, len(tuples)) if t not in fixed]
    tuples = tuples[:N(ck, 14, 100)]
    groups = {}
    for mi, m in enumerate(tuples):
        pn = 'sn::cpp<%s>' % ','.join(map(str, m))
        ms = '%d,%d,%d,%d,%d' % m
        base = [INTN[w, s] for w in sorted(set(m)) for s in (1, 0)]
        ok = lambda t: t.base[0] in m
        safes = [t_safe(b, pn) for b in base]
        builts = [t_builtin(b) for b in base]
        rngs = [t for t in [t_srange(a, b, pn) for a, b in S_RANGES] + [t_urange(a, b, pn) for a, b in U_RANGES] + [rand_range(r, pn) for _ in range(20)] if ok(t)]
        cases, seen = [], set()

        def add(op, t, u):
            if not (t.safe or u.safe) or (op, t.name, u.name) in seen:
                return
            for q in (False, True):
                R = rng_of(mach_type(op, t, u, m, q))
                if not (overlap((t.mn, t.mx), R) and overlap((u.mn, u.mx), R)):
                    return
            seen.add((op, t.name, u.name))
            cases.append((op, t, u))
        allops = ARITH + SHIFT + BITS + CMP
        for t in safes + builts:
            for u in safes + builts:
                for op in (allops if m == HOST else r.sample(allops, 4)):
                    add(op, t, u)
        want = N(ck, 900 if m == HOST else 320, 1500)
        for _ in range(20 * want):
            if len(cases) >= want:
                break
            add(r.choice(allops), r.choice(rngs + safes), r.choice(rngs + safes + builts))
        groups[m] = (ms, cases)
    tus = []
    for i, ms in enumerate(split(list(groups), N(ck, 8, 24))):
        for m in ms:
            name, cases = groups[m]

            def row(k, op, ti, ui, t, u, m=m, name=name):
                w, q = mach_type(op, t, u, m), mach_type(op, t, u, m, True)
                tail = '(%d,%d,%d,Ty2{%d,%d},Ty2{%d,%d},"%s")' % (k, ti, ui, *w, *q, name)
                if m == HOST:
                    nat = lambda x: x.name.replace(', sn::cpp<%s>' % name, '')
                    return 'make_hrow<%s,T%d,T%d,%s,%s>' % (op, ti, ui, nat(t), nat(u)) + tail
                return 'make_mrow<%s,T%d,T%d>' % (op, ti, ui) + tail
            parts = 4 if m == HOST else 1
            for j, g in enumerate(split(cases, parts)):
                tu = emit_ops('S19_%s_%d' % (name.replace(',', '_'), j), g, 'cpp<%s>' % name, None, (ck.seed * 1000 + i * 10 + j, N(ck, 2500, 12000), N(ck, 20000, 200000)), includes=('mach.hpp',), row=row,
                              body='for(auto&q:rows) run_mach(q,d,r,n,ex,st);')
                for k, l in enumerate(tu.lines):
                    tu.lines[k] = l.replace('static const Row rows[]', 'static const MRow rows[]').replace(' std::vector<Case> cs; for(auto&q:rows) cs.push_back(to_case(q,d));', '').replace('std::vector<Case> cs; for(auto&q:rows) cs.push_back(to_case(q,d));', '')
                tus.append(tu)
        ck.instances += sum(len(groups[m][1]) for m in ms)
    ck.extra['machines'] = ['cpp<%s>' % groups[m][0] for m in groups]
    ck.run(tus)


@prop
def S18(ck):
    ck.rule = ('texts (numbers in and out of range, at the limits, same bits modulo the width, signs, leading zeros, blanks, trailing junk, non-numbers, several numbers) read into safe types, narrow/wide/throwing streams; '
               'round trips of every value of types up to 16 bits; non-trivial: text longer than 1, value negative or > 9')
    r = ck.rng
    types = [t_safe(b) for b in ALL11 + ['wchar_t']] + [t_safe(b, 'sn::automatic') for b in ALL11] + [t_safe(b, 'sn::native', e) for b in MAIN8 for e in ('sn::strict_exception_policy', 'sn::loose_exception_policy')][::N(ck, 2, 1)]
    rs = range_types('native') + range_types('automatic') + [rand_range(r) for _ in range(N(ck, 30, 200))]
    types += r.sample(rs, N(ck, 70, len(rs)))
    ck.instances = len(types)
    tus = []
    for i, g in enumerate(split(types, 8)):
        L = ['#include "strm.hpp"'] + ['typedef %s T%d;' % (t.name, k) for k, t in enumerate(g)] + ['static const TD d[] = {'] + \
            ['make_td<T%d>("%s",%s,%s),' % (k, t.name, c128(t.mn), c128(t.mx)) for k, t in enumerate(g)] + ['};', 'static const SRow rows[] = {'] + \
            ['/*@ stream input and output of %s */make_srow<T%d>(),' % (t.name, k) for k, t in enumerate(g)] + ['};'] + DRIVER + \
            ['for(size_t k=0;k<sizeof rows/sizeof*rows;++k) StrmRun{rows[k],d[k],r,st,n,ex}.go();', 'st.report(); return 0; }']
        tus.append(TU('S18_%d' % i, L, (ck.seed * 1000 + i, N(ck, 100000, 800000), 70000)))
    ck.run(tus)


def exact_op(op, a, b):
    try:
        if op == 'DIV':
            return (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
        if op == 'MOD':
            return abs(a) % abs(b) * (-1 if a < 0 else 1)
        return {'ADD': a + b, 'SUB': a - b, 'MUL': a * b}.get(op, 0)
    except ZeroDivisionError:
        return 0


def gen_in(r, lo, hi):
    """a value of [lo,hi], biased to the limits and to small numbers"""
    x = r.randrange(6)
    v = [lo + r.randrange(3), hi - r.randrange(3), r.randrange(-3, 4), rand_value(r), r.randint(lo, hi), r.randrange(-60, 130)][x]
    return v if lo <= v <= hi else r.randint(lo, hi)


def gen_values(r, pol, op, t, u):
    """an operand pair: small, at the limits, or aimed at the limit of the type of the operation"""
    a, b = gen_in(r, t.mn, t.mx), gen_in(r, u.mn, u.mx)
    x = r.random()
    if op in SHIFT and x < .7:
        b = max(u.mn, min(u.mx, r.randrange(-1, 66) if r.random() < .5 else r.randrange(0, 8)))
        a = max(t.mn, min(t.mx, abs(a) if r.random() < .8 else a))
    elif x < .4 and op in ARITH:
        L = r.choice(result_range(pol, op, t, u)) + r.randrange(-1, 2)
        b = {'ADD': L - a, 'SUB': a - L, 'MUL': L // a if a else b}.get(op, r.choice([-1, 0, 1, 2, b]))
        b = max(u.mn, min(u.mx, b))
    elif x < .65:
        a, b = max(t.mn, min(t.mx, r.randrange(-40, 100))), max(u.mn, min(u.mx, r.randrange(-40, 100)))
    return a, b


def cxarg(v):
    return '%s,%dULL' % ('true' if v < 0 else 'false', v & (2**64 - 1))


def types_decl(types):
    return ['typedef %s T%d;' % (t.name, i) for i, t in enumerate(types)]


@prop
def S20(ck):
    ck.rule = ('operators and conversions with generated constant operands; compound assignments, increments and assignments of variables of constant-evaluated functions; each is tried as a constant expression (SFINAE) and at run time, and the outcomes compared; g++ and clang; non-trivial: first operand not 0 or 1')
    r = ck.rng
    rows = []
    for pol in ('native', 'automatic'):
        p, e = pol_args(pol, None)
        ops = ARITH + SHIFT + BITS + CMP + ['NEG', 'CPL', 'POS']
        cases = op_cases(r, pol, ops, N(ck, 2600, 14000), builtin_pairs=.2)
        r.shuffle(cases)
        for op, t, u in cases[:N(ck, 2600, 14000)]:
            for _ in range(3):
                a, b = gen_values(r, pol, op, t, u)
                rows.append(('BOp<%s,%%s,%%s>' % op, t, u, a, b if op not in UNARY else 0, '%s: %s %s %s' % (pol, t.name, op, u.name)))
        for op, t, u in comp_cases(r, pol, N(ck, 700, 4000), builtin_pairs=.2):
            for _ in range(2):
                a, b = gen_values(r, pol, op, t, u)
                rows.append(('BUpd<%s,%%s,%%s>' % op, t, u, a, b, '%s: %s %s= %s' % (pol, t.name, op, u.name)))
        incs = [t for t in safe_builtin_types(pol) + range_types(pol) + [rand_range(r, p, e) for _ in range(N(ck, 40, 200))] if t.mx - t.mn >= 2 and (pol == 'native' or t.mn < 2**63 - 3)]
        for t in r.sample(incs, min(len(incs), N(ck, 60, 300))):
            for w in range(4):
                for a in {t.mn, t.mx, gen_in(r, t.mn, t.mx)}:
                    rows.append(('BInc<%d,%%s,%%s>' % w, t, t, a, 0, '%s: %s of %s' % (pol, ['++x', '--x', 'x++', 'x--'][w], t.name)))
        pairs = conv_pairs(r, 1500, pol, None)
        for s, d in r.sample(pairs, N(ck, 200, 1000)):
            if d.kind == 'lit' or not d.safe:
                continue
            a = gen_in(r, s.mn, s.mx)
            if r.random() < .5:
                a = max(s.mn, min(s.mx, r.choice([d.mn, d.mx]) + r.randrange(-1, 2)))
            rows.append(('BAsg<%s,%s>', d, s, gen_in(r, d.mn, d.mx), a, '%s: %s = %s' % (pol, d.name, s.name)))
        for s, d in r.sample(pairs, N(ck, 700, 1500)):
            if d.kind == 'lit':
                continue
            for _ in range(2):
                a = gen_in(r, s.mn, s.mx)
                if r.random() < .5:
                    a = max(s.mn, min(s.mx, r.choice([d.mn, d.mx]) + r.randrange(-1, 2)))
                f = r.choice(['BConstruct', 'BCast', 'BImplicit'])
                rows.append((f + '<%s,%s>', s, d, a, 0, '%s: %s %s from %s' % (pol, f[1:], d.name, s.name)))
    r.shuffle(rows)
    ck.instances = len(rows)
    tus = []
    nt = N(ck, 16, 80)
    for i, g in enumerate(split(rows, nt)):
        types, order = {}, []

        def idx(t):
            if t.name not in types:
                types[t.name] = len(order)
                order.append(t)
            return types[t.name]
        R = []
        for f, t, u, a, b, text in g:
            R.append('/*@ %s (%d, %d) */cx_row<%s,%s,%s>("%s"),' % (text.replace('/', ''), a, b, f % ('T%d' % idx(t), 'T%d' % idx(u)), cxarg(a), cxarg(b), text))
        L = ['#include "cx.hpp"'] + types_decl(order) + ['static constexpr CxRow rows[] = {'] + R + ['};'] + DRIVER + ['run_cx(rows,sizeof rows/sizeof*rows,st);', 'st.report(); return 0; }']
        tus.append(TU('S20_%d' % i, L, (1, 1, 1), cxx='clang++' if i % 8 == 7 else 'g++', flags=['-fno-wrapv', '-O0']))
    ck.run(tus)


LITVALS = sorted({s * (2**k) + d for k in (0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 40, 62, 63, 64) for d in (-1, 0, 1) for s in (1, -1)} | {0, 10, 100, -100, 12345})


@prop
def S21(ck):
    ck.rule = ('literal values at and around every type limit and random ones: value, limits, text, negation, complement, conversions to all types containing them; every operator with a literal on either side of safe '
               'operands, compared with exact arithmetic and with the same value held in a one-point range; non-trivial: no operand is 0 or 1')
    r = ck.rng
    vals = LITVALS + [rand_value(r) for _ in range(N(ck, 40, 300))]

    def mk(v, p=None, e=None, uns=None):
        if v < -2**63 or v > 2**64 - 1:
            return None
        if uns is None:
            uns = v >= 0 and (v >= 2**63 or r.random() < .4)
        return t_ulit(v, p, e) if uns else t_slit(v, p, e)
    lits, seen = [], set()
    for v in vals:
        for uns in (False, True):
            if (uns and v < 0) or (not uns and v >= 2**63) or v < -2**63 or v >= 2**64:
                continue
            t = mk(v, uns=uns)
            if t.name not in seen:
                seen.add(t.name)
                lits.append(t)
    tus = []
    # the literals themselves
    L = []
    for t in lits:
        lo, hi = rng_of(t.base)
        cpl = ~t.mn if t.base[1] else hi - t.mn
        s = 'LitD x = lit_d<L>("%s",%d,%s);' % (t.name, t.base[1], c128(t.mn))
        if t.base[1] and lo <= -t.mn <= hi or t.mn == 0:
            s += ' lit_neg<L>(x);'
        s += ' lit_cpl<L>(x);'
        L.append('/*@ literal %s */{ typedef %s L; %s check_lit_d(x,%s,st); }' % (t.name, t.name, s, c128(cpl)))
    for v, sfx in ((5, ''), (300, 'u'), (-7, ''), (70000, 'L'), (2**40, 'LL'), (2**63 + 5, 'ULL'), (0, ''), (65, '')):
        for pe in ('void, void', 'sn::native, sn::loose_exception_policy'):
            L.append('/*@ make_safe_literal(%d%s, %s) */{ auto x = make_safe_literal((%d%s), %s); ++st.evals; if (val(x)!=%s || val(std::numeric_limits<decltype(x)>::max())!=%s) st.fail("make %d %s","make_safe_literal(%d%s) has another value"); }' %
                     (v, sfx, pe, v, sfx, pe, c128(v), c128(v), v, pe, v, sfx))
    ck.instances += len(L)
    for i, g in enumerate(split(L, 2)):
        tus.append(TU('S21_lit_%d' % i, ['#include "litr.hpp"', 'static void body(Stats&st) {'] + g + ['}'] + DRIVER + ['body(st);', 'st.report(); return 0; }'], (1, 1, 1)))
    # conversions
    for pol in ('native', 'automatic'):
        p, e = pol_args(pol, None)
        dst = [t_safe(b, p, e) for b in ALL11] + ([t_builtin(b) for b in ALL11] if pol == 'native' else [])
        rs = range_types(pol)
        pairs = [(l, d) for l in lits for d in dst + r.sample(rs, 6) + [t for t in rs if l.mn in (t.mn, t.mx)][:4] if d.mn <= l.mn <= d.mx]
        pairs = r.sample(pairs, min(len(pairs), N(ck, 1300, 8000)))
        tus += conv_tus(ck, pairs, 'conv_' + pol, N(ck, 2, 8), 10, header='litr.hpp')
    # operators
    ops = ARITH + SHIFT + BITS + CMP
    for pol, exc, share in (('native', None, .4), ('automatic', None, .4), ('native', 'sn::loose_exception_policy', .1), ('automatic', 'sn::loose_exception_policy', .1)):
        p, e = pol_args(pol, exc)
        pn, en = P_NAME[pol], exc or 'sn::default_exception_policy'
        types = safe_builtin_types(pol, exc) * 4 + [t_safe(b, p, e) for b in ('char', 'long long', 'unsigned long long')] + range_types(pol, exc) + [rand_range(r, p, e) for _ in range(20)]
        cases, seen, tries = [], set(), 0
        want = int(N(ck, 5200, 36000) * share)
        while len(cases) < want and tries < 40 * want:
            tries += 1
            op, t = r.choice(ops if not exc else ARITH + BITS + CMP), r.choice(types)
            x = r.random()
            l = mk(gen_in(r, t.mn, t.mx) if x < .3 else r.choice(vals) if x < .6 else r.choice([0, 1, 2, -1, 5, 10, 100, 255, -128]), *((pn, en) if r.random() < .2 else ()))
            if l is None:
                continue
            left = r.random() < .45
            if op in SHIFT and not left:
                l = mk(r.choice([0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64]))
            a, b = (l, t) if left else (t, l)
            if (op, a.name, b.name) in seen or not pair_ok(pol, op, a, b):
                continue
            seen.add((op, a.name, b.name))
            cases.append((op, a, b))

        def row(k, op, i, u, t, tu, pn=pn, en=en, pol=pol, p=p, e=e):
            def pt(x):
                if x.kind != 'lit':
                    return x.name
                y = t_srange(x.mn, x.mn, p, e) if x.base[1] else t_urange(x.mn, x.mn, p, e)
                return y.name
            return 'make_litrow<%s,T%d,T%d,%s,%s,%s,%s>(%d,%d,%d,%d)' % (op, i, u, pt(t), pt(tu), pn, en, k, 0 if pol == 'native' else 1, i, u)
        for tu in op_tus(ck, cases, pol, None, N(ck, 1500, 10000), N(ck, 3000, 70000), tag='_' + (exc or 'dflt')[4:8], parts=N(ck, 5 if share > .2 else 1, 16), includes=('litr.hpp',), row=row, body='for(auto&q:rows) run_lit(q,d,r,n,ex,st);'):
            tu.lines = [l.replace('static const Row rows[]', 'static const LRow rows[]').replace('for(auto&q:rows) cs.push_back(to_case(q,d));', '') for l in tu.lines]
            tus.append(tu)
    ck.run(tus)


def hull_of(op, t, u):
    f = {'ADD': lambda a, b: a + b, 'SUB': lambda a, b: a - b, 'MUL': lambda a, b: a * b}[op]
    c = [f(a, b) for a in (t.mn, t.mx) for b in (u.mn, u.mx)]
    return min(c), max(c)


def cannot_fail(pol, op, t, u):
    """no operand values of these ranges can make the operation fail; None: nothing is claimed"""
    if op == 'NEG':
        R = result_range(pol, 'SUB', t_builtin('int'), t) if pol == 'native' else I64
    else:
        R = result_range(pol, op, t, u)
    inside = lambda lo, hi: R[0] <= lo and hi <= R[1]
    if not inside(t.mn, t.mx) or (op != 'NEG' and not inside(u.mn, u.mx)):
        return False
    if op in ('ADD', 'SUB', 'MUL', 'NEG'):
        return inside(*hull_of(op, t, u))
    if op == 'DIV':
        if u.mn <= 0 <= u.mx:
            return False
        return not (t.mn == R[0] < 0 and u.mn <= -1 <= u.mx)
    return None


def retype(t, exc, pol):
    """the same operand type under another exception policy"""
    p = P_NAME[pol]
    if t.kind == 'builtin' or (t.kind == 'lit' and not t.pol and not t.exc):
        return t.name
    if t.kind == 'safe':
        return 'sn::safe<%s, %s, %s>' % (re.match(r'sn::safe<([a-z0-9_ ]+)', t.name).group(1), p, exc)
    return '%s<%s, %s, %s, %s>' % (t.name.split('<')[0], *((lit(t.mn), lit(t.mx)) if 'signed_range' in t.name and 'unsigned' not in t.name else ('%dULL' % t.mn, '%dULL' % t.mx)), p, exc)


TRAPK = 'template<int K> struct TK : sn::trap_exception { constexpr TK() = default; }; template<int K> using TP = sn::exception_policy<TK<K>,TK<K>,TK<K>,TK<K>>; template<int K> using LP = sn::exception_policy<TK<K>,sn::ignore_exception,sn::ignore_exception,sn::ignore_exception>;'
SYM = dict(zip(ARITH + SHIFT + BITS + CMP + ['NEG', 'CPL', 'POS'], ['+', '-', '*', '/', '%', '<<', '>>', '|', '&', '^', '<', '<=', '>', '>=', '==', '!=', '-', '~', '+']))


def error_lines(text, name, nlines):
    """lines of the program which errors of the compiler are about"""
    bad = set()
    for m in re.finditer(re.escape(name) + r':(\d+):\d+:\s+(?:error:|(?:required|  required) from|required from here|note: in instantiation)', text):
        bad.add(int(m.group(1)))
    for m in re.finditer(r"error:[^\n]*\bTK<(\d+)>", text):
        bad.add(('k', int(m.group(1))))
    return bad


def compile_rejects(ck, name, header, lines, cxx='g++', flags=()):
    """lines: (description, code) which must each be rejected; returns those which were not"""
    src = os.path.join(ck.bdir, name + '.cpp')
    text = header + ['/*@ %s */%s' % (d.replace('/', ''), c) for d, c in lines]
    with open(src, 'w') as f:
        f.write('\n'.join(text) + '\n')
    cmd = [cxx, '-std=c++14', '-O0'] + BASEFLAGS + list(flags) + ['-I', os.path.join(ROOT, 'harness'), '-I', os.path.join(REPO, 'include'), '-S', src, '-o', '/dev/null'] + (['-ferror-limit=0'] if 'clang' in cxx else [])
    rc, out, err = run_proc(cmd, 600)
    if rc == 'timeout' or (rc != 0 and RES.search(err)):
        rc, out, err = run_proc(cmd, 600)
    if rc == 'timeout' or (rc != 0 and RES.search(err)):
        ck.errors.append('resource failure compiling ' + name)
        return None
    bad = error_lines(err, name + '.cpp', len(text))
    return [(k, d) for k, (d, c) in enumerate(lines) if (len(header) + k + 1) not in bad and ('k', k) not in bad], (src, cmd)


@prop
def S22(ck):
    ck.rule = ('operators and conversions over generated operand ranges: where operand values are found which fail under the throwing policy, the same expression must not compile under the trapping one; where exact interval '
               'arithmetic excludes failure (+ - * /, conversions) it must compile and every evaluation be exact; distinct by types and values')
    r = ck.rng
    tus, plan = [], []
    for pol, strict in (('native', True), ('automatic', True), ('native', False), ('automatic', False)):
        exc = 'sn::strict_exception_policy' if strict else 'sn::loose_exception_policy'
        trap = 'sn::strict_trap_policy' if strict else 'sn::loose_trap_policy'
        ops = ARITH + ['NEG'] + (SHIFT + CMP if strict else CMP[:2] + ['EQ'])
        cases = op_cases(r, pol, ops, N(ck, 2600 if strict else 900, 14000), exc=exc, builtin_pairs=.12)
        # ranges just inside and just outside what the type of the operation can hold
        for _ in range(N(ck, 500 if strict else 150, 3000)):
            op = r.choice(['ADD', 'SUB', 'MUL', 'DIV'])
            t, u = targeted_pair(r, pol, op, exc)
            if pair_ok(pol, op, t, u):
                cases.append((op, t, u))
        for _ in range(N(ck, 250, 1500)):
            op, t = r.choice(['ADD', 'SUB', 'MUL', 'DIV']), r.choice(range_types(pol, exc))
            v = r.choice([1, 2, -1, 10, -7, 100, 0, 2**31, 5])
            l = t_slit(v)
            c = (op, t, l) if r.random() < .7 else (op, l, t)
            if pair_ok(pol, op, c[1], c[2]):
                cases.append(c)
        r.shuffle(cases)
        cases = list({(c[0], c[1].name, c[2].name): c for c in cases}.values())[:N(ck, 1300 if strict else 400, 12000)]
        pairs = [(s, d) for s, d in conv_pairs(r, 1500, pol, exc) if s.kind != 'lit' and d.kind != 'lit' and (s.safe or d.safe)]
        pairs = r.sample(pairs, N(ck, 350 if strict else 120, 1200))
        probe = []
        for i, g in enumerate(split(list(enumerate(cases)), N(ck, 2, 8))):
            tu = emit_ops('S22_probe_%s%d_%d' % (pol, strict, i), [c for _, c in g], pol, None, (ck.seed * 1000 + i, N(ck, 3000, 20000), 0), includes=('trap.hpp',), body='for(auto&q:rows) probe_op(q,d,r,n,st);')
            probe.append((tu, [k for k, _ in g]))
            tus.append(tu)
        order = {}
        for s, d in pairs:
            for t in (s, d):
                order.setdefault(t.name, (len(order), t))
        ids = lambda s, d: (order[s.name][0], order[d.name][0])
        L = ['#include "trap.hpp"'] + ['typedef %s T%d;' % (n, k) for n, (k, t) in order.items()] + ['static const TD d[] = {'] + ['make_td<T%d>("%s",%s,%s),' % (k, n, c128(t.mn), c128(t.mx)) for n, (k, t) in order.items()] + ['};', 'static const ConvRow rows[] = {'] + \
            ['/*@ %s from %s */make_conv<F_CONSTRUCT,T%d,T%d>(%d,%d),' % (d.name, s.name, *ids(s, d), *ids(s, d)) for s, d in pairs] + ['};'] + DRIVER + ['int k=0; for(auto&q:rows) probe_conv(k++,q,d,r,n,st);', 'st.report(); return 0; }']
        cv = TU('S22_probeconv_%s%d' % (pol, strict), L, (ck.seed, N(ck, 300, 3000), 0))
        tus.append(cv)
        plan.append((pol, strict, exc, trap, cases, pairs, probe, cv))
        ck.instances += len(cases) + len(pairs)
    ck.run(tus)
    # what has to compile: run with the stock policy
    tus, jobs, single = [], [], []
    nrej = nacc = 0
    for pol, strict, exc, trap, cases, pairs, probe, cv in plan:
        fails = {}
        for tu, ks in probe:
            for key, ex in ((tu.result or {}).get('out') or {}).items():
                fails[ks[int(key[2:])]] = ex
        rej = []
        acc = []
        for k, (op, t, u) in enumerate(cases):
            cf = cannot_fail(pol, op, t, u) if op in ('ADD', 'SUB', 'MUL', 'DIV') else None
            if k in fails:
                if cf:
                    ck.violation('accept|%s' % fails[k], 'fails although its operand ranges exclude it: ' + fails[k])
                else:
                    rej.append((op, t, u, fails[k]))
            elif cf:
                acc.append((op, t, u))
        ident = lambda t: Ty(retype(t, trap, pol), t.mn, t.mx, t.base, t.kind, P_NAME[pol], trap)
        acc2 = [(op, ident(t), ident(u)) for op, t, u in acc]
        nacc += len(acc2)
        for i, g in enumerate(split(acc2, N(ck, 2 if strict else 1, 8))):
            tus.append(emit_ops('S22_accept_%s%d_%d' % (pol, strict, i), g, pol, 'check_exact', (ck.seed * 1000 + i, N(ck, 2000, 10000), N(ck, 3000, 70000)), includes=('trap.hpp',)))
        cpairs = [(ident(s), ident(d)) for s, d in pairs if d.mn <= s.mn and s.mx <= d.mx]
        nacc += len(cpairs)
        if cpairs:
            tus += conv_tus(ck, cpairs, 'acceptconv_%s%d' % (pol, strict), 1, N(ck, 500, 5000), header='trap.hpp', judge='conv_exact')
        cfails = {int(k[2:]): v for k, v in ((cv.result or {}).get('out') or {}).items()}
        rows = []
        mk = lambda t, K: retype(t, '%s<%s>' % ('TP' if strict else 'LP', K), pol)
        for op, t, u, ex in rej:
            rows.append((op, t, u, ex))
        for k, ex in cfails.items():
            rows.append(('CONV', pairs[k][0], pairs[k][1], ex))
        nrej += len(rows)

        def code(op, t, u, K, ex, name):
            a, b = name(t, K), name(u, K)
            if op == 'CONV':
                return 'void r%s(const %s&t) { const %s d(t); (void)d; }' % (K, a, b)
            if op in UNARY:
                return 'void r%s(const %s&t) { (void)(%st); }' % (K, a, SYM[op])
            return 'void r%s(const %s&t, const %s&u) { (void)(t %s u); }' % (K, a, b, SYM[op])
        r.shuffle(rows)
        rows = rows[:N(ck, 700 if strict else 250, 6000)]
        for i, g in enumerate(split(rows, N(ck, 3 if strict else 1, 12))):
            jobs.append(('S22_reject_%s%d_%d' % (pol, strict, i), ['#include "ops.hpp"', TRAPK], [(ex, code(op, t, u, str(k), ex, mk)) for k, (op, t, u, ex) in enumerate(g)]))
        nm = lambda t, K: retype(t, trap, pol)
        by_code = {}  # every kind of error, for the stock policies
        for row in rows:
            by_code.setdefault((row[3].rsplit('-> ', 1)[1], 'CONV' if row[0] == 'CONV' else ''), []).append(row)
        some = [row for _, g in sorted(by_code.items(), key=lambda kv: kv[0]) for row in g[:N(ck, 2, 6)]] + r.sample(rows, min(len(rows), N(ck, 4, 60)))
        for k, (op, t, u, ex) in enumerate(some):
            single.append(('S22_stock_%s%d_%d' % (pol, strict, k), ['#include "ops.hpp"'], [(ex, code(op, t, u, str(k), ex, nm))]))
    for k, b in enumerate(['int', 'unsigned char', 'long', 'char']):
        single.append(('S22_dflt_%d' % k, ['#include "ops.hpp"'], [('default construction under strict_trap_policy of ' + b, 'void f() { sn::safe<%s, sn::native, sn::strict_trap_policy> x; (void)x; }' % b)]))
        tus.append(TU('S22_okdflt_%d' % k, ['#include "ops.hpp"', '/*@ default construction under loose_trap_policy of %s */int main() { Stats st; sn::safe<%s, sn::native, sn::loose_trap_policy> x; (void)x; ++st.evals; st.report(); }' % (b, b)]))
    done = parallel(lambda j: (j, compile_rejects(ck, *j)), jobs + single)
    for (name, hdr, lines), res in done:
        if not res:
            continue
        missed, (src, cmd) = res
        ck.evals += len(lines)
        ck.distinct += len(lines)
        ck.classes['expressions which must not compile'] = ck.classes.get('expressions which must not compile', 0) + len(lines)
        for k, d in missed:
            t = TU(name, hdr + ['/*@ %s */%s' % (lines[k][0].replace('/', ''), lines[k][1])])
            ck.violation('compiles|' + d, 'compiles under a trapping policy although it can fail: %s' % d, t)
    ck.samples += [l[0] + ' (rejected under the trapping policy)' for j in r.sample(jobs, min(4, len(jobs))) for l in j[2][:1]]
    ck.run(tus)
    ck.extra['must_compile'], ck.extra['must_not_compile'] = nacc, nrej


XA = 'template<int K> struct XA : sn::throw_exception { constexpr XA() = default; }; template<int K> using EA = sn::exception_policy<XA<K>,XA<K>,XA<K>,sn::ignore_exception>;'
PROMO = ['sn::native', 'sn::automatic', 'sn::cpp<8,16,32,64,64>', 'sn::cpp<8,16,16,32,64>', 'sn::cpp<8,16,32,32,64>', 'sn::cpp<8,8,8,16,32>', 'sn::cpp<64,64,64,64,64>']
COMPOUND = ['+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '|=', '&=', '^=']


def repol(t, pol, exc):
    """the operand type with these policies (both may be None for none)"""
    if t.kind == 'builtin':
        return t.name
    p = [x for x in (pol, exc) if x]
    if t.kind == 'safe':
        a = [re.match(r'sn::safe<([a-z0-9_ ]+)', t.name).group(1)]
    elif t.kind == 'lit':
        a = [re.match(r'sn::safe_(?:un)?signed_literal<([^,>]+)', t.name).group(1)]
    else:
        a = [lit(t.mn), lit(t.mx)] if 'safe_signed' in t.name else ['%dULL' % t.mn, '%dULL' % t.mx]
    return '%s<%s>' % (t.name.split('<')[0], ', '.join(a + p))


def disjoint_pair(r, safe, built, rngs, lits):
    """source, destination (a safe type) without a common value"""
    while True:
        x = r.random()
        d = r.choice(rngs) if x < .85 else r.choice(safe)
        y = r.random()
        if y < .3:  # just beyond one end
            if r.random() < .5:
                lo = d.mx + r.choice([1, 1, 2, 100])
                hi = lo + r.choice([0, 0, 1, 10, 2**20, 2**40])
            else:
                hi = d.mn - r.choice([1, 1, 2, 100])
                lo = hi - r.choice([0, 0, 1, 10, 2**20, 2**40])
            if lo < -2**63 or hi > 2**64 - 1 or (lo < 0 and hi >= 2**63):
                continue
            s = rng_type(r, lo, hi, 'native', None)
        else:
            s = r.choice(rngs) if y < .6 else r.choice(safe) if y < .7 else r.choice(built) if y < .85 else r.choice(lits)
        if s.mx < d.mn or d.mx < s.mn:
            return s, d


@prop
def S23(ck):
    ck.rule = ('expressions and conversions which must be rejected (policies that differ, ranges without a common value), each by an error of the compiler at its own line, and their counterparts which must compile and be '
               'right (one side without a policy, equal policies, conversions sharing a value, between policies too); distinct by types and values')
    r = ck.rng
    ck.assumptions.append('a conversion of a safe type to a built-in type is not required to be rejected: the statement is about conversions into safe types')
    rngs = [t_srange(a, b) for a, b in S_RANGES] + [t_urange(a, b) for a, b in U_RANGES] + [rand_range(r) for _ in range(60)]
    safe = [t_safe(b) for b in MAIN8 + ['char', 'long long', 'unsigned long long']]
    built = [t_builtin(b) for b in MAIN8 + ['char', 'long long', 'unsigned long long']]
    lits = [t_slit(v) for v in (0, 1, -1, 5, 127, 128, -128, -129, 300, 2**31, -2**31, 2**40, 2**63 - 1, -2**63)] + [t_ulit(v) for v in (0, 1, 8, 255, 256, 2**32, 2**63, 2**64 - 1)]
    ops = ARITH + SHIFT + BITS + CMP
    rows = []  # (description, code(K))
    n = 0

    def add(desc, body, params):
        nonlocal n
        rows.append((desc, 'void r%d(%s) { %s }' % (n, ', '.join(params), body)))
        n += 1
    # 1. different policies
    for _ in range(N(ck, 2600, 20000)):
        which = r.choice(['exception', 'promotion', 'promotion', 'both'])
        while True:
            t, u = r.choice(rngs + safe * 4), r.choice(rngs + safe * 4 + lits)
            if r.random() < .5:
                t, u = u, t
            op = r.choice(ops + COMPOUND)
            base = ops[COMPOUND.index(op)] if op in COMPOUND else op
            if op in COMPOUND and t.kind == 'lit' or not all(pair_ok(p, base, t, u) for p in ('native', 'automatic')):
                continue
            break
        p = r.choice(PROMO)
        q = r.choice([x for x in PROMO if x != p]) if which != 'exception' else p
        if which == 'exception':
            p = q = r.choice(PROMO[:3])
        e, f = 'EA<%d>' % (2 * n), 'EA<%d>' % (2 * n + (which != 'promotion'))
        if which == 'exception' and r.random() < .5:
            f = r.choice(['sn::strict_exception_policy', 'sn::loose_exception_policy', 'sn::loose_trap_policy', 'sn::strict_trap_policy'])
            if r.random() < .5:
                e, f = f, e
        a, b = repol(t, p, e), repol(u, q, f)
        sym = op if op in COMPOUND else SYM[op]
        add('%s %s %s (%s policies differ)' % (a, sym, b, which), '(void)(t %s u);' % sym, [('' if op in COMPOUND else 'const ') + a + ' &t', 'const ' + b + ' &u'])
    # 2. conversions between ranges without a common value
    for _ in range(N(ck, 2600, 20000)):
        s, d = disjoint_pair(r, safe, built, rngs, lits)
        e = 'EA<%d>' % (2 * n)
        p = r.choice(PROMO)
        d2 = repol(d, p, e)
        x = r.random()
        s2 = repol(s, None, None) if s.kind == 'lit' and x < .7 else repol(s, p, e) if x < .5 else repol(s, r.choice(PROMO), 'EA<%d>' % (2 * n + 1)) if x < .75 else repol(s, r.choice(PROMO[:2]), r.choice(['sn::strict_exception_policy', 'sn::loose_exception_policy']))
        form = r.choice(['const D d(t); (void)d;', 'd = t;', '(void)static_cast<D>(t);', 'const D d = t; (void)d;', 'return t;'])
        if form == 'return t;':
            rows.append(('%s from %s by return' % (d2, s2), '%s r%d(const %s &t) { return t; }' % (d2, n, s2)))
            n += 1
        elif form == 'd = t;':
            add('%s from %s by assignment' % (d2, s2), form, [d2 + ' &d', 'const ' + s2 + ' &t'])
        else:
            add('%s from %s by %s' % (d2, s2, 'static_cast' if 'cast' in form else 'construction'), form.replace('D', d2), ['const ' + s2 + ' &t'])
    r.shuffle(rows)
    jobs = [('S23_reject_%d' % i, ['#include "ops.hpp"', XA], g) for i, g in enumerate(split(rows, N(ck, 16, 60)))]
    # the stock policies alone in a program, as a user writes them
    stock = [('sn::native', 'sn::strict_exception_policy'), ('sn::automatic', 'sn::strict_exception_policy'), ('sn::native', 'sn::loose_exception_policy'), ('sn::automatic', 'sn::loose_exception_policy'), ('sn::cpp<8,16,32,64,64>', 'sn::loose_exception_policy')]
    single = []
    for k in range(N(ck, 12, 80)):
        a, b = r.sample(stock, 2)
        t, u, op = r.choice(safe), r.choice(safe), r.choice(ops)
        x, y = repol(t, *a), repol(u, *b)
        single.append(('S23_stock_%d' % k, ['#include "ops.hpp"'], [('%s %s %s' % (x, SYM[op], y), 'void f(const %s &t, const %s &u) { (void)(t %s u); }' % (x, y, SYM[op]))]))
    for k in range(N(ck, 12, 80)):
        s, d = disjoint_pair(r, safe, built, rngs, lits)
        single.append(('S23_conv_%d' % k, ['#include "ops.hpp"'], [('%s from %s' % (d.name, s.name), 'void f(const %s &t) { const %s d(t); (void)d; }' % (s.name, d.name))]))
    done = parallel(lambda j: (j, compile_rejects(ck, *j)), jobs + single)
    for (name, hdr, lines), res in done:
        if not res:
            continue
        missed, (src, cmd) = res
        ck.evals += len(lines)
        ck.distinct += len(lines)
        ck.instances += len(lines)
        ck.classes['expressions which must not compile'] = ck.classes.get('expressions which must not compile', 0) + len(lines)
        for k, d in missed:
            ck.violation('compiles|' + d, 'compiles although it must be rejected: ' + d, TU(name, hdr + ['/*@ %s */%s' % (lines[k][0].replace('/', ''), lines[k][1])]))
    ck.samples += ['rejected: ' + l[0] for j in r.sample(jobs, min(6, len(jobs))) for l in j[2][:1]]
    # 3. counterparts which compile: one side without a policy of its own, or the same policies
    tus = []
    for pol, pname, exc in (('native', None, None), ('automatic', 'sn::automatic', None), ('native', 'sn::cpp<8,16,32,64,64>', 'EA<1>'), ('automatic', 'sn::automatic', 'EA<2>'), ('native', 'sn::native', 'sn::loose_exception_policy'), ('native', 'sn::native', 'EA<3>')):
        cases, seen = [], set()
        P = lambda t: Ty(repol(t, pname or ('sn::native' if exc else None), exc), t.mn, t.mx, t.base, t.kind, pname, exc)
        want = N(ck, 900, 6000)
        for _ in range(20 * want):
            if len(cases) >= want:
                break
            op = r.choice(ops)
            x = r.random()
            t = P(r.choice(rngs + safe * 5))
            u = r.choice(built) if x < .45 else r.choice(lits) if x < .8 else P(r.choice(rngs + safe * 5))
            if x < .8 and r.random() < .5:
                t, u = u, t
            # known finding KF2 (S19): cpp<> promotes a narrow unsigned type to unsigned int; ignored errors of shifts: S11
            if 'cpp' in (pname or '') and any(x.base[0] < 32 and not x.base[1] for x in (t, u)) or 'loose' in (exc or '') and op in SHIFT:
                continue
            if pair_ok(pol, op, t, u) and (op, t.name, u.name) not in seen and not (op in SHIFT and u.kind == 'lit'):
                seen.add((op, t.name, u.name))
                cases.append((op, t, u))
        tus += op_tus(ck, cases, pol, 'check_value', N(ck, 300, 3000), N(ck, 300, 3000), tag='_ok%d' % len(tus), parts=N(ck, 1, 6), pre=[XA])
    for i, (a, b) in enumerate([(('sn::native', 'EA<1>'), ('sn::automatic', 'EA<1>')), (('sn::automatic', 'EA<1>'), ('sn::automatic', 'EA<2>')), (('sn::cpp<8,16,16,32,64>', 'EA<3>'), ('sn::native', 'EA<4>')), ((None, None), ('sn::automatic', 'sn::loose_exception_policy'))]):
        P = lambda t, z: Ty(repol(t, *z), t.mn, t.mx, t.base, t.kind, z[0], z[1]) if t.safe and t.kind != 'lit' else t
        pairs, seen = [], set()
        for _ in range(40000):
            if len(pairs) >= N(ck, 800, 5000):
                break
            if r.random() < .3:  # exactly one common value
                d = r.choice(rngs)
                v = r.choice([d.mn, d.mx])
                w = v + r.choice([1, 10, 2**20, 2**40]) * (1 if v == d.mx else -1)
                if r.random() < .2:
                    w = v
                lo, hi = min(v, w), max(v, w)
                if lo < -2**63 or hi > 2**64 - 1 or (lo < 0 and hi >= 2**63):
                    continue
                s = rng_type(r, lo, hi, 'native', None)
            else:
                s, d = r.choice(rngs + safe * 3 + built * 2 + lits), r.choice(rngs + safe * 3)
            if not overlap((s.mn, s.mx), (d.mn, d.mx)):
                continue
            s, d = P(s, a), P(d, b)
            if (s.name, d.name) not in seen:
                seen.add((s.name, d.name))
                pairs.append((s, d))
        tus += conv_tus(ck, pairs, 'okconv%d' % i, N(ck, 1, 6), N(ck, 200, 2000), forms=2, pre=[XA])
    ck.extra['must_compile'] = ck.instances - len(rows) - len(single)
    ck.extra['must_not_compile'] = len(rows) + len(single)
    ck.run(tus)


@prop
def S24(ck):
    ck.rule = ('all error codes in every table (class, condition, message, name, dispatch, throwing handler), and generated failing operations, conversions, reads and default constructions under the throwing policies compared with a '
               'recording policy; non-trivial: the operation fails; distinct by operation, types and values')
    r = ck.rng
    tus = []
    for i in range(2 if ck.quick else 12):  # the tables in other orders, other categories first
        ks = list(range(11))
        r.shuffle(ks)
        tus.append(TU('S24_order%d' % i, ['#include "errs.hpp"'] + DRIVER + (['g_foreign_first = true;'] if i % 2 == 0 else []) + ['table<%d>(st);' % k for k in ks] + ['st.report(); return 0; }'], (1, 1, 1)))
    L = ['#include "errs.hpp"'] + DRIVER + ['table<%d>(st);' % k for k in range(11)]
    for k in range(1, 11):
        L += ['table_r<%d,%s>(st,"%s");' % (k, t, t) for t in ALL11]
    L.append('{ std::string a=sn::safe_numerics_error_category.name(), b=sn::safe_numerics_actions_category.name(); ++st.evals; if(a.empty()||b.empty()||a==b||std::string(sn::safe_numerics_actions_category.message(2)).empty()) st.fail("category names","category names are empty or equal"); }')
    tus.append(TU('S24_tables', L + ['st.report(); return 0; }'], (1, 1, 1)))
    for exc in (None, 'sn::strict_exception_policy', 'sn::loose_exception_policy', 'ThrowAll'):
        L = ['#include "errs.hpp"'] + DRIVER
        for pol in ('sn::native', 'sn::automatic'):
            for b in ALL11 + ['R1', 'R2']:
                tail = '%s%s' % (pol, ', ' + exc if exc else '')
                t = 'sn::safe<%s, %s>' % (b, tail) if b[0] != 'R' else 'sn::safe_signed_range<-5,100,%s>' % tail if b == 'R1' else 'sn::safe_unsigned_range<3ULL,70000ULL,%s>' % tail
                want = 10 if exc == 'ThrowAll' else 0
                L.append('/*@ default construction of %s */{ Out o; g_insp=""; guard_body(o,[&]{ thrower([&]{ %s x; (void)x; }); }); ++st.evals; st.nontrivial_unique(); st.cls("default construction"); if((o.kind==K_ERROR?o.code:o.kind==K_VALUE?0:-1)!=%d||!g_insp.empty()) st.fail("default construction of %s","default construction of %s: "+show(o)+" "+g_insp); }' % (t, t, want, t, t))
                for txt in ['', 'x', '-', '99999999999999999999999', '-99999999999999999999999', '1e', '70001', '-6', '300']:
                    L.append('/*@ reading %s */{ Out o; %s x(5); g_insp=""; guard_body(o,[&]{ thrower([&]{ std::istringstream is("%s"); is>>x; }); }); ++st.evals; st.nontrivial_unique(); st.cls("stream input"); if(o.kind==K_OTHER||(o.kind==K_ERROR&&(class_of(o.code)!=CL_AE||!g_insp.empty()))) st.fail("reading %s","reading \\"%s\\" into %s: "+show(o)+" "+g_insp); }' % (t, t, txt, t, txt, t))
        tus.append(TU('S24_misc_' + (exc or 'default').split('::')[-1], L + ['st.report(); return 0; }'], (1, 1, 1)))
    for pol, exc, share in (('native', None, .4), ('automatic', None, .25), ('native', 'sn::strict_exception_policy', .1), ('native', 'sn::loose_exception_policy', .15), ('automatic', 'ThrowAll', .1)):
        loose = exc and 'loose' in exc
        cases = op_cases(r, pol, ARITH + SHIFT + CMP + ['NEG'], int(N(ck, 3200, 40000) * share), exc=exc, builtin_pairs=.25 * share)
        cases = r.sample(cases, min(len(cases), int(N(ck, 3200, 40000) * share)))
        pn = 'sn::' + pol
        rec = lambda t: t.name if t.kind in ('builtin', 'lit') else repol(t, pn, 'RecT')
        for i, g in enumerate(split(cases, max(1, int(N(ck, 12, 60) * share)))):
            ck.instances += len(g)
            tu = emit_ops('S24_%s_%s_%d' % (pol, (exc or 'default').split('::')[-1], i), g, pol, None, (ck.seed * 1000 + i, N(ck, 1500, 10000), 0), includes=('errs.hpp',),
                          row=lambda k, op, i, u, t, tu: 'make_erow<%s,T%d,T%d,%s,%s>(%d,%d,%d,%d)' % (op, i, u, rec(t), rec(tu), k, pol != 'native', i, u),
                          body='for(auto&q:rows) run_e(q,d,r,n,%s,st);' % ('true' if loose else 'false'))
            tu.lines = [l.replace('static const Row rows[]', 'static const ERow rows[]').replace('for(auto&q:rows) cs.push_back(to_case(q,d));', '') for l in tu.lines]
            tus.append(tu)
        pairs = [(s, d) for s, d in conv_pairs(r, 1500, pol, exc) if d.kind != 'lit' and not (d.mn <= s.mn and s.mx <= d.mx)]
        pairs = r.sample(pairs, min(len(pairs), int(N(ck, 1200, 6000) * share)))
        order = {}
        for s, d in pairs:
            for t in (s, d):
                order.setdefault(t.name, (len(order), t))
        ids = lambda t: order[t.name][0]
        rows = []
        for s, d in pairs:
            f = r.choice(FORMS)
            rows.append('/*@ %s from %s (%s) */make_ecrow<%s,T%d,T%d,%s,%s>(%d,%d),' % (d.name, s.name, f, f, ids(s), ids(d), rec(s), rec(d), ids(s), ids(d)))
        ck.instances += len(rows)
        tus.append(TU('S24_conv_%s_%s' % (pol, (exc or 'default').split('::')[-1]), ['#include "errs.hpp"'] + ['typedef %s T%d;' % (n, k) for n, (k, t) in order.items()] + ['static const TD d[] = {'] + ['make_td<T%d>("%s",%s,%s),' % (k, n, c128(t.mn), c128(t.mx)) for n, (k, t) in order.items()] +
                      ['};', 'static const ECRow rows[] = {'] + rows + ['};'] + DRIVER + ['for(auto&q:rows) run_ec(q,d,r,n,st);', 'st.report(); return 0; }'], (ck.seed * 1000, N(ck, 2000, 15000), 0)))
    ck.run(tus)


UB = ['-fno-wrapv', '-fsanitize=undefined', '-fsanitize-undefined-trap-on-error', '-D_GLIBCXX_ASSERTIONS', '-g0']


@prop
def S25(ck):
    ck.rule = ('operators (both policies, three throwing policies), conversions, update histories, stream input, checked primitives, checked results, intervals, bit helpers and mixed comparisons on generated operands, compiled with '
               '-fsanitize=undefined so that undefined behaviour traps; a trap, a failed assertion or another crash is a violation; non-trivial: as in S01-S18')
    ck.only = 'crash'
    ck.assumptions.append("undefined behaviour is what g++ 13's -fsanitize=undefined and libstdc++'s assertions recognise")
    r = ck.rng
    tus = []
    for pol, exc, share in (('native', None, .45), ('automatic', None, .35), ('native', 'sn::loose_exception_policy', .1), ('automatic', 'sn::strict_exception_policy', .1)):
        ops = ARITH + SHIFT + BITS + CMP + UNARY
        if exc and 'loose' in exc:
            ops = [o for o in ops if o not in SHIFT]  # whose errors that policy ignores
        budget = int(N(ck, 3600, 30000) * share)
        cases = op_cases(r, pol, ops, budget, exc=exc, builtin_pairs=.12)
        cases = r.sample(cases, min(len(cases), budget))
        tus += op_tus(ck, cases, pol, 'check_nocrash', N(ck, 2000, 10000), N(ck, 4000, 70000), tag='_' + (exc or 'dflt')[4:8], parts=max(1, int(N(ck, 12, 80) * share)), includes=('ub.hpp',), flags=UB)
        pairs = r.sample(conv_pairs(r, 1500, pol, exc), int(N(ck, 700, 4000) * share) if not exc else 60)
        tus += conv_tus(ck, pairs, 'conv_%s_%s' % (pol, (exc or 'dflt')[4:8]), 1, N(ck, 2000, 10000), header='ub.hpp', judge='conv_nocrash')
    for t in MAIN8 if ck.quick else ALL11:
        b = ['{ std::vector<Prim> ps; add_ops<%s>(ps,"%s");' % (t, t)] + ['add_cast<%s,%s>(ps,"%s","%s");' % (t, u, t, u) for u in ALL11]
        for _ in range(N(ck, 6, 40)):
            lo, hi = rand_subrange(r, t)
            u = r.choice(ALL11)
            b.append('add_castr<%s,(%s)%s,(%s)%s,%s>(ps,"%s [%d,%d]","%s");' % (t, t, lit(lo), t, lit(hi), u, t, lo, hi, u))
        b += ['for(auto&p:ps) run_prim(p,r,n/4,ex,st); }', '{ ExtRun<%s> e{"%s",r,st,n,ex}; for(int o: {%s}) e.run_arith(o); for(int o=LT;o<=NE;++o) e.run_cmp3(o); }' % (t, t, ','.join(EXT_OPS)),
              '{ IvRun<%s> e{"%s",r,st,n/2}; for(int o: {ADD,SUB,MUL,DIV,MOD,SHL,SHR}) e.run_op(o); e.run_sets(); for(int p=0;p<e.NPRED;++p) e.run_pred(p); }' % (t, t),
              'ub_intervals<%s>("%s",r,st,n);' % (t, t), '{ UtilRun<%s> e{"%s",r,st,n,ex}; e.run(); }' % (t, t),
              '{ std::vector<CmpRow> ps; ' + ' '.join('add_cmp<%s,%s>(ps,"%s","%s");' % (t, u, t, u) for u in r.sample(ALL11, N(ck, 4, 11))) + ' for(auto&p:ps) run_cmp(p,r,n/4,ex,st); }']
        ck.instances += len(b)
        tus.append(TU('S25_low_' + t.replace(' ', '_'), ['#include "ub.hpp"'] + DRIVER + b + ['st.report(); return 0; }'], (ck.seed * 1000 + 7, N(ck, 40000, 1000000), 80000)))
    for i in range(N(ck, 3, 16)):
        pol = 'native' if i % 2 == 0 else 'automatic'
        L = ['#include "hist.hpp"']
        for k in range(4):
            L += hist_machine(r, k, pol, ck)
        L += DRIVER + ['{ Hist h(m%d::machine,r,st); h.go(n); }' % k for k in range(4)] + ['st.report(); return 0; }']
        tus.append(TU('S25_hist_%d' % i, L, (ck.seed * 1000 + i, N(ck, 8000, 100000), 0)))
    for t in tus:
        t.flags = list(UB)
    ck.run(tus)


@prop
def S28(ck):
    ck.rule = ('safe types (all stored types, policies, random ranges) x values printed bare, with make_range_value, make_result_display and as an interval, narrow and wide streams; intervals and checked results over built-in '
               'types with random bounds, codes and messages; the text is compared with one made from the exact numbers; non-trivial: an error, or a number negative or > 9')
    r = ck.rng
    types = [t_safe(b) for b in ALL11] + [t_safe(b, 'sn::automatic') for b in ALL11] + [t_safe(b, 'sn::native', 'sn::loose_exception_policy') for b in ('int', 'unsigned char')]
    rs = range_types('native') + range_types('automatic') + [rand_range(r) for _ in range(N(ck, 40, 200))]
    types += r.sample(rs, N(ck, 70, len(rs)))
    ck.instances = len(types)
    tus = []
    for i, g in enumerate(split(types, 6)):
        L = ['#include "prnt.hpp"'] + ['typedef %s T%d;' % (t.name, k) for k, t in enumerate(g)] + ['static const TD d[] = {'] + \
            ['make_td<T%d>("%s",%s,%s),' % (k, t.name, c128(t.mn), c128(t.mx)) for k, t in enumerate(g)] + ['};', 'static const PRow rows[] = {'] + \
            ['/*@ printing %s */make_prow<T%d>(),' % (t.name, k) for k, t in enumerate(g)] + ['};'] + DRIVER + \
            ['for(size_t k=0;k<sizeof rows/sizeof*rows;++k) run_prsafe(rows[k],d[k],r,st,n);', 'st.report(); return 0; }']
        tus.append(TU('S28_%d' % i, L, (ck.seed * 1000 + i, N(ck, 4000, 100000), 0)))
    more = per_type(ck, lambda t: ['PrBuilt<%s> e{"%s",r,st,n*8};' % (t, t), 'e.go();'], N(ck, 4000, 100000), 0, types=[t for t in ALL11 if t != 'char'])
    for t in more:
        t.lines[0] = '#include "prnt.hpp"'
    ck.run(tus + more)


FLOATS = ['float', 'double', 'long double']


@prop
def S29(ck):
    ck.rule = ('float, double and long double values (around the limits with fractions, neighbours of representable values, powers of two, any magnitude, infinities, NaN) cast to every built-in integer type, '
               'to random subranges and to safe<> types; non-trivial: not 0 or 1')
    r = ck.rng

    def body(rt):
        L = ['std::vector<FCast> fs;']
        for f in FLOATS:
            L.append('add_fcast<%s,%s>(fs,"%s","%s");' % (rt, f, rt, f))
            L.append('add_fsafe<%s,%s>(fs,"%s","%s");' % (rt, f, rt, f))
            for _ in range(N(ck, 8, 60)):
                a, b = rand_subrange(r, rt)
                L.append('add_fcastr<%s,(%s)%s,(%s)%s,%s>(fs,"%s [%d,%d]","%s");' % (rt, rt, lit(a), rt, lit(b), f, rt, a, b, f))
        return L + ['for(auto&p:fs) run_fcast(p,r,n,st);']
    ck.run(per_type(ck, body, N(ck, 60000, 1500000), 0))


@prop
def S30(ck):
    from .units import s30
    s30(ck)


@prop
def S31(ck):
    from .progs import s31
    s31(ck)


@prop
def S32(ck):
    from .upols import s32
    s32(ck)
