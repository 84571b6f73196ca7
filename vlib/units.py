"""S30: generated programs of several translation units, each with its own headers, order, compiler, dialect and options."""
import copy
from .common import *
from .ops import *

SN = 'boost/safe_numerics/'
HEADERS = ['automatic', 'checked_default', 'checked_integer', 'checked_result', 'checked_result_operations', 'cpp', 'exception', 'exception_policies',
           'interval', 'native', 'range_value', 'safe_base', 'safe_base_operations', 'safe_common', 'safe_compare', 'safe_integer', 'safe_integer_literal',
           'safe_integer_range', 'utility', 'concept/exception_policy', 'concept/integer', 'concept/numeric', 'concept/promotion_policy']
KF_HEADER = 'checked_float'  # never finished: does not compile in any context
STDH = ['algorithm', 'cmath', 'cstdint', 'functional', 'iomanip', 'iostream', 'iterator', 'limits', 'map', 'memory', 'numeric', 'ostream', 'string', 'tuple', 'type_traits', 'utility', 'vector', 'cassert', 'system_error']
CXX, STD, OPT = ['g++', 'clang++'], ['c++14', 'c++17', 'c++20'], ['-O0', '-O1', '-O2']
CODES = 11
# class of each error code: the documented table (0 none, 1 uninitialized, 2 arithmetic, 3 implementation defined, 4 undefined)
CLASS = [0, 2, 2, 2, 2, 2, 2, 3, 3, 3, 1]


def hdr(h):
    return SN + h + '.hpp'


def needs_of(t):
    n = {'safe': ['safe_integer'], 'srange': ['safe_integer_range'], 'urange': ['safe_integer_range'], 'lit': ['safe_integer_literal']}.get(t.kind, [])
    if t.pol == 'sn::automatic':
        n = n + ['automatic']
    return n


def val_in(r, t):
    lo, hi = max(t.mn, -2**63), min(t.mx, 2**63 - 1)
    k = r.random()
    if k < .35:
        v = r.choice([lo, hi, lo + 1, hi - 1])
    elif k < .6:
        v = r.randrange(-3, 70)
    else:
        v = rand_value(r)
    return min(max(v, lo), hi)


def exact_op(op, a, b):
    if op in ('DIV', 'MOD'):
        if b == 0:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if op == 'DIV' else a - q * b
    if op in ('SHL', 'SHR'):
        if b < 0 or b > 200 or (a < 0):
            return None
        return a << b if op == 'SHL' else a >> b
    return {'ADD': a + b, 'SUB': a - b, 'MUL': a * b}.get(op)


SYM = {'ADD': '+', 'SUB': '-', 'MUL': '*', 'DIV': '/', 'MOD': '%', 'SHL': '<<', 'SHR': '>>', 'OR': '|', 'AND': '&', 'XOR': '^', 'LT': '<', 'LE': '<=', 'GT': '>', 'GE': '>=', 'EQ': '==', 'NE': '!='}


def make_fn(r, k, case=None, nothrow=False):
    """one function: description, headers it needs, code, inputs with the expected text ('' when only agreement is required)"""
    ins = []
    if case:
        op, t, u = case
        n = needs_of(t) + needs_of(u)
        for _ in range(14):
            a, b = val_in(r, t), val_in(r, u)
            if nothrow and b == 0 and op in ('DIV', 'MOD'):
                continue  # the operation is carried out after the handler returns
            x = exact_op(op, a, b)
            ins.append((a, b, '' if x is None else str(x)))
        vx = ('const %s x((long long)a);' if t.safe and t.kind != 'lit' else 'const %s x((%s)a);' % ('%s', t.name) if not t.safe else 'const %s x{};') % t.name
        vy = ('const %s y((long long)b);' if u.safe and u.kind != 'lit' else 'const %s y((%s)b);' % ('%s', u.name) if not u.safe else 'const %s y{};') % u.name
        body = vx + vy + 's << +(x %s y);' % SYM[op] if op in CMP else vx + vy + 's << (x %s y);' % SYM[op]
        return dict(k=k, desc='%s %s %s' % (t.name, SYM[op], u.name), needs=n, body=body, ins=ins)
    T = r.choice(MAIN8)
    lo, hi = rng_of(BUILTIN[T][:2])
    lo, hi = max(lo, -2**63), min(hi, 2**63 - 1)
    tv = Ty(T, lo, hi, BUILTIN[T][:2], 'builtin')
    what = r.choice(['checked', 'checked', 'checked_result', 'interval', 'compare', 'range_value', 'cpp', 'incr', 'incr', 'stream', 'convert', 'literal', 'utility', 'limits', 'pass'])
    if nothrow:
        what = r.choice(['checked', 'checked_result', 'interval', 'compare', 'utility'])
    tt = t_safe(T, r.choice([None, None, 'sn::automatic'])) if r.random() < .6 else rand_range(r)
    if tt.mn > 2**63 - 1 or tt.mx < 0 and tt.kind == 'urange':
        tt = t_safe(T)
    for _ in range(14):
        ins.append((val_in(r, tv), val_in(r, tv)))
    ex = lambda f: [(a, b, f(a, b)) for a, b in ins]
    N_ = needs_of(tt)
    if what == 'checked':
        op = r.choice(['add', 'subtract', 'multiply', 'divide', 'modulus', 'left_shift', 'right_shift', 'bitwise_or', 'minus', 'cast'])
        if op == 'cast':
            call = 'sn::checked::cast<%s>(a)' % T
            e = ex(lambda a, b: str(a))
        else:
            call = 'sn::checked::%s<%s>((%s)a%s)' % (op, T, T, '' if op == 'minus' else ',(%s)b' % T)
            o = {'add': 'ADD', 'subtract': 'SUB', 'multiply': 'MUL', 'divide': 'DIV', 'modulus': 'MOD'}.get(op)
            e = ex(lambda a, b: '' if not o or exact_op(o, a, b) is None else str(exact_op(o, a, b)))
        return dict(k=k, desc='checked::%s<%s>' % (op, T), needs=['checked_integer'], ins=e,
                    body='const auto q = %s; if(q.exception()) ec = make_error_code(static_cast<sn::safe_numerics_error>(q)); else s << +static_cast<%s>(q);' % (call, T))
    if what == 'checked_result':
        op = r.choice(ARITH)
        return dict(k=k, desc='checked_result<%s> %s' % (T, SYM[op]), needs=['checked_result_operations'], ins=ex(lambda a, b: str(exact_op(op, a, b)) if exact_op(op, a, b) is not None else ''),
                    body='const sn::checked_result<%s> x((%s)a), y((%s)b); const auto q = x %s y; if(q.exception()) ec = make_error_code(static_cast<sn::safe_numerics_error>(q)); else s << +static_cast<%s>(q);' % (T, T, T, SYM[op], T))
    if what == 'interval':
        return dict(k=k, desc='interval<int> sums', needs=['interval'], ins=[(a % 1000, b % 1000, '[%d,%d]' % (a % 1000 - 5 + min(a % 1000, b % 1000), a % 1000 + 5 + max(a % 1000, b % 1000))) for a, b in ins],
                    body='const sn::interval<int> i((int)a-5,(int)a+5), j((int)(a<b?a:b),(int)(a<b?b:a)); s << i + j;')
    if what == 'compare':
        f = r.choice(['less_than', 'greater_than', 'equal', 'not_equal', 'less_than_equal', 'greater_than_equal'])
        g = {'less_than': lambda a, b: a < b, 'greater_than': lambda a, b: a > b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b, 'less_than_equal': lambda a, b: a <= b, 'greater_than_equal': lambda a, b: a >= b}[f]
        return dict(k=k, desc='safe_compare::%s<%s,long long>' % (f, T), needs=['safe_compare'], ins=ex(lambda a, b: str(int(g(a, b)))), body='s << sn::safe_compare::%s((%s)a, b);' % (f, T))
    if what == 'range_value':
        ins2 = [(val_in(r, tt), 0) for _ in range(10)]
        return dict(k=k, desc='range_value of %s' % tt.name, needs=N_ + ['range_value'], ins=[(a, b, '[%d,%d]%d' % (tt.mn, tt.mx, a)) for a, b in ins2], body='const %s x((long long)a); s << make_range_value(x);' % tt.name)
    if what == 'cpp':
        op = r.choice(ARITH)
        T = r.choice(['signed char', 'short', 'int', 'long', 'unsigned char', 'unsigned int'])
        t = t_safe(T, 'sn::cpp<8,16,32,64,64>')
        ins2 = [(val_in(r, t), val_in(r, t)) for _ in range(14)]
        return dict(k=k, desc='safe<%s,cpp<>> %s' % (T, SYM[op]), needs=['safe_integer', 'cpp'], ins=[(a, b, '' if exact_op(op, a, b) is None else str(exact_op(op, a, b))) for a, b in ins2],
                    body='const %s x((long long)a), y((long long)b); s << (x %s y);' % (t.name, SYM[op]))
    if what == 'incr':
        op = r.choice(['++x', 'x++', '--x', 'x--', 'x += y', 'x -= y', 'x *= y'])
        if T in ('signed char', 'unsigned char', 'short', 'unsigned short') or True:
            t = t_safe(T)
        f = {'++x': lambda a, b: a + 1, 'x++': lambda a, b: a + 1, '--x': lambda a, b: a - 1, 'x--': lambda a, b: a - 1, 'x += y': lambda a, b: a + b, 'x -= y': lambda a, b: a - b, 'x *= y': lambda a, b: a * b}[op]
        return dict(k=k, desc='%s of %s' % (op, t.name), needs=['safe_integer'], ins=ex(lambda a, b: str(f(a, b))), body='%s x((long long)a); const %s y((long long)b); (void)y; %s; s << x;' % (t.name, t.name, op))
    if what == 'stream':
        ins2 = [(rand_value(r), 0) for _ in range(14)]
        ins2 = [(max(min(a, 2**63 - 1), -2**63), b) for a, b in ins2]
        return dict(k=k, desc='reading %s' % tt.name, needs=N_, ins=[(a, b, str(a)) for a, b in ins2], body='std::stringstream z; z << a; %s x((long long)%s); z >> x; s << x;' % (tt.name, lit(max(tt.mn, 0) if tt.mn <= 2**63 - 1 and tt.mx >= 0 else max(tt.mn, -2**63))))
    if what == 'convert':
        return dict(k=k, desc='%s from long long' % tt.name, needs=N_, ins=ex(lambda a, b: str(a)), body='const %s x(b < 0 ? (long long)a : (long long)a); s << x;' % tt.name)
    if what == 'literal':
        v = r.randrange(1, 100000)
        ins2 = [(val_in(r, t_builtin('int')), 0) for _ in range(14)]
        return dict(k=k, desc='safe<int> + safe_signed_literal<%d>' % v, needs=['safe_integer', 'safe_integer_literal', 'automatic'], ins=[(a, b, str(a + v)) for a, b in ins2],
                    body='const sn::safe<int,sn::automatic> x((long long)a); s << (x + sn::safe_signed_literal<%d>());' % v)
    if what == 'utility':
        return dict(k=k, desc='utility::ilog2', needs=['utility'], ins=[(abs(a) % 2**60 + 1, 0, str((abs(a) % 2**60 + 1).bit_length() - 1)) for a, b in ins], body='s << sn::utility::ilog2((unsigned long long)a);')
    if what == 'limits':
        return dict(k=k, desc='limits of %s' % tt.name, needs=N_, ins=[(0, 0, '%d %d' % (tt.mn, tt.mx))], body='s << std::numeric_limits<%s>::min() << " " << std::numeric_limits<%s>::max();' % (tt.name, tt.name))
    # a value which travels through another translation unit as a safe type
    ins2 = [(val_in(r, tt), 0) for _ in range(10)]
    return dict(k=k, desc='%s passed between translation units' % tt.name, needs=N_, ins=[(a, b, str(a)) for a, b in ins2], type=tt.name,
                body='const %s x((long long)a); s << next::pass%d(x, x);' % (tt.name, k))


def unit_text(p, i):
    """source of translation unit i of program p"""
    u = p['units'][i]
    n = len(p['units'])
    L = ['// %s -std=%s %s' % (u['cxx'], u['std'], ' '.join([u['opt']] + u.get('flags', [])))]
    for h in u['headers']:
        L.append('#include <%s>' % h)
    rec = p.get('record')
    L += ['namespace sn = boost::safe_numerics;']
    if rec:
        L += ['namespace verif { inline std::error_code & last() { static std::error_code e; return e; } struct H { constexpr H() = default; void operator()(const sn::safe_numerics_error & e, const char *) { if(!last()) last() = e; } };',
              'typedef sn::exception_policy<H, H, H, H> EP; }']
    nx = (i + 1) % n
    for f in p['fns']:
        if 'type' in f:
            L.append('namespace u%d { %s pass%d(%s, const %s &); } namespace u%d { %s pass%d(%s x, const %s &) { return x; } }' % (nx, f['type'], f['k'], f['type'], f['type'], i, f['type'], f['k'], f['type'], f['type']))
    L.append('namespace u%d { namespace next { %s } }' % (i, ' '.join('using u%d::pass%d;' % (nx, f['k']) for f in p['fns'] if 'type' in f)))
    L += ['namespace u%d {' % i]
    for f in p['fns']:
        L.append('static void raw%d(long long a, long long b, std::ostream & s, std::error_code & ec) { (void)a; (void)b; (void)ec; %s }' % (f['k'], f['body']))
        L.append('void thrown%d(long long a, long long b) { std::ostringstream s; std::error_code ec; raw%d(a, b, s, ec); if(ec) %s }' % (f['k'], f['k'], 'verif::last() = ec;' if rec else 'throw std::system_error(ec);'))
    L.append('} namespace u%d {' % nx)
    L += ['void thrown%d(long long, long long);' % f['k'] for f in p['fns']] if nx != i else []
    L.append('} namespace u%d {' % i)
    for f in p['fns']:
        L.append('void f%d(long long a, long long b, std::string & t, std::error_code & ec) { std::ostringstream s; ec = std::error_code(); ' % f['k'] +
                 ('verif::last() = ec; raw%d(a, b, s, ec); if(verif::last()) ec = verif::last();' if rec else 'try { raw%d(a, b, s, ec); } catch(const std::system_error & e) { ec = e.code(); }') % f['k'] + ' t = ec ? std::string() : s.str(); }')
        L.append('// errors of the next unit, seen from here\nint g%d(long long a, long long b, int n) { ' % f['k'] +
                 ('verif::last() = std::error_code(); u%d::thrown%d(a, b); if(verif::last()) return verif::last() == static_cast<sn::safe_numerics_error>(n) ? 1 : 2;' if rec else
                  'try { u%d::thrown%d(a, b); } catch(const std::system_error & e) { return e.code() == static_cast<sn::safe_numerics_error>(n) ? 1 : 2; }') % (nx, f['k']) + ' return 0; }')
    L += ['std::error_code mk(int n) { return make_error_code(static_cast<sn::safe_numerics_error>(n)); }',
          'std::error_code mk2(int n) { return static_cast<sn::safe_numerics_error>(n); }',
          'bool is(const std::error_code & c, int n) { return c == static_cast<sn::safe_numerics_error>(n); }',
          'int act(const std::error_code & c, int n) { std::error_condition q = static_cast<sn::safe_numerics_actions>(n); return (c == std::error_condition(n, sn::safe_numerics_actions_category)) + (c == q) + (c == static_cast<sn::safe_numerics_actions>(n)); }',
          'const std::error_category * cat(int n) { return n ? &static_cast<const std::error_category &>(sn::safe_numerics_actions_category) : &static_cast<const std::error_category &>(sn::safe_numerics_error_category); }',
          'static std::error_code probe() { return make_error_code(sn::safe_numerics_error::range_error); }' if rec else 'static std::error_code probe() { try { throw std::system_error(make_error_code(sn::safe_numerics_error::range_error)); } catch(const std::system_error & e) { return e.code(); } }',
          '// made before main starts\nextern const std::error_code early; const std::error_code early = probe(); extern const bool early_is; const bool early_is = early == sn::safe_numerics_error::range_error;', '}']
    return '\n'.join(L) + '\n'


def main_text(p):
    n = len(p['units'])
    L = ['#include <system_error>', '#include <string>', '#include <iostream>', '#include <functional>', 'typedef long long ll; typedef std::error_code EC; typedef const std::error_category * CP;']
    for i in range(n):
        L.append('namespace u%d { EC mk(int); EC mk2(int); bool is(const EC &, int); int act(const EC &, int); CP cat(int); extern const EC early; extern const bool early_is; %s }' %
                 (i, ' '.join('void f%d(ll, ll, std::string &, EC &); int g%d(ll, ll, int);' % (f['k'], f['k']) for f in p['fns'])))
    tab = lambda s, t: 'static %s[] = {%s};' % (t, ','.join('&u%d::%s' % (i, s) for i in range(n)))
    L += [tab('mk', 'EC (*mk[])(int)'.replace('[]', '[%d]' % n)).replace('[][', '[').replace(')(int)[]', ')(int)')]
    L[-1] = 'static EC (*const mk[])(int) = {%s};' % ','.join('&u%d::mk' % i for i in range(n))
    L += ['static EC (*const mk2[])(int) = {%s};' % ','.join('&u%d::mk2' % i for i in range(n)),
          'static bool (*const is[])(const EC &, int) = {%s};' % ','.join('&u%d::is' % i for i in range(n)),
          'static int (*const act[])(const EC &, int) = {%s};' % ','.join('&u%d::act' % i for i in range(n)),
          'static CP (*const cat[])(int) = {%s};' % ','.join('&u%d::cat' % i for i in range(n)),
          'static const EC * const early[] = {%s};' % ','.join('&u%d::early' % i for i in range(n)),
          'static const bool * const early_is[] = {%s};' % ','.join('&u%d::early_is' % i for i in range(n)),
          'static const int cls[] = {%s};' % ','.join(map(str, CLASS)),
          'static long n = 0, nontriv = 0, errs = 0; static int shown = 0;',
          'static void chk(bool ok, const std::string & key, int i, int j, const std::string & desc) { ++n; if(!ok && shown++ < 40) std::cout << "FAIL\\t" << key << "\\t" << i << "\\t" << j << "\\t" << desc << "\\n"; }',
          'struct In { ll a, b; const char * x; };', 'typedef void (*F)(ll, ll, std::string &, EC &); typedef int (*G)(ll, ll, int);']
    for f in p['fns']:
        L.append('static const In in%d[] = {%s};' % (f['k'], ','.join('{%s,%s,"%s"}' % (lit(a), lit(b), x) for a, b, x in f['ins'])))
        L.append('static const F f%d[] = {%s}; static const G g%d[] = {%s};' % (f['k'], ','.join('&u%d::f%d' % (i, f['k']) for i in range(n)), f['k'], ','.join('&u%d::g%d' % (i, f['k']) for i in range(n))))
    L += ['static void run(const char * desc, const In * in, int m, const F * f, const G * g) {',
          ' for(int q = 0; q < m; ++q) { std::string t[%d]; EC e[%d]; std::string w = std::string(desc) + " for " + std::to_string(in[q].a) + ", " + std::to_string(in[q].b);' % (n, n),
          '  for(int i = 0; i < %d; ++i) f[i](in[q].a, in[q].b, t[i], e[i]);' % n,
          '  if(e[0]) ++errs; nontriv += %d;' % (n * n),
          '  for(int i = 0; i < %d; ++i) {' % n,
          '   if(!e[i] && *in[q].x) chk(t[i] == in[q].x, "value", i, i, w + ": " + t[i] + " instead of " + in[q].x);',
          '   const int v = e[(i + 1) %% %d].value(); const int c = g[i](in[q].a, in[q].b, v);' % n,
          '   chk(c == (v ? 1 : 0), "thrown", i, (i + 1) %% %d, w + ": the error thrown by the second unit isn\'t recognised in the first");' % n,
          '   for(int j = 0; j < %d; ++j) {' % n,
          '    chk(e[i].value() == e[j].value() && t[i] == t[j], "outcome", i, j, w + ": " + (e[i] ? e[i].message() : t[i]) + " in the first unit, " + (e[j] ? e[j].message() : t[j]) + " in the second");',
          '    if(e[i].value() == e[j].value()) chk(e[i] == e[j] || (!e[i] && !e[j]), "code", i, j, w + ": error codes made in the two units differ");',
          '    if(e[i]) chk(is[j](e[i], e[i].value()), "code is", i, j, w + ": the error code of the first unit isn\'t recognised in the second");',
          '    if(e[i] && e[i].value() < %d) for(int a = 1; a < 5; ++a) chk(act[j](e[i], a) == 3 * (cls[e[i].value()] == a), "class", i, j, w + ": the class of an error of the first unit is another one in the second");' % CODES,
          '   } } } }',
          'int main() {'] + ([' for(int j = 0; j < %d; ++j) for(int a = 0; a < %d; ++a) for(int b = 0; b < 5; ++b) chk(act[j](EC(a, std::generic_category()), b) == 0 && act[j](EC(a, std::system_category()), b) == 0, "foreign", j, j, "a code of another category has a class of this library");' % (n, CODES)] if p.get('foreign') else []) + [' for(int i = 0; i < %d; ++i) for(int j = 0; j < %d; ++j) {' % (n, n),
          '  for(int k = 0; k < 2; ++k) chk(cat[i](k) == cat[j](k), "category", i, j, k ? "the action category is another object" : "the error category is another object");',
          '  chk(is[j](*early[i], 4), "early", i, j, "an error code made before main isn\'t recognised in the second unit"); chk(*early_is[i], "early", i, i, "error code compared before main");',
          '  for(int a = 0; a < %d; ++a) { chk(mk[i](a) == mk2[j](a) && std::hash<EC>()(mk[i](a)) == std::hash<EC>()(mk[j](a)), "codes", i, j, "error code " + std::to_string(a) + " isn\'t the same in both units");' % CODES,
          '   for(int b = 0; b < %d; ++b) chk(is[j](mk[i](a), b) == (a == b), "codes", i, j, "comparison of error codes " + std::to_string(a) + " and " + std::to_string(b));' % CODES,
          '   for(int b = 0; b < 5; ++b) chk(act[j](mk[i](a), b) == 3 * (cls[a] == b), "classes", i, j, "class of error code " + std::to_string(a)); } }']
    L += [' run("%s", in%d, %d, f%d, g%d);' % (f['desc'], f['k'], len(f['ins']), f['k'], f['k']) for f in p['fns']]
    L += [' std::cout << "DONE\\t" << n << "\\t" << nontriv << "\\t" << errs << std::endl; return 0; }']
    return '\n'.join(L) + '\n'


def needed(p):
    out = []
    for f in p['fns']:
        for h in f['needs']:
            if hdr(h) not in out:
                out.append(hdr(h))
    return out + [hdr('exception'), 'sstream', 'string', 'system_error']


def make_unit(r, p):
    need = needed(p)
    extra = [hdr(h) for h in r.sample(HEADERS, r.choice([0, 0, 1, 2, 3, 6, len(HEADERS)]))] + r.sample(STDH, r.choice([0, 1, 3]))
    hs = [h for h in dict.fromkeys(need + extra)]
    r.shuffle(hs)
    if r.random() < .3:
        hs += r.sample(hs, 2)  # included twice
    return dict(cxx=r.choice(CXX), std=r.choice(STD), opt=r.choice(OPT), headers=hs, flags=(['-DNDEBUG'] if r.random() < .4 else []) + (['-fno-exceptions'] if p.get('record') and r.random() < .7 else []))


def make_program(r, cases, k):
    rec = k % 4 == 3  # a policy of the user which records; no exceptions in most units
    p = dict(name='S30_p%d' % k, fns=[], units=[], record=rec, foreign=r.random() < .4)
    cases = cases[rec]
    for j in range(r.choice([4, 5, 6, 7])):
        p['fns'].append(make_fn(r, j, r.choice(cases) if r.random() < (.75 if rec else .55) else None, rec))
    for _ in range(r.choice([2, 3, 4, 4, 5])):
        p['units'].append(make_unit(r, p))
    return p


def compile_unit(src, obj, u):
    cmd = [u['cxx'], '-std=' + u['std'], u['opt']] + u.get('flags', []) + ['-w', '-ftemplate-depth=400', '-I', os.path.join(REPO, 'include'), '-c', src, '-o', obj]
    for attempt in range(2):
        rc, out, err = run_proc(cmd, 400)
        if rc == 0:
            return None
        if rc != 'timeout' and not RES.search(err):
            break
    if rc == 'timeout' or RES.search(err) and not re.search(r'\berror: (?!.*(Killed|space))', err):
        raise CheckError('resource failure compiling %s: %s' % (src, err[-200:]))
    msg = [l for l in err.splitlines() if 'error' in l][:1]
    return msg[0][-300:] if msg else 'rc=%s' % rc


def run_program(p, bdir, only_unit=None):
    """-> (kind, [(key, i, j, desc)], (n, nontriv, errs))"""
    d = os.path.join(bdir, p['name'])
    os.makedirs(d, exist_ok=True)
    objs = []
    units = p['units'] + [dict(cxx='g++', std='c++14', opt='-O0', headers=[])]
    fails = []
    for i, u in enumerate(units):
        if only_unit is not None and i != only_unit:
            continue
        src, obj = os.path.join(d, 'u%d.cpp' % i if i < len(p['units']) else 'main.cpp'), os.path.join(d, 'u%d.o' % i)
        with open(src, 'w') as f:
            f.write(unit_text(p, i) if i < len(p['units']) else main_text(p))
        e = compile_unit(src, obj, u)
        if e:
            fails.append(('compile', i, i, e))
        objs.append(obj)
    try:
        if fails:
            return 'compile', fails, None
        if only_unit is not None:
            return 'ok', [], None
        exe = os.path.join(d, 'prog')
        rc, out, err = run_proc(['g++'] + objs + ['-o', exe], 200)
        if rc != 0:
            if rc == 'timeout' or RES.search(err):
                raise CheckError('resource failure linking %s' % p['name'])
            m = [l for l in err.splitlines() if 'multiple definition' in l or 'undefined reference' in l][:1] or err.splitlines()[:1]
            return 'link', [('link', -1, -1, (m or [''])[0][-300:])], None
        for attempt in range(3):
            rc, out, err = run_proc([exe], 120)
            last = out.strip().splitlines()[-1:] or ['']
            if rc == 0 and last[0].startswith('DONE'):
                st = tuple(int(x) for x in last[0].split('\t')[1:])
                fl = [tuple(l.split('\t')[1:]) for l in out.splitlines() if l.startswith('FAIL\t')]
                fl = [(a, int(b), int(c), e) for a, b, c, e in fl]
                return ('run' if fl else 'ok'), fl, st
        if rc == 'timeout' or rc == -9:
            raise CheckError('program %s did not finish' % p['name'])
        return 'died', [('died', -1, -1, 'the program died: rc=%s %s' % (rc, err[-200:]))], None
    finally:
        for o in objs + [os.path.join(d, 'prog')]:
            try:
                os.remove(o)
            except OSError:
                pass


def shrink(p, kind, key, bdir, deadline):
    """greedily drop units, functions, headers and options while the same kind of failure remains"""
    cnt = [0]

    def still(q):
        cnt[0] += 1
        if cnt[0] > 70 or time.time() > deadline:
            return False
        q['name'] = p['name'] + '_s'
        try:
            k, fl, _ = run_program(q, bdir, 0 if kind == 'compile' else None)
        except CheckError:
            return False
        return k == kind and (kind != 'run' or any(f[0] == key for f in fl))
    best = copy.deepcopy(p)
    if kind == 'compile':
        bad = [f[1] for f in run_program(best, bdir)[1] if f[1] < len(best['units'])]
        if bad:
            q = copy.deepcopy(best)
            q['units'] = [q['units'][bad[0]]]
            if still(q):
                best = q
    i = 0
    while i < len(best['units']) and len(best['units']) > 1:
        q = copy.deepcopy(best)
        del q['units'][i]
        if still(q):
            best = q
        else:
            i += 1
    i = 0
    while i < len(best['fns']):
        q = copy.deepcopy(best)
        del q['fns'][i]
        if still(q):
            best = q
        else:
            i += 1
    for ui in range(len(best['units'])):
        i = 0
        while i < len(best['units'][ui]['headers']):
            h = best['units'][ui]['headers'][i]
            q = copy.deepcopy(best)
            del q['units'][ui]['headers'][i]
            if (h not in needed(q) or best['units'][ui]['headers'].count(h) > 1) and still(q):
                best = q
            else:
                i += 1
        for kk, v in (('cxx', 'g++'), ('std', 'c++14'), ('opt', '-O0'), ('flags', [])):
            if best['units'][ui].get(kk) != v:
                q = copy.deepcopy(best)
                q['units'][ui][kk] = v
                if still(q):
                    best = q
    for f in best['fns']:
        if kind == 'run' and len(f['ins']) > 1:
            for x in list(f['ins']):
                q = copy.deepcopy(best)
                next(g for g in q['fns'] if g['k'] == f['k'])['ins'] = [x]
                if still(q):
                    best = q
                    break
    return best


class Files:
    """what finish() keeps as the replay program: all sources in one text, with their file names"""

    def __init__(self, p):
        self.name, self.args, self.cxx, self.std, self.flags = p['name'], [], 'g++', 'c++14', []
        self.how = 'split the program at the ==== lines; compile each unit with the compiler and options its first line names plus -I %s/include -c; link all; the program prints a FAIL line per disagreement' % REPO
        self.text = ''.join('// ==== u%d.cpp (compile with the options on the next line, -I include -c)\n' % i + unit_text(p, i) for i in range(len(p['units'])))
        self.text += '// ==== main.cpp (link with all units)\n' + main_text(p)


def s30(ck):
    ck.rule = ('programs of 2-5 translation units which define the same functions with different compilers (g++, clang++), dialects (C++14, 17, 20), optimisation, header subsets and orders; one evaluation compares '
               'an outcome, error code, error class or value between two units or with the exact value; non-trivial: pairs of units for one generated input; plus every public header on its own and ordered pairs of headers')
    r = ck.rng
    ck.times = []
    # every header alone (twice), every compiler and dialect; ordered pairs
    jobs = [((h,), c, s) for h in HEADERS for c in CXX for s in STD] + [((h,), c, 'c++14 -fno-exceptions') for h in HEADERS for c in CXX]
    pairs = [(a, b) for a in HEADERS for b in HEADERS if a != b]
    jobs += [(ab, r.choice(CXX), r.choice(STD)) for ab in (r.sample(pairs, 60) if ck.quick else pairs)]
    hd = os.path.join(ck.bdir, 'hdr')
    os.makedirs(hd, exist_ok=True)

    def one(j):
        k, (hs, c, s) = j
        src = os.path.join(hd, 'h%d.cpp' % k)
        with open(src, 'w') as f:
            f.write(''.join('#include <%s>\n' % hdr(h) for h in hs) + '#include <%s>\nint main() { return 0; }\n' % hdr(hs[0]))
        try:
            rc, out, err = run_proc([c] + ('-std=' + s).split() + ['-w', '-fsyntax-only', '-I', os.path.join(REPO, 'include'), src], 300)
            if rc != 0 and (rc == 'timeout' or RES.search(err)):
                rc, out, err = run_proc([c] + ('-std=' + s).split() + ['-w', '-fsyntax-only', '-I', os.path.join(REPO, 'include'), src], 300)
            if rc == 'timeout':
                return j, None, 'timeout'
            return j, rc == 0, ([l for l in err.splitlines() if 'error' in l] or [''])[0][-300:]
        finally:
            os.remove(src)
    res = parallel(one, list(enumerate(jobs)))
    alone_bad = set()
    for (k, (hs, c, s)), ok, err in res:
        ck.evals += 1
        ck.distinct += 1
        if ok is None:
            ck.errors.append('header %s: %s' % (hs, err))
        elif not ok:
            if len(hs) == 1:
                alone_bad.add(hs[0])
            elif hs[0] in alone_bad:
                continue  # already reported
            ck.violation('header|' + '|'.join(hs), 'including %s doesn\'t compile (%s -std=%s): %s' % (' then '.join(hdr(h) for h in hs), c, s, err))
    ck.classes['header alone or ordered pair'] = len(jobs)
    _, ok, err = one((len(jobs), ((KF_HEADER,), 'g++', 'c++14')))
    if ok is False:
        ck.known['KF3: checked_float.hpp does not compile, on its own or with other headers'] = 1
        ck.known_ex['KF3: checked_float.hpp does not compile, on its own or with other headers'] = err[-120:]
    # programs
    cases = {False: [], True: []}
    for pol, rec in (('native', False), ('automatic', False), ('native', True), ('automatic', True)):
        for op, t, u in op_cases(r, pol, ARITH + SHIFT + BITS + CMP, (1200 if ck.quick else 4000) // (1 + rec), exc='verif::EP' if rec else None):
            if all(x.kind != 'builtin' or x.name in MAIN8 for x in (t, u)) and all(x.mn <= 2**63 - 1 for x in (t, u)):
                cases[rec].append((op, t, u))
    progs = [make_program(r, cases, k) for k in range(100 if ck.quick else 700)]

    def go(p):
        try:
            return p, run_program(p, ck.bdir)
        except CheckError as e:
            return p, ('error', [('error', 0, 0, str(e))], None)
    nsh = nbad = 0
    for p, (kind, fl, st) in parallel(go, progs):
        ck.instances += len(p['fns']) * len(p['units'])
        if st:
            ck.evals += st[0]
            ck.distinct += st[1]
            ck.classes['inputs which fail'] = ck.classes.get('inputs which fail', 0) + st[2]
        for u in p['units']:
            k = '%s -std=%s %s' % (u['cxx'], u['std'], u['opt'])
            for x in u['flags']:
                ck.classes['units with ' + x] = ck.classes.get('units with ' + x, 0) + 1
            ck.classes[k] = ck.classes.get(k, 0) + 1
        if len(ck.samples) < 12:
            f = p['fns'][0]
            ck.samples.append('%d units (%s): %s; e.g. %s for (%d, %d)' % (len(p['units']), ', '.join('%s %s %s %d headers' % (u['cxx'], u['std'], u['opt'], len(u['headers'])) for u in p['units']), '; '.join(g['desc'] for g in p['fns']), f['desc'], f['ins'][0][0], f['ins'][0][1]))
        if kind == 'ok':
            continue
        if kind == 'error':
            ck.errors.append(fl[0][3])
            continue
        # reproduce, then shrink the first few
        nbad += 1
        if nbad > 6 and ck.viol:
            continue
        try:
            kind2, fl2, _ = run_program(p, ck.bdir)
        except CheckError as e:
            ck.errors.append(str(e))
            continue
        if kind2 != kind:
            ck.errors.append('%s: %s, then %s' % (p['name'], kind, kind2))
            continue
        q = p
        if nsh < 2:
            nsh += 1
            q = shrink(p, kind, fl[0][0], ck.bdir, time.time() + 100)
            try:
                fl = run_program(q, ck.bdir)[1] or fl
            except CheckError:
                pass
        seen = set()
        for key, i, j, desc in fl:
            if key in seen:
                continue
            seen.add(key)
            where = '' if i < 0 or i >= len(q['units']) else ' [%s]' % '; '.join('%s -std=%s %s: %s' % (q['units'][x]['cxx'], q['units'][x]['std'], q['units'][x]['opt'], ' '.join(q['units'][x]['headers'][:8])) for x in dict.fromkeys((i, j)))
            ck.violation('%s|%s' % (kind, key + '|' + p['name']), '%s: %s%s' % (kind, desc, where), Files(q))
