"""Shared machinery: operand type pool, build + run of generated harnesses, reporting."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)

I8, U8 = (-128, 127), (0, 255)
I16, U16 = (-2**15, 2**15 - 1), (0, 2**16 - 1)
I32, U32 = (-2**31, 2**31 - 1), (0, 2**32 - 1)
I64, U64 = (-2**63, 2**63 - 1), (0, 2**64 - 1)


def harvest():
    """integer literals of the headers: constants which generic boundary values would miss"""
    import glob
    found = set()
    for f in sorted(glob.glob(os.path.join(REPO, 'include', '**', '*.hpp'), recursive=True)):
        try:
            with open(f, errors='replace') as fh:
                t = fh.read()
        except OSError:
            continue
        t = re.sub(r'//.*', ' ', re.sub(r'/\*.*?\*/', ' ', t, flags=re.S))
        for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F][0-9a-fA-F']*|0[bB][01][01']*|[0-9][0-9']*)[uUlL]*(?![\w.'])", t):
            x = m.group(1).replace("'", '')
            try:
                v = int(x, 0) if x[:2].lower() in ('0x', '0b') else int(x, 8) if len(x) > 1 and x[0] == '0' else int(x)
            except ValueError:
                continue
            near = any(abs(v - 2**k) <= 2 for k in range(1, 65))
            if v > 20 and not near and v < 2**64:
                found.add(v)
    return sorted(found)[:64]


DICT = harvest()


def rng_of(b):
    w, s = b
    return (-2**(w - 1), 2**(w - 1) - 1) if s else (0, 2**w - 1)


def lit(v):
    if v == -2**63:
        return '(-9223372036854775807LL-1)'
    if v < 0:
        return '(%dLL)' % v
    if v >= 2**63:
        return '%dULL' % v
    return '%dLL' % v


def c128(v):
    return '((i128)%s)' % lit(v)


BUILTIN = {  # name -> (width, signed, rank)
    'signed char': (8, 1, 1), 'unsigned char': (8, 0, 1), 'char': (8, 1, 1),
    'short': (16, 1, 2), 'unsigned short': (16, 0, 2),
    'int': (32, 1, 3), 'unsigned int': (32, 0, 3),
    'long': (64, 1, 4), 'unsigned long': (64, 0, 4),
    'long long': (64, 1, 5), 'unsigned long long': (64, 0, 5),
}
ALL11 = list(BUILTIN)
BUILTIN.update({'wchar_t': (32, 1, 3), 'char16_t': (16, 0, 2), 'char32_t': (32, 0, 3), 'bool': (1, 0, 0)})
MAIN8 = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long']


def sigbits(v):
    return (v if v >= 0 else ~v).bit_length() or 1


class Ty:
    """An operand type of a generated harness."""

    def __init__(self, name, mn, mx, base, kind, pol=None, exc=None):
        self.name, self.mn, self.mx, self.base, self.kind, self.pol, self.exc = name, mn, mx, base, kind, pol, exc
        # base: (width, signed)

    @property
    def safe(self):
        return self.kind != 'builtin'

    def __repr__(self):
        return self.name


def _targs(pol, exc):
    s = ''
    if pol or exc:
        s = ', ' + (pol or 'sn::native')
        if exc:
            s += ', ' + exc
    return s


def t_builtin(b):
    w, s, _ = BUILTIN[b]
    return Ty(b, *rng_of((w, s)), (w, s), 'builtin')


def t_safe(b, pol=None, exc=None):
    w, s, _ = BUILTIN[b]
    return Ty('sn::safe<%s%s>' % (b, _targs(pol, exc)), *rng_of((w, s)), (w, s), 'safe', pol, exc)


def srange_base(a, b):
    n = max(sigbits(a), sigbits(b)) + 1
    return ([w for w in (8, 16, 32, 64) if w >= n][0], 1)


def urange_base(a, b):
    n = sigbits(b)
    return ([w for w in (8, 16, 32, 64) if w >= n][0], 0)


def t_srange(a, b, pol=None, exc=None):
    return Ty('sn::safe_signed_range<%s,%s%s>' % (lit(a), lit(b), _targs(pol, exc)), a, b, srange_base(a, b), 'srange', pol, exc)


def t_urange(a, b, pol=None, exc=None):
    return Ty('sn::safe_unsigned_range<%dULL,%dULL%s>' % (a, b, _targs(pol, exc)), a, b, urange_base(a, b), 'urange', pol, exc)


def t_slit(v, pol=None, exc=None):
    t = _targs(pol, exc) if (pol or exc) else ''
    return Ty('sn::safe_signed_literal<%s%s>' % (lit(v), t), v, v, srange_base(v, v), 'lit', pol, exc)


def t_ulit(v, pol=None, exc=None):
    t = _targs(pol, exc) if (pol or exc) else ''
    return Ty('sn::safe_unsigned_literal<%dULL%s>' % (v, t), v, v, urange_base(v, v), 'lit', pol, exc)


# hand-designed ranges: sign changes, single points, storage-width boundaries, zero at either end
S_RANGES = [(0, 0), (1, 1), (-1, -1), (-1, 1), (0, 10), (-10, 10), (1, 100), (-100, -1), (-100, 0), (0, 127), (1, 2),
            (127, 128), (-129, -128), (-129, 5), (200, 300), (-128, 127), (-3, 30), (0, 31), (0, 63), (2, 62), (-32768, 32767),
            (-32769, 32768), (-40000, 70000), (0, 2**31 - 1), (0, 2**31), (2**31 - 2, 2**31 + 1), (-2**31, 2**31 - 1),
            (-2**31, -1), (-2**31 - 1, 0), (-2**31, -2**31 + 2), (1, 2**32), (-2**32, 2**32), (-2**62, 2**62),
            (0, 2**63 - 1), (1, 2**63 - 1), (-2**63, 0), (-2**63, -1), (-2**63, -2**63 + 3), (-2**63 + 1, 2**63 - 1),
            (-2**63, 2**63 - 1), (2**63 - 3, 2**63 - 1), (-7, 8), (-8, 7), (5, 9), (-9, -5), (-3037000500, 3037000500)]
U_RANGES = [(0, 0), (0, 1), (1, 1), (1, 8), (0, 31), (0, 63), (5, 20), (0, 127), (0, 255), (1, 255), (128, 255), (250, 260), (0, 65535),
            (65535, 65536), (0, 2**31 - 1), (0, 2**31), (2**31 - 1, 2**31 + 1), (0, 2**32 - 1), (1, 2**32 - 1), (2**32 - 2, 2**32 - 1),
            (0, 2**63 - 1), (2**63 - 1, 2**63 + 1), (0, 2**63), (0, 2**64 - 1), (1, 2**64 - 1), (2**64 - 3, 2**64 - 1),
            (2**32, 2**40), (0, 2**40), (7, 7), (100, 1000)]


def rand_value(r):
    k = r.randrange(0, 64)
    v = r.getrandbits(k) if k else 0
    if r.random() < .35:
        v = r.choice([0, 1, 2, 7, 10, 100, 127, 128, 255, 256, 2**15, 2**16, 2**31, 2**32, 2**62]) + r.randrange(-1, 2)
    if DICT and r.random() < .15:
        v = r.choice(DICT) + r.randrange(-1, 2)
    return v * r.choice([1, 1, -1])


def rand_range(r, pol=None, exc=None):
    a, b = sorted([rand_value(r), rand_value(r)])
    if r.random() < .4:
        if a < 0:
            a, b = sorted([abs(a), abs(b)])
        return t_urange(a, b, pol, exc)
    return t_srange(max(a, -2**63), min(b, 2**63 - 1), pol, exc)


def cxx_type(t, u):
    """width/sign of the C++ usual arithmetic conversions"""
    a, b = t.base, u.base
    if a[0] < 32:
        a = (32, 1)
    if b[0] < 32:
        b = (32, 1)
    if a == b:
        return a
    if a[1] == b[1]:
        return max(a, b)
    un, si = (a, b) if a[1] == 0 else (b, a)
    return un if un[0] >= si[0] else si


def promote(t):
    return t.base if t.base[0] >= 32 else (32, 1)


def result_range(pol, op, t, u):
    """range of the type in which an operation is carried out"""
    if pol == 'native':
        return rng_of(cxx_type(t, u))
    if op in ('SHL', 'SHR'):
        return I64 if t.base[1] else U64
    if op in ('SUB', 'NEG'):
        return I64
    return I64 if (t.base[1] or u.base[1]) else U64


def overlap(a, b):
    return a[0] <= b[1] and b[0] <= a[1]


def pair_ok(pol, op, t, u):
    """operands which share no value with the type of the operation don't compile"""
    r = result_range(pol, op, t, u)
    return overlap((t.mn, t.mx), r) and overlap((u.mn, u.mx), r)


# ---------------------------------------------------------------------------- build/run

class TU:
    """one generated program. src: list of lines. Lines starting with '/*@' carry one case each."""

    def __init__(self, name, lines, args=(), cxx='g++', flags=(), expect_json=True, std='c++14'):
        self.name, self.lines, self.args, self.cxx, self.flags, self.expect_json, self.std = name, lines, list(args), cxx, list(flags), expect_json, std
        self.result = None
        self.violations = []  # (key, desc, extra)
        self.error = None

    @property
    def text(self):
        return '\n'.join(self.lines) + '\n'


class CheckError(Exception):
    pass


BASEFLAGS = ['-w', '-fwrapv', '-ftemplate-depth=400'] + (['-DVERIF_DICT=' + ','.join('%dULL' % v for v in DICT)] if DICT else [])


def compile_cmd(tu, src, out):
    return ([tu.cxx, '-std=' + tu.std] + ([] if any(f.startswith('-O') for f in tu.flags) else ['-O1']) + BASEFLAGS + tu.flags +
            ['-I', os.path.join(ROOT, 'harness'), '-I', os.path.join(REPO, 'include'), src, '-o', out])


RES = re.compile(r'Killed|No space left|Cannot allocate memory|out of memory|virtual memory exhausted|internal compiler error|Segmentation fault|terminated program', re.I)


def run_proc(cmd, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def case_lines(tu, err, srcname):
    """lines of the generated source which the compiler complains about"""
    s = set()
    for m in re.finditer(re.escape(os.path.basename(srcname)) + r':(\d+)', err):
        n = int(m.group(1))
        if n <= len(tu.lines) and tu.lines[n - 1].startswith('/*@'):
            s.add(n)
    return sorted(s)


def build_run(tu, bdir, timeout=780):
    src = os.path.join(bdir, tu.name + '.cpp')
    exe = os.path.join(bdir, tu.name + '.exe')
    with open(src, 'w') as f:
        f.write(tu.text)
    cmd = compile_cmd(tu, src, exe)
    t0 = time.time()
    rc, out, err = run_proc(cmd, timeout)
    tu.compile_s = time.time() - t0
    if rc != 0:
        if rc == 'timeout' or RES.search(err) and not re.search(r'\berror: (?!.*(Killed|space))', err):
            rc, out, err = run_proc(cmd, timeout)  # once more
            if rc != 0 and (rc == 'timeout' or RES.search(err)):
                tu.error = 'resource failure compiling %s: %s' % (tu.name, err[-300:])
                return tu
        if rc != 0:
            bad = case_lines(tu, err, src)
            msg = [l for l in err.splitlines() if 'error' in l][:3]
            if not bad:
                tu.violations.append(('compile|' + tu.name, 'generated program %s no longer compiles: %s' % (tu.name, ' // '.join(msg)), None))
                return tu
            for n in bad[:5]:
                l = tu.lines[n - 1]
                what = l[3:l.index('*/')].strip()
                tu.violations.append(('compile|' + what, 'no longer compiles: %s (%s)' % (what, msg[0][-300:] if msg else ''), n))
            return tu
    t0 = time.time()
    if tu.expect_json:
        last = None
        for attempt in range(3):
            rc, out, err = run_proc([exe] + [str(a) for a in tu.args], timeout)
            if rc == 'timeout':
                last = 'hang'
                continue
            try:
                tu.result = json.loads(out.strip().splitlines()[-1])
                break
            except Exception:
                last = 'rc=%s %s' % (rc, (err or out)[-300:])
        tu.run_s = time.time() - t0
        if tu.result is None:
            if last == 'hang' or 'rc=-9' in last:
                tu.error = 'generated program %s did not finish (%s)' % (tu.name, last)
            else:
                tu.violations.append(('died|' + tu.name, 'the generated program %s died three times out of three: %s' % (tu.name, last), None))
    try:
        os.remove(exe)
    except OSError:
        pass
    return tu


def parallel(fn, items, n=NPROC):
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.bdir = os.path.join(ROOT, 'build', prop)
        shutil.rmtree(self.bdir, ignore_errors=True)
        os.makedirs(self.bdir)
        self.evals = self.distinct = self.excluded = 0
        self.classes, self.samples, self.viol = {}, [], []
        self.known, self.known_ex = {}, {}
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.rule = ''
        self.extra = {}
        self.errors = []
        self.instances = 0
        self.only = None  # S25: only failures which mention this count
        self.times = []
        self.assumptions = ['the compilers of this sandbox (g++ 13, clang 18) and the 128 bit integers the reference model is computed in']

    @property
    def quick(self):
        return self.tier == 'quick'

    def absorb(self, tu):
        self.times.append((tu.name, getattr(tu, 'compile_s', 0), getattr(tu, 'run_s', 0)))
        if tu.error:
            self.errors.append(tu.error)
        r = tu.result
        if r:
            self.evals += r['evals']
            self.distinct += r['distinct']
            self.excluded += r.get('excluded', 0)
            for k, v in r['classes'].items():
                self.classes[k] = self.classes.get(k, 0) + v
            for s in r['samples']:
                self.samples.append(s)
            for k, v in ({} if self.only else r.get('known', {})).items():
                self.known[k] = self.known.get(k, 0) + v
                self.known_ex.setdefault(k, r['known_ex'].get(k, ''))
            for f in r['fails']:
                if self.only and self.only not in f['key'] + f['desc']:
                    continue
                self.viol.append((f['key'], f['desc'], tu))
        for key, desc, n in tu.violations:
            self.viol.append((key, desc, tu))

    def run(self, tus):
        # biggest first
        for tu in parallel(lambda t: build_run(t, self.bdir), tus):
            self.absorb(tu)
        return tus

    def violation(self, key, desc, tu=None):
        self.viol.append((key, desc, tu))

    def known_ids(self):
        with open(os.path.join(ROOT, 'known-findings.json')) as f:
            d = json.load(f)
        return {k['id'] for k in d['findings'] if k['property'] == self.prop and k['status'] == 'known'}

    def finish(self):
        listed = self.known_ids()
        for k in list(self.known):
            if k.split(':')[0] not in listed:  # a finding counts as known only while the file lists it
                self.viol.append(('unlisted|' + k, k + ', e.g. ' + self.known_ex.get(k, ''), None))
                del self.known[k]
        wall = time.time() - self.t0
        r = random.Random(self.seed)
        samples = self.samples if len(self.samples) <= 12 else r.sample(self.samples, 12)
        # one evaluation may fail in several programs; one line per distinct key
        seen, viol = set(), []
        for key, desc, tu in self.viol:
            if key not in seen:
                seen.add(key)
                viol.append((key, desc, tu))
        cov = {'evaluations': self.evals, 'distinct_nontrivial': self.distinct, 'rule': self.rule, 'samples': samples or ['none'],
               'classes': dict(sorted(self.classes.items())), 'instantiations': self.instances, 'excluded_known': self.excluded}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 1), 'violations': len(viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k, n in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s: %d generated cases, e.g. %s' % (self.prop, k, n, self.known_ex.get(k, '')))
        print('%s %s seed=%d: %d cases (%d distinct non-trivial) over %d instantiations in %.1f s' %
              (self.prop, self.tier, self.seed, self.evals, self.distinct, self.instances, wall))
        if os.environ.get('VERIF_TIMES'):
            for n, c, r in self.times:
                print('   %-40s compile %.1f run %.1f' % (n, c, r))
        for e in self.errors:
            print('ERROR', e)
        if viol:
            rdir = os.path.join(self.bdir, 'replay')
            os.makedirs(rdir, exist_ok=True)
            for i, (key, desc, tu) in enumerate(viol[:10]):
                path = os.path.join(rdir, '%s-%s.json' % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
                rec = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'key': key, 'failure': desc}
                if tu is not None:
                    keep = os.path.join(rdir, tu.name + '.cpp')
                    with open(keep, 'w') as f:
                        f.write(tu.text)
                    rec['program'] = keep
                    rec['compile'] = getattr(tu, 'how', None) or ' '.join(compile_cmd(tu, keep, '/tmp/replay.exe'))
                    rec['args'] = [str(a) for a in tu.args]
                    rec['note'] = 'compile, run with args; the failing case is reported in "fails" under this key (already shrunk)'
                with open(path, 'w') as f:
                    json.dump(rec, f, indent=1)
                print('  ' + desc)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            if len(viol) > 10:
                print('  ... and %d more' % (len(viol) - 10))
            return 1
        if self.errors:
            return 2
        if self.evals == 0:
            print('ERROR no case was evaluated')
            return 2
        return 0


def split(items, n):
    """deal items round-robin into n lists"""
    out = [[] for _ in range(max(1, min(n, len(items))))]
    for i, x in enumerate(items):
        out[i % len(out)].append(x)
    return out
