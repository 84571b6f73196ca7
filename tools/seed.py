#!/usr/bin/env python3
"""Plants the bugs described in a spec module: makes the patch, confirms it builds, passes the tests, and that its
demonstration tells it from the unchanged tree; then runs the check of its property.
usage: seed.py SPEC.py [id...]   (SPEC: list S of dicts id, prop, edits=[(file, old, new)], demo, needs, breaks)
/repo is changed and restored; nothing else may use it meanwhile. With SEED_W=DIR, DIR/repo (a copy), DIR/vp (the build
scripts, with their paths changed) and DIR/verif (a copy of this folder) are used instead."""
import json, os, runpy, subprocess, sys, time
W = os.environ.get('SEED_W'); R = W + '/repo' if W else '/repo'; VP = W + '/vp' if W else '/opt/vp'; V = W + '/verif' if W else '/verif'; INC = R + '/include/boost/safe_numerics/'
sh = lambda c, t=900: subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
def restore(): sh('git -C ' + R + ' checkout -- .')
PRE = '''#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/safe_integer_literal.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/cpp.hpp>
#include <boost/safe_numerics/checked_default.hpp>
#include <boost/safe_numerics/checked_integer.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
#include <boost/safe_numerics/utility.hpp>
#include <boost/safe_numerics/safe_compare.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
#include <cstdint>
#include <climits>
#include <iostream>
#include <sstream>
#include <string>
#include <limits>
using namespace boost::safe_numerics;
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
#define REQUIRE(...) do { if (!(__VA_ARGS__)) { std::cerr << "failed: " #__VA_ARGS__ << std::endl; return 1; } } while (0)
'''
SH = '''#!/bin/bash
# run in the repository; exit 0 when the demonstration passes
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
%s -I include "$d/demo.cpp" -o "$t/demo" && timeout 100 "$t/demo"
'''
def main():
    S = runpy.run_path(sys.argv[1])['S']; want = sys.argv[2:]
    chk = '--check-only' in want; want = [w for w in want if not w.startswith('--')]
    if sh('git -C ' + R + ' status --porcelain -uno').stdout.strip(): sys.exit('repo dirty')
    for s in S:
        if want and s['id'] not in want: continue
        d = '/verif/seeded/' + s['id']; t0 = time.time()
        try:
            for f, a, b in s['edits']:
                p = INC + f; x = open(p).read()
                n = s.get('nth', {}).get(a, None)
                if n is None and x.count(a) != 1: print(s['id'], 'EDIT count', x.count(a), repr(a)[:90]); raise KeyError
                if n is not None:
                    parts = x.split(a); x = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
                else: x = x.replace(a, b)
                open(p, 'w').write(x)
        except KeyError: restore(); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git -C ' + R + ' diff').stdout)
        open(d + '/demo.cpp', 'w').write(PRE + s.get('pre', '') + '\nint main(){\n' + s['demo'] + '\n return 0; }\n')
        if s.get('raw'):
            sh('rm -f %s/demo.cpp' % d)
            open(d + '/demo.sh', 'w').write(SH[:SH.index('%s -I')] + s['raw'])
        else: open(d + '/demo.sh', 'w').write(SH % s.get('cxx', 'g++ -std=c++14 -w -O1')); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        res = []
        try:
            bad = sh('cd %s && bash %s/demo.sh' % (R, d))
            if not chk:
                b = sh('bash %s/build.sh' % VP); t = sh('bash %s/test.sh /tmp/x/seed_out.json' % VP)
                miss = set(json.load(open(VP + '/BASELINE.json'))['stable']) - set(json.load(open('/tmp/x/seed_out.json'))['passed'])
                res.append('build %d' % b.returncode); res.append('tests %s' % (sorted(miss)[:4] if miss else 'ok'))
            else: miss = set()
            if not miss:
                c = sh('cd %s && VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s' % (V, R, s['prop']), 900)
                v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION property=%s ' % s['prop'])]
                res.append('check rc=%d %s' % (c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED'))
                open('/tmp/x/seed_%s.log' % s['id'], 'w').write(c.stdout + c.stderr)
        finally: restore()
        good = sh('cd %s && bash %s/demo.sh' % (R, d))
        res.append('demo bad=%d good=%d' % (bad.returncode, good.returncode))
        if good.returncode: res.append(good.stderr[-600:])
        print(s['id'], s['prop'], '|', '; '.join(res), '| %.0fs' % (time.time() - t0), flush=True)
main()
