#!/usr/bin/env python3
"""Plants the bugs described by a python file into /verif/seeded (development tool, no check uses it).

  plant.py SPECS.py [ID...]      validate (patch, original lines, tests, demo), write /verif/seeded/<id>
  plant.py --check [ID...]       run the property's quick check against each planted bug

SPECS.py defines add(id, prop, edits, demo, needs, breaks) calls. Work happens in copies under /tmp/pl."""
import json, os, subprocess, sys, shutil, re, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'; SEED = HERE + '/seeded'; WORK = '/tmp/pl'
BASE = '3f66595'
PRE = r'''#include <fastad>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <fastad_bits/reverse/core/transpose.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <memory>
#include <thread>
#include <vector>
using namespace ad;
static int bad = 0;
static void near(double got, double want, const char* what, double tol = 1e-9) {
    bool ok = (got == want) || std::abs(got - want) <= tol * std::max(1., std::abs(want));
    if (!ok) { std::printf("%s: got %.17g, want %.17g\n", what, got, want); ++bad; }
}
static void yes(bool c, const char* what) { if (!c) { std::printf("%s\n", what); ++bad; } }
'''
SH = r'''#!/bin/bash
# Compiles the program beside this script against the headers of the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 %s -I include -I /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -pthread || exit 2
timeout 200 "$T/demo"
'''
specs = {}
def add(id, prop, edits, demo, needs, breaks, flags=''):
    assert id not in specs, id
    specs[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags)

def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def copy(name):
    d = f'{WORK}/{name}'
    if not os.path.isdir(d):
        os.makedirs(WORK, exist_ok=True)
        sh(f'git -C {REPO} worktree prune; git clone -q {REPO} {d}')
        sh(f'mkdir -p {d}/libs/benchmark && ln -sfn /usr/src/googletest {d}/libs/benchmark/googletest')
    head = sh(f'git -C {REPO} rev-parse HEAD').stdout.strip()
    sh(f'git -C {d} fetch -q {REPO} && git -C {d} checkout -qf {head} && git -C {d} clean -fdq')
    return d

def apply_edits(d, edits):
    for f, old, new in edits:
        p = f'{d}/include/fastad_bits/{f}'
        s = open(p, newline='').read()
        if '\r\n' in s:
            old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        n = s.count(old)
        assert n == 1, f'{f}: {n} matches of {old!r}'
        open(p, 'w', newline='').write(s.replace(old, new))

def orig_lines(d):
    """the removed/changed lines must belong to the original repository"""
    own = 0; other = 0
    diff = sh(f'git -C {d} diff -U0').stdout
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0: continue
            bl = sh(f'git -C {REPO} blame -s -L {a},{a+n-1} HEAD -- {f}').stdout
            for b in bl.splitlines():
                new = sh(f'git -C {REPO} merge-base --is-ancestor {b.split()[0].lstrip("^")} {BASE}').returncode != 0
                if new: other += 1
                else: own += 1
    return own, other

def build_test(d):
    b = f'{d}/_build'
    r = sh(f'cmake -S {d} -B {b} -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DFASTAD_ENABLE_TEST=ON -DFASTAD_ENABLE_EXAMPLE=ON -DFASTAD_ENABLE_BENCHMARK=OFF && ninja -C {b} -j8')
    if r.returncode: return 'BUILD FAILS\n' + r.stdout[-3000:]
    rep = f'{b}/vp-reports'; out = f'{d}.json'
    sh(f'rm -rf {rep}; mkdir -p {rep}')
    r = sh(f'env -i PATH=$PATH HOME=/root python3 /opt/vp/gtest_each.py {b} {rep} && python3 /opt/vp/results.py {out} "junit:{rep}/case-*.xml" "lines:{rep}/crashed.txt"')
    if not os.path.exists(out): return 'NO RESULTS ' + r.stdout[-2000:]
    res = json.load(open(out)); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = sorted(set(base) - set(res['passed']))
    return '' if not miss else f'{len(miss)} TESTS FAIL: ' + ', '.join(miss[:6])

def demo(d, dd):
    return sh(f'bash {dd}/demo.sh', cwd=d)

def validate(s):
    d = copy('w'); dd = f'{WORK}/demo-{s["id"]}'
    shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
    open(f'{dd}/demo.cpp', 'w').write(PRE + re.sub(r'(?<![:\w])bind\(', 'ad::bind(', s['demo']))
    open(f'{dd}/demo.sh', 'w').write(SH % s['flags'])
    r = demo(d, dd)
    if r.returncode: return f'demo fails on the clean tree ({r.returncode}): {r.stdout[:500]}'
    apply_edits(d, s['edits'])
    own, other = orig_lines(d)
    if own == 0: return f'changes no original line ({other} lines of ours)'
    patch = sh(f'git -C {d} diff --binary')
    r = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE); 
    open(f'{dd}/patch.diff', 'wb').write(r.stdout)
    r = demo(d, dd)
    if r.returncode == 0: return 'demo passes with the patch'
    if r.returncode == 2: return 'demo does not compile with the patch: ' + r.stdout[:700]
    why = r.stdout.strip().splitlines()[:2]
    t = build_test(d)
    if t: return t
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{dd}/meta.json', 'w'), indent=1)
    o = f'{SEED}/{s["id"]}'; shutil.rmtree(o, ignore_errors=True); shutil.copytree(dd, o)
    return f'OK orig={own} ours={other} demo: {why}'

def check(id, tier='quick'):
    d = copy('c'); o = f'{SEED}/{id}'
    r = sh(f'git -C {d} apply {o}/patch.diff')
    if r.returncode: return id, 'NOAPPLY ' + r.stdout, 0
    p = json.load(open(f'{o}/meta.json'))['property']; t = time.time()
    r = sh(f'FASTAD_REPO={d} VERIF_SEED=1 VERIF_TIER={tier} timeout 1500 python3 {HERE}/check.py {p} {tier}', cwd=HERE)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return p, f'exit {r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {v[:1]} ' + ('' if v else r.stdout[-1500:]), time.time() - t

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--check':
        ids = a[1:] or sorted(os.listdir(SEED))
        for i in ids:
            p, m, t = check(i); print(f'{i} {p} {m} ({t:.0f}s)', flush=True)
    else:
        exec(compile(open(a[0]).read(), a[0], 'exec'))
        for i in (a[1:] or list(specs)):
            if not a[1:] and os.path.exists(f'{SEED}/{i}/meta.json'): continue
            try: print(i, validate(specs[i]), flush=True)
            except Exception as e: print(i, 'ERROR', repr(e)[:1500], flush=True)
