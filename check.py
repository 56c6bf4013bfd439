#!/usr/bin/env python3
"""check.py ID [quick|thorough]   runs one property check against /repo's working tree.

Builds the explorer of the property from /repo/include, runs it in shards, writes
evidence/<ID>.json.  exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself could not run."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FASTAD_REPO', '/repo')
SRC = os.path.join(VERIF, 'src')
sys.path.insert(0, VERIF)
from checks import CHECKS
NCPU = min(8, os.cpu_count() or 8)
INC = ['-I' + SRC, '-I' + REPO + '/include', '-I/usr/include/eigen3']
DYN = [('real_un', 1), ('real_un', 2), ('real_un', 3), ('real_bin', 1), ('real_bin', 2), ('real_bin', 3), ('real_lin', 1), ('real_seq', 1), ('real_pdf', 1), ('build', 1)]

class BuildError(Exception): pass
def sh(cmd, log, timeout=800, link=False):
    with open(log, 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        if r.returncode < 0: raise RuntimeError('compiler killed: ' + ' '.join(cmd))
        txt = open(log).read()
        if link: raise RuntimeError(txt[-2000:])
        err = [l for l in txt.split('\n') if 'error' in l or 'undefined reference' in l][:3]
        raise BuildError(os.path.basename(log) + ': ' + ' | '.join(err)[:900])

def build(c, tier, d):
    """compile every unit of check c into directory d, return the executables"""
    jobs = []                                   # (weight, cmd, log)
    objs = {}
    def unit(name, cmd): jobs.append((name, cmd, os.path.join(d, name + '.log')))
    san = c.get('san', [])
    sfl = c.get('static_flags', [])
    opt = c.get('opt', '-O2')
    for e, mains in c['bins'].items():
        objs[e] = []
    def obj(e, name, cmd):
        o = os.path.join(d, name + '.o')
        unit(name, cmd + ['-o', o]); return o
    g = ['g++', '-std=c++17', '-w']
    cl = ['clang++', '-std=c++17', '-w', '-O0']
    shared = {}
    pres = {}                                   # precompiled header per set of sanitizer flags
    for e, b in c['bins'].items():
        def once(key, mk):
            if key not in shared: shared[key] = mk()
            objs[e].append(shared[key])
        san = b.get('san', c.get('san', [])); tag = ('C' if b.get('static') else 'S') if san else ''
        sfl = b.get('static_flags', c.get('static_flags', []))
        if sfl: tag += 'P' + re.sub(r'[^A-Za-z0-9]+', '', ''.join(sfl))
        g = ['clang++' if tag[:1] == 'C' else 'g++', '-std=c++17', '-w']       # one sanitizer runtime per program
        if b.get('engine', True): once('engine' + tag, lambda: obj(e, 'engine' + tag, g + [opt] + san + INC + ['-c', SRC + '/engine.cpp']))
        if b.get('dyn', True):
            for f, p in DYN:
                once((f, p, tag), lambda: obj(e, f'{f}{p}{tag}', g + [b.get('dynopt', '-O1')] + san + INC + [f'-DPART={p}', '-c', f'{SRC}/{f}.cpp']))
        for m in b.get('raw', []):              # units without instrumentation
            once(m + '_raw', lambda: obj(e, m + '_raw', ['g++', '-std=c++17', '-w', '-O2'] + INC + ['-c', f'{SRC}/{m}.cpp']))
        for m in b['main']:
            m, fl = (m, b.get('flags', [])) if isinstance(m, str) else (m[0], list(m[1:]))
            if b.get('static'): fl = fl + sfl
            nm = m + re.sub(r'[^A-Za-z0-9]+', '_', ''.join(fl)) + tag
            gm, om = (cl[:-1], '-O0') if b.get('fast') else (g, b.get('opt', opt))       # fast to compile
            once(nm, lambda: obj(e, nm, gm + [om] + san + INC + fl + ['-c', f'{SRC}/{m}.cpp']))
        if b.get('static'):
            pch = os.path.join(d, f'static{tag}.pch')
            pres[tag] = cl + san + sfl + INC + ['-x', 'c++-header', os.path.join(SRC, 'static.hpp'), '-o', pch]
            once('static' + tag, lambda: obj(e, 'static' + tag, g + [opt] + san + sfl + INC + ['-c', SRC + '/static.cpp']))
            for s in b['static']:
                n = b.get('nfiles', 8)
                subprocess.run([sys.executable, VERIF + '/gen/gen.py', s, d, str(n)], check=True, stdout=subprocess.DEVNULL)
                for i in range(n):
                    once((s, i, tag), lambda: obj(e, f'{s}_{i}{tag}', cl + san + sfl + ['-include-pch', pch] + INC + ['-c', f'{d}/{s}_{i}.cpp']))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fp = [ex.submit(sh, p, os.path.join(d, f'pch{t}.log')) for t, p in pres.items()]
        futs, late = [], []
        for j in jobs:
            if '-include-pch' in j[1]: late.append(j)
            else: futs.append(ex.submit(sh, j[1], j[2]))
        for f in fp: f.result()
        futs += [ex.submit(sh, j[1], j[2]) for j in late]
        for f in futs: f.result()
    exes = {}
    for e, b in c['bins'].items():
        x = os.path.join(d, e)
        san = b.get('san', c.get('san', []))
        if b.get('runtime') == 'own': san = []
        sh(['clang++' if san and b.get('static') else 'g++'] + san + objs[e] + ['-o', x, '-pthread'] + b.get('ldflags', []), x + '.link.log', link=True)
        exes[e] = x
    return exes

def run_shard(x, i, n, tier, timeout, env):
    p = subprocess.Popen([x, str(i), str(n), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env)
    try: out, err = p.communicate(timeout=timeout); to = False
    except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate(); to = True
    return out, err, p.returncode, to

def known(pid):
    k = []
    for l in open(VERIF + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) program=`([^`]*)` (.*)', l)
        if m and m.group(1) == pid: k.append((m.group(2), m.group(3).strip()))
    return k

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = CHECKS[pid]; t0 = time.time()
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    rd = os.path.join(ev, 'replay'); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rd, f))
    fails, reps, seen_known = [], [], set()
    d = tempfile.mkdtemp(prefix='fastad-' + pid + '-')
    try:
        try: exes = build(c, tier, d)
        except BuildError as e:
            print('build failed:', e)
            fails.append(dict(category='COMPILE', program='public expressions that compile on the original tree', message=str(e))); exes = {}
        tb = time.time() - t0
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:malloc_context_size=5', UBSAN_OPTIONS='print_stacktrace=0')
        limit = c.get('limit', 700) if tier == 'quick' else 20000
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fut = {}
            for e, x in exes.items():
                n = c['bins'][e].get('shards', NCPU)
                for i in range(n): fut[ex.submit(run_shard, x, i, n, 0 if tier == 'quick' else 1, limit, env)] = (e, i, n)
            for f in cf.as_completed(fut):
                e, i, n = fut[f]; out, err, rc, to = f.result()
                got = False
                for l in out.split('\n'):
                    if l.startswith('FAIL '):
                        try: q = json.loads(l[5:])
                        except ValueError: q = dict(category='FAIL', program='', message=l[5:])
                        q['shard'] = f'{e} {i} {n}'; fails.append(q)
                    elif l.startswith('REPORT '): reps.append(json.loads(l[7:])); got = True
                if to: fails.append(dict(category='HANG', program=f'{e} shard {i}', message=f'no result within {limit} s'))
                elif not got and not any(q.get('shard') == f'{e} {i} {n}' for q in fails):
                    if 'Sanitizer' in err or 'runtime error' in err:
                        m = [l for l in err.split('\n') if 'ERROR' in l or 'runtime error' in l]
                        fails.append(dict(category='SANITIZER', program='(see message)', message=(m[0] if m else '') + ' ' + err[-1500:], shard=f'{e} {i} {n}'))
                    else:
                        print(f'shard {e} {i} died: rc={rc}\n{err[-2000:]}'); return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    kn = known(pid); viol = []
    for q in fails:
        k = [w for p, w in kn if q.get('program', '').startswith(p) and q.get('category') == 'GRAD']
        if k: seen_known.add(k[0])
        else: viol.append(q)
    for w in sorted(seen_known): print(f'KNOWN-FINDING: property={pid} {w}')
    tot = {}
    for r in reps:
        for k, v in list(r.items()) + list(r['extra'].items()):
            if isinstance(v, int): tot[k] = tot.get(k, 0) + v
    cov = dict(states=tot.get('states', 0), transitions=tot.get('transitions', 0), traces_validated_against_impl=tot.get('traces', 0),
               samples=[s for r in reps for s in r['samples']][:12], exhaustive=not viol,
               programs=tot.get('programs', 0), skipped_outside_domain=tot.get('skipped', 0), bounds=c['bounds'][tier] if isinstance(c.get('bounds'), dict) else c.get('bounds', ''),
               state_means=c.get('state_means', 'one program (expression tree) with one assignment of inputs and one seed'),
               transition_means=c.get('transition_means', 'one forward or backward evaluation of the real expression'))
    for k, v in tot.items():
        if k not in ('states', 'transitions', 'traces', 'programs', 'skipped', 'fails'): cov[k] = v
    json.dump(dict(property=pid, tier=tier, seed=seed, level=c.get('level', 'model_checking'), coverage=cov, assumptions=c.get('assumptions', []),
                   wall_s=round(time.time() - t0, 2), violations=len(viol)), open(f'{ev}/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier}: programs={tot.get("programs",0)} states={tot.get("states",0)} transitions={tot.get("transitions",0)} traces={tot.get("traces",0)} skipped={tot.get("skipped",0)} build={tb:.1f}s total={time.time()-t0:.1f}s')
    if not viol and tot.get('states', 0) < c.get('min_states', 1):
        print('nothing explored'); return 2
    if viol:
        for n, q in enumerate(viol[:10]):
            p = f'{rd}/{pid}-{n}.json'
            json.dump(dict(property=pid, rerun=f'cd /verif && python3 check.py {pid} {tier}', **q), open(p, 'w'), indent=1)
            print(f"  {q['category']}: {q.get('program','')[:300]}\n     {q['message'][:300]}")
            if n == 0: first = p
        print(f'VIOLATION property={pid} replay={first}')
        return 1
    return 0
if __name__ == '__main__':
    try: sys.exit(main())
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(2)
