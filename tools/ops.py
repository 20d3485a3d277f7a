#!/usr/bin/env python3
"""Development aid: token-level mutants of every executable line of the library.

ops.py [-j N] [-n LIMIT] [-s SEED] [FILTER]
Each mutant changes one token. Those that compile and pass the repository's tests go to the quick checks, the most
relevant property first, until one catches it; the others are printed as SURVIVED (equivalent, or a gap).
"""
import os, re, subprocess, sys, tempfile, threading, queue, random, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo/src'
PROPS = {  # (file, function) -> checks in the order of relevance
    'point_generic.rs': ['C16', 'C26', 'C22', 'C01'],
    'bezier_segment.rs': ['C02', 'C26', 'C22', 'C09'],
    'line.rs': {'eval': ['C01', 'C08'], 'split': ['C03', 'C24'], 'distance_to_point': ['C08', 'C15', 'C20'], 'axis': ['C01'], 'derivative': ['C04'], 'bounding_box': ['C05', 'C08'], 'root': ['C05', 'C15', 'C20'], '': ['C26', 'C01', 'C02']},
    'bspline.rs': {'new': ['C10', 'C11', 'C12', 'C20'], 'eval': ['C11', 'C12', 'C13', 'C23', 'C20'], 'knot_domain': ['C11', 'C12'], 'arclen': ['C14', 'C25', 'C20'], 'derivative': ['C13', 'C25', 'C12', 'C20'], 'fmt': ['C26', 'C10'], 'control_points': ['C22'], 'knots': ['C22'], '': ['C12', 'C11', 'C10', 'C13', 'C25', 'C20', 'C14']},
    'bezier.rs': {'eval': ['C01', 'C20'], 'split': ['C03', 'C24'], 'arclen': ['C06', 'C24', 'C20'], 'derivative': ['C04', 'C24'], 'distance_to_point': ['C07', 'C15', 'C02', 'C24', 'C20'], 'into_iter': ['C22'], 'control_points': ['C22'], '': ['C01', 'C22', 'C02']},
}
CV = {'eval': ['C01'], 'eval_casteljau': ['C01'], 'axis': ['C01'], 'split': ['C03', 'C24'], 'arclen': ['C06', 'C24', 'C20'], 'derivative': ['C04', 'C24'], 'dd': ['C04'], 'distance_to_point': ['C07', 'C15', 'C02', 'C24', 'C20'], 'is_linear': ['C09', 'C02'], 'is_a_point': ['C09'], 'bounding_box': ['C05', 'C15', 'C24', 'C20'], 'baseline': ['C22', 'C02'], 'are_points_colinear': ['C09'], 'real_roots': ['C05', 'C15', 'C24', 'C20'], 'control_points': ['C22'], '': ['C01', 'C26', 'C02', 'C05']}
PROPS['quadratic_bezier.rs'] = PROPS['cubic_bezier.rs'] = CV
SUB = [
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' >= ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' <= ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+= ', [' -= ']), (r'\.\.=', ['..']), (r'\.\.(?![=.])(?=\S)', ['..=']),
    (r'(?<![\w.])(\d+)\.(\d+)', ['0.0', '1.0', '2.0', '0.5']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', ['1', '3', '60']),
    (r'\bstart\b', ['end']), (r'\bend\b', ['start']), (r'\bctrl1\b', ['ctrl2']), (r'\bctrl2\b', ['ctrl1']), (r'\bctrl\b', ['start']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\bEPSILON\b', ['EPSILON * 1e7', 'EPSILON * 0.0']),
    (r'\bP::DIM\b', ['3.min(P::DIM)']), (r'\.abs\(\)', ['']), (r'\bif (?!let)', ['if true || ', 'if false && ']), (r'\bN\b', ['8.min(N)']), (r'\bD\b', ['4.min(D)']), (r'\bC\b', ['8.min(C)']), (r'(?<=\()t(?=\))', ['t * 0.999']),
    (r'^(\s*)(?!let |return|if |for |while |match |else|\}|pub |fn |use |impl|where|type |const )(\w[^{}]*;)$', [r'\1// gone']),
    (r'\bi\b', ['(i + 1)']), (r'\bj\b', ['(j + 1)']), (r'\bk\b', ['(k + 1)']), (r'!(?=\w+[.(])', ['']),
]
def mutants():
    for f in sorted(os.listdir(R)):
        if f not in PROPS: continue
        lines = open(f'{R}/{f}').read().split('\n')
        fn, skip = '', False
        for no, l in enumerate(lines):
            if '#[cfg(test)]' in l: break
            m = re.search(r'\bfn (\w+)', l)
            if m and not l.strip().startswith('//'):
                fn = m.group(1); skip = fn == 'solve_t_for_axis' or fn == 'real_roots' and f == 'cubic_bezier.rs'
                continue
            if skip or l.strip().startswith(('//', '#', 'use ', 'pub ', 'impl', 'where', 'type ', '}')) or not l.strip(): continue
            code = l.split('//')[0]
            for pat, subs in SUB:
                for k, mt in enumerate(re.finditer(pat, code)):
                    for s in subs:
                        new = code[:mt.start()] + mt.expand(s) + code[mt.end():]
                        if new != code:
                            yield (f, no, fn, l, new)
def props(f, fn):
    p = PROPS[f]
    return p if isinstance(p, list) else p.get(fn, p[''])
def run(cmd, cwd, t, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ''
ENV = '. ' + V + '/env.sh; '
def worker(q, stats, lock):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(f'cp -a /repo {d}/repo && mkdir {d}/verif && cp -a {V}/harness {V}/check.sh {V}/env.sh {d}/verif/ && sed -i "s#/repo#{d}/repo#" {d}/verif/harness/Cargo.toml', shell=True, check=True)
        while True:
            try: f, no, fn, old, new = q.get_nowait()
            except queue.Empty: return
            run('git checkout -q -- .', f'{d}/repo', 60)
            p = f'{d}/repo/src/{f}'
            L = open(p).read().split('\n'); assert L[no] == old; L[no] = new; open(p, 'w').write('\n'.join(L))
            tag = f'{f}:{no + 1} {fn}: {old.strip()}  =>  {new.strip()}'
            rc, _ = run(ENV + 'timeout 100 cargo build --offline -q --lib', f'{d}/repo', 120)
            if rc:
                with lock: stats['nobuild'] = stats.get('nobuild', 0) + 1
                continue
            rc, _ = run(ENV + 'ulimit -v 8000000; timeout 60 cargo test --offline -q --lib', f'{d}/repo', 120)
            if rc:
                with lock: stats['by tests'] = stats.get('by tests', 0) + 1
                continue
            got = None
            for prop in props(f, fn):
                rc, o = run(f'ulimit -v 16000000; timeout 400 ./check.sh {prop} quick', f'{d}/verif', 420, dict(os.environ, VERIF_ROOT=f'{d}/verif'))
                if rc == 1: got = prop; break
                if rc != 0: got = f'{prop} rc{rc}'; break
            with lock:
                stats[got] = stats.get(got, 0) + 1
                print(('SURVIVED ' if got is None else f'{got} ') + tag, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]; j = 3; limit = None; seed = 1
    while a and a[0].startswith('-'):
        o = a.pop(0); v = a.pop(0)
        if o == '-j': j = int(v)
        if o == '-n': limit = int(v)
        if o == '-s': seed = int(v)
    ms = [m for m in mutants() if not a or re.search(a[0], f'{m[0]}:{m[2]}')]
    random.Random(seed).shuffle(ms)
    if limit: ms = ms[:limit]
    print(len(ms), 'mutants', flush=True)
    q = queue.Queue()
    for m in ms: q.put(m)
    st, lock = {}, threading.Lock()
    th = [threading.Thread(target=worker, args=(q, st, lock)) for _ in range(j)]
    [t.start() for t in th]; [t.join() for t in th]
    print(st)
