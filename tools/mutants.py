#!/usr/bin/env python3
"""Development aid: condition-triggered mutants of the library, against the quick checks.

Each mutant wraps one public function: under one condition on its inputs the result is slightly wrong.
mutants.py [-j N] [-n LIMIT] [-p PROP[,PROP]] [-m MODE] [FILTER]   runs them in scratch copies under /tmp; prints the survivors.
Modes: wrong (default; the function's own property), panic (C20), heap (C19), m32 (wrong on 32-bit targets only: C21),
rel (wrong without debug assertions only: C28), again (wrong from the second time the condition is met: C18),
busy (wrong while another such call is going on: C27).
"""
import os, re, shutil, subprocess, sys, tempfile, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def f(e): return f'Into::<f64>::into({e})'
def ax(p, d='0'): return f(f'{p}.axis({d})')
L = 'P::DIM - 1'
TS = {
    't-near-1': 'T > 0.9999 && T < 1.0', 't-near-0': 'T > 0.0 && T < 1e-4', 't-mid': '(T - 0.5).abs() < 1e-3 && T != 0.5', 't-half': 'T == 0.5',
    't-third': '(T - 1.0/3.0).abs() < 1e-9', 't-band': 'T > 0.61 && T < 0.63', 't-eighth': 'T == 0.625', 't-low': 'T > 0.031 && T < 0.0325', 't-ulp': 'T != 1.0 && T > 1.0 - 1e-15',
}
def geo(pts):
    a, b = pts[0], pts[-1]
    c = {
        'closed': f'{a} == {b}', 'vertical': f'P::DIM > 1 && {ax(a)} == {ax(b)}', 'flat-last': f'{ax(a,L)} == {ax(b,L)}',
        'neg': ' && '.join(f'{ax(p)} < 0.0' for p in pts), 'big': f'{ax(a)}.abs() > 1e5', 'big-end': f'{ax(b,L)}.abs() > 1e5', 'tiny': f'{ax(a)} != 0.0 && {ax(a)}.abs() < 1e-9 && {ax(b)}.abs() < 1e-9',
        'tiny-all': ' && '.join(f'{ax(p)}.abs() < 1e-6' for p in pts), 'vast': f'{ax(b)}.abs() > 1e20',
        'mix': f'{ax(a)}.abs() > 1e3 && {ax(b)}.abs() < 1e-2', 'dim1': 'P::DIM == 1', 'dim5': 'P::DIM == 5', 'dim7': 'P::DIM == 7', 'dim9up': 'P::DIM > 8', 'dim4': 'P::DIM == 4',
        'down': ' && '.join(f'{ax(p)} > {ax(q)}' for p, q in zip(pts, pts[1:])), 'up-last': 'P::DIM > 1 && ' + ' && '.join(f'{ax(p,L)} < {ax(q,L)}' for p, q in zip(pts, pts[1:])),
        'frac': ' && '.join(f'{ax(p)}.fract() != 0.0' for p in pts), 'last-only': 'P::DIM > 2 && ' + ' && '.join(f'{ax(p)} == {ax(a)} && {ax(p,"1")} == {ax(a,"1")}' for p in pts[1:]) ,
        'negzero': f'{ax(a)} == 0.0 && {ax(a)}.is_sign_negative()', 'opposite': f'{ax(a)} == -{ax(b)} && {ax(a)} != 0.0', 'origin': f'{a} == P::default()', 'end-origin': f'{b} == P::default() && {a} != {b}',
        'near-closed': f'{a} != {b} && {f(f"({a} - {b}).squared_length()")} < 1e-9',
    }
    if len(pts) > 2:
        c['ctrl=start'] = f'{pts[1]} == {a} && {a} != {b}'; c['ctrl=end'] = f'{pts[-2]} == {b} && {a} != {b}'
        c['far-ctrl'] = f'{ax(pts[1])}.abs() > 100.0 * ({ax(a)}.abs() + {ax(b)}.abs()) && {ax(a)} != 0.0'
        c['even'] = f'{ax(pts[1])} * 2.0 == {ax(a)} + {ax(pts[2])} && {ax(pts[1])} != {ax(a)}'
    if len(pts) > 3:
        c['ctrls-equal'] = f'{pts[1]} == {pts[2]} && {a} != {b}'; c['s-shape'] = f'({ax(pts[1])} - {ax(a)}) * ({ax(pts[2])} - {ax(pts[1])}) < 0.0 && ({ax(pts[2])} - {ax(pts[1])}) * ({ax(b)} - {ax(pts[2])}) < 0.0'
        c['mirror'] = f'{ax(pts[1])} - {ax(a)} == {ax(b)} - {ax(pts[2])} && {ax(pts[1])} != {ax(a)}'
    return c
NS = {'n3': 'N == 3', 'n1': 'N == 1', 'n9': 'N == 9', 'n-gt-100': 'N > 100', 'n-gt-1000': 'N > 1000', 'n64': 'N == 64', 'n-odd-big': 'N > 20 && N % 2 == 1', 'n48': 'N > 40 && N < 60', 'n2p': 'N >= 16 && N.is_power_of_two()', 'n-gt-5000': 'N > 5000', 'n-gt-65535': 'N > 65535'}
SC = 'r * 1.0001f64'
BOX = '{ let mut r = r; r[P::DIM - 1].1 = r[P::DIM - 1].1 + 0.001f64; r }'
BOXT = '{ let mut r = r; let s = r[P::DIM - 1].1 - r[P::DIM - 1].0; r[P::DIM - 1].0 = r[P::DIM - 1].0 - s * 0.001f64; r }'
SW = '(r.1, r.0)'
M = []  # (file, fn anchor, args, cond name, cond, wrong, prop)
def add(file, fn, args, conds, wrong, prop, t=None, n=None, extra=None, pre=''):
    cs = dict(conds)
    if t:
        cs.update({k: v.replace('T', f(t)) for k, v in TS.items()})
    if n:
        cs.update({k: re.sub(r'\bN\b', n, v) for k, v in NS.items()})
    cs.update(extra or {})
    for k, v in cs.items():
        M.append((file, fn, args, k, pre, v, wrong, prop))
seg = ['self.start', 'self.end']; q3 = ['self.start', 'self.ctrl', 'self.end']; c4 = ['self.start', 'self.ctrl1', 'self.ctrl2', 'self.end']
AX = {'axis2': 'axis == 2', 'axis6': 'axis == 6', 'axis-last': 'axis == P::DIM - 1 && P::DIM > 1'}
def dist(pts, p):
    return {'on-start': f'{p} == {pts[0]}', 'on-end': f'{p} == {pts[-1]}', 'origin-q': f'{p} == P::default()', 'far': f'{f(f"({p} - {pts[0]}).squared_length()")} > 1e6',
            'close': f'{f(f"({p} - {pts[0]}).squared_length()")} < 1e-4 && {p} != {pts[0]}', 'neg-q': f'{ax(p)} < 0.0 && {ax(p,L)} < 0.0', 'r-small': f'Into::<f64>::into(r) < 1e-3 && Into::<f64>::into(r) > 0.0', 'r-large': 'Into::<f64>::into(r) > 1e4'}
for file, pts, ty in (('line.rs', seg, 'L'), ('quadratic_bezier.rs', q3, 'Q'), ('cubic_bezier.rs', c4, 'C')):
    g = geo(pts)
    add(file, 'pub fn eval(&self, t', 't', g, SC, 'C01', t='t')
    add(file, 'pub fn split(&self, t', 't', g, SW, 'C03', t='t')
    add(file, 'pub fn axis(&self, t', 't, axis', g, SC, 'C01', t='t', extra=AX)
    add(file, 'pub fn bounding_box(&self)', '', g, BOXT, 'C05', extra={'thin': f'Into::<f64>::into(r[0].1 - r[0].0) < 1e-6 && Into::<f64>::into(r[0].1 - r[0].0) > 0.0'})
    pn = 'p' if ty == 'L' else 'point'
    add(file, f'pub fn distance_to_point(&self, {pn}', pn, g, SC, 'C08' if ty == 'L' else 'C07', extra=dist(pts, pn))
    if ty != 'L':
        add(file, 'pub fn eval_casteljau(&self, t', 't', g, SC, 'C01', t='t')
        add(file, 'pub fn arclen(&self, nsteps', 'nsteps', g, SC, 'C06', n='nsteps')
        add(file, 'pub fn dd(&self, t', 't, axis', g, SC, 'C04', t='t', extra=AX)
        T = {'tol0': 'tolerance == 0.0.into()', 'tol-big': f(' tolerance') + ' > 50.0', 'tol-tiny': f('tolerance') + ' < 1e-6 && ' + f('tolerance') + ' > 0.0'}
        add(file, 'pub fn is_linear(&self, tol', 'tolerance', g, '!r', 'C09', extra=T)
        add(file, 'pub fn is_a_point(&self, tol', 'tolerance', g, '!r', 'C09', extra=T)
    add(file, 'pub fn derivative(&self)', '', g, {'L': SC, 'Q': 'LineSegment::new(r.eval(1.0.into()), r.eval(0.0.into()))', 'C': 'QuadraticBezier::new(r.end, r.ctrl, r.start)'}[ty], 'C04')
GN = {f'N{k}': f'N == {k}' for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 15, 16, 20, 31)}
GN['N-gt-33'] = 'N > 33'
gp = ['self.control_points[0]', 'self.control_points[N - 1]']
gg = geo(gp)
gg.update(GN)
gg['all-equal'] = 'N > 1 && self.control_points.iter().all(|p| *p == self.control_points[0])'
gg['adjacent'] = 'N > 3 && self.control_points[1] == self.control_points[2]'
gg['mid-big'] = f'N > 2 && {ax("self.control_points[N / 2]")}.abs() > 50.0'
add('bezier.rs', 'pub fn eval(&self, t', 't', gg, SC, 'C01', t='t')
add('bezier.rs', 'pub fn split(&self, t', 't', gg, SW, 'C03', t='t')
add('bezier.rs', 'pub fn arclen(&self, nsteps', 'nsteps', gg, SC, 'C06', n='nsteps')
add('bezier.rs', 'pub fn distance_to_point(&self, point', 'point', gg, SC, 'C07', extra=dist(gp, 'point'))
add('bezier.rs', 'pub fn derivative(&self)', '', gg, '{ let mut r = r; r.control_points[0] = r.control_points[0] * 1.0001f64; r }', 'C04')
KN = lambda i: f(f'self.knots[{i}]')
sp = {
    'D0': 'D == 0', 'D1': 'D == 1', 'D4': 'D == 4', 'D5': 'D == 5', 'D6': 'D == 6', 'D7': 'D == 7', 'D-gt-8': 'D > 8', 'C1': 'C == D + 1', 'C11': 'C == 11', 'C12': 'C == 12', 'C-gt-20': 'C > 20', 'C-gt-64': 'C > 64', 'C-gt-255': 'C > 255',
    'neg-domain': f'{KN("C")} < 0.0', 'far-domain': f'{KN("D")} > 100.0', 'tiny-domain': f'{KN("C")} - {KN("D")} < 1e-2 && {KN("C")} > {KN("D")}', 'long-domain': f'{KN("C")} - {KN("D")} > 100.0', 'symmetric': f'{KN("0")} == -{KN("K - 1")} && {KN("0")} != 0.0', 'int-start': f'{KN("D")} == 1.0',
    'front-not-back': f'self.knots[0] == self.knots[D] && self.knots[C] != self.knots[K - 1]', 'back-not-front': f'self.knots[0] != self.knots[D] && self.knots[C] == self.knots[K - 1]', 'over-clamped': f'D + 2 < K && self.knots[0] == self.knots[D + 1] && {KN("C")} > {KN("D")}',
    'ratio': f'C > D + 1 && {KN("D + 1")} - {KN("D")} > 30.0 * ({KN("C")} - {KN("C - 1")}) && {KN("C")} > {KN("C - 1")}', 'full-mult': f'(D + 1..C).any(|i| D > 0 && i + D - 1 < C && self.knots[i] == self.knots[i + D - 1] && {KN("i")} > {KN("D")} && {KN("i")} < {KN("C")})',
    'dim8': 'P::DIM == 8', 'dim1': 'P::DIM == 1', 'dim3': 'P::DIM == 3', 'p-closed': 'self.control_points[0] == self.control_points[C - 1]', 'p-zero': 'self.control_points[0] == P::default()', 'p-big': f'{ax("self.control_points[0]")}.abs() > 500.0', 'p-tiny': f'{ax("self.control_points[0]")}.abs() < 1e-6 && {ax("self.control_points[0]")} != 0.0', 'p-equal': 'self.control_points.iter().all(|p| *p == self.control_points[0])',
    'two-double': '{ let mut n = 0; for i in D + 1..C - 1 { if self.knots[i] == self.knots[i + 1] { n += 1; } } n >= 2 }', 'late-double': 'C > D + 3 && self.knots[C - 1] == self.knots[C - 2]',
}
tsp = {
    'at-knot': '(D + 1..C).any(|i| self.knots[i] == t)', 'at-double': '(D + 1..C - 1).any(|i| self.knots[i] == t && self.knots[i + 1] == t)', 'at-start': 't == self.knots[D]', 'at-end': 't == self.knots[C]', 'below-end': f't < self.knots[C] && {f("self.knots[C] - t")} < 1e-9', 'above-start': f't > self.knots[D] && {f("t - self.knots[D]")} < 1e-9',
    'last-span': 't > self.knots[C - 1]', 'span-5': 'C > D + 5 && t > self.knots[D + 4] && t < self.knots[D + 5]', 'span-40': 'C > 45 && t > self.knots[41] && t < self.knots[42]', 't0': f'{f("t")} == 0.0', 't-neg': f'{f("t")} < 0.0', 't-large': f'{f("t")} > 500.0', 'just-below-knot': f'(D + 1..C).any(|i| t < self.knots[i] && {f("self.knots[i] - t")} < 1e-12)',
}
spp = dict(sp); spp.update(tsp)
add('bspline.rs', 'pub fn eval(&self, t', 't', spp, 'r.map(|p| p * 1.0001f64)', 'C12')
add('bspline.rs', 'pub fn eval(&self, t', 't', {'e:' + k: v for k, v in spp.items()}, 'Err(BSplineError::KnotDomainViolation)', 'C11')
add('bspline.rs', 'pub fn knot_domain(&self)', '', sp, '(r.0, self.knots[K - 1] + 0.5f64)', 'C11')
add('bspline.rs', 'pub fn arclen(&self, nsteps', 'nsteps', sp, SC, 'C14', n='nsteps')
add('bspline.rs', 'pub fn derivative(&self)', '', sp, '{ let mut r = r; r.control_points[0] = r.control_points[0] * 1.0001f64; r }', 'C13')
spn = {k: v.replace('self.', '') for k, v in sp.items()}
add('bspline.rs', 'pub fn new(\n', 'knots, control_points', {'n:' + k: v for k, v in spn.items() if k[0] != 'p' and 'C1' != k}, 'Err(BSplineError::DecreasingKnots)', 'C10', pre='if r.is_ok() ')

MODE = 'wrong'
PROP = {'panic': 'C20', 'heap': 'C19', 'm32': 'C21', 'rel': 'C28', 'again': 'C18', 'busy': 'C27'}
A = 'core::sync::atomic::'
def mutate(root, m):
    file, fn, args, name, pre, cond, wrong, prop = m
    first = ''
    if MODE == 'panic': wrong = 'panic!()'
    if MODE == 'heap': wrong = '{ extern crate alloc; core::hint::black_box(alloc::vec::Vec::<u8>::with_capacity(9)); r }'
    if MODE == 'm32': cond = f'cfg!(target_pointer_width = "32") && ({cond})'
    if MODE == 'rel': cond = f'!cfg!(debug_assertions) && ({cond})'
    if MODE == 'again': cond = f'({cond}) && {{ static S: {A}AtomicUsize = {A}AtomicUsize::new(0); S.fetch_add(1, {A}Ordering::SeqCst) > 0 }}'
    if MODE == 'busy':
        first = f'static S: {A}AtomicBool = {A}AtomicBool::new(false); let met = {cond}; let busy = met && S.swap(true, {A}Ordering::SeqCst);\n        '
        cond = f'{{ if met && !busy {{ S.store(false, {A}Ordering::SeqCst); }} busy }}'
    p = os.path.join(root, 'src', file)
    s = open(p).read()
    i = s.index(fn)
    j = s.index('{\n', i)
    sig = s[i:j]
    nm = re.match(r'pub fn (\w+)', fn).group(1)
    call = f'self.{nm}__o({args})' if 'self' in sig.split(')')[0] else f'Self::{nm}__o({args})'
    w = sig + '{\n        ' + first + 'let r = ' + call + ';\n' + f'        {pre}{{ if {cond} {{ return {wrong}; }} }}\n        r\n    }}\n    #[allow(missing_docs)]\n    '
    s = s[:i] + w + s[i:].replace(f'pub fn {nm}', f'pub fn {nm}__o', 1)
    open(p, 'w').write(s)

def worker(q, out, props):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(f'cp -a /repo {d}/repo && mkdir {d}/verif && cp -a {V}/harness {V}/check.sh {V}/check32.sh {V}/run32.mjs {V}/env.sh {V}/free {d}/verif/ && sed -i "s#/repo#{d}/repo#" {d}/verif/free/Cargo.toml && (cp -a {V}/wasm {d}/verif/ || true) && sed -i "s#/repo#{d}/repo#" {d}/verif/harness/Cargo.toml', shell=True, check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            subprocess.run('git checkout -q -- .', shell=True, cwd=f'{d}/repo')
            mutate(f'{d}/repo', m)
            for prop in (props or [PROP.get(MODE, m[7])]):
                env = dict(os.environ, VERIF_ROOT=f'{d}/verif')
                r = subprocess.run(['timeout', '900', './check.sh', prop, 'quick'], cwd=f'{d}/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors='replace')
                st = {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'rc{r.returncode}')
                err = ''
                if r.returncode not in (0, 1):
                    e = re.findall(r'^error.*$', r.stdout, re.M); err = ' '.join(e[:2])
                print(f'{st} {prop} {m[0]}:{m[1]}:{m[3]} {err}', flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]; j = 3; props = None; limit = None
    while a and a[0].startswith('-'):
        o = a.pop(0); v = a.pop(0)
        if o == '-j': j = int(v)
        if o == '-p': props = v.split(',')
        if o == '-n': limit = int(v)
        if o == '-m': MODE = v
    ms = [m for m in M if not a or re.search(a[0], f'{m[7]} {m[0]}:{m[1]}:{m[3]}')]
    if MODE == 'busy': ms = [m for m in ms if not re.search(r'\br\b', m[5])]
    if limit:
        random.Random(1).shuffle(ms); ms = ms[:limit]
    print(len(ms), 'mutants', flush=True)
    q = queue.Queue()
    for m in ms: q.put(m)
    th = [threading.Thread(target=worker, args=(q, None, props)) for _ in range(j)]
    [t.start() for t in th]; [t.join() for t in th]
