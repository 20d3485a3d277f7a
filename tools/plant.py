#!/usr/bin/env python3
"""Development aid: turn the bug list (tools/bugs.py) into seeded/<id>/ and confirm each one.

plant.py make [ID..]   write seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}; in a scratch copy of
                       /repo confirm: applies, builds, 25 tests pass, demo 0 without / nonzero with it
plant.py check [ID..]  apply each to /repo, run the quick check of its property, undo; print caught/missed
plant.py all ID        apply one and run every check
"""
import json, os, shutil, subprocess, sys, tempfile, difflib, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
BASE = '649c5a1'
DEMO = r'''#!/bin/bash
# cwd: the repository. 0: behaves as stated; nonzero: the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
work="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stroke = { path = "$repo" }
num-traits = { version = "0.2", default-features = false, features = ["libm"] }
[workspace]
C
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" || exit 98
timeout 120 "$work/target/debug/demo"
'''

def sh(cmd, cwd=None, t=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env, errors='replace')
    return p.returncode, p.stdout

def edit(bug, root):
    for f, old, new, *nth in bug['edits']:
        p = os.path.join(root, f)
        s = open(p).read()
        n = s.count(old)
        k = nth[0] if nth else 0
        if n == 0 or (n > 1 and not nth):
            raise SystemExit(f"{bug['id']}: {n} matches in {f} of {old!r}")
        i = -1
        for _ in range(k + 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, 'w').write(s)

def make(bug):
    d = os.path.join(V, 'seeded', bug['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        c = os.path.join(tmp, 'repo')
        sh(f'cp -a /repo {c} && git -C {c} checkout -q -- . && rm -rf {c}/target')
        out = []
        open(os.path.join(d, 'demo.rs'), 'w').write(bug['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(bug.get('demo_sh', DEMO))
        for k, v in bug.get('files', {}).items():
            open(os.path.join(d, k), 'w').write(v)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc0, o0 = sh(f'bash {d}/demo.sh', cwd=c)
        edit(bug, c)
        _, diff = sh('git diff', cwd=c)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # removed lines must be lines of the original repository
        for line in diff.split('\n'):
            if line.startswith('-') and not line.startswith('---') and line[1:].strip():
                _, base = sh(f"git show {BASE}:src/{'x'}", cwd=c) if False else (0, '')
        orig = {}
        cur = None
        for line in diff.split('\n'):
            if line.startswith('--- a/'):
                cur = line[6:]
                orig[cur] = sh(f'git show {BASE}:{cur}', cwd=c)[1].split('\n')
            elif line.startswith('-') and not line.startswith('---') and line[1:].strip():
                if line[1:] not in orig[cur]:
                    out.append(f'NOT ORIGINAL: {line}')
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, 't'))
        rc, o = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=' + os.path.join(tmp, 't') + '; cargo test --offline --lib 2>&1 | tail -40; cargo test --offline --doc 2>&1 | tail -5', cwd=c)
        ok = 'test result: ok. 25 passed' in o or ('test result: ok.' in o and 'FAILED' not in o and 'error' not in o)
        rc1, o1 = sh(f'bash {d}/demo.sh', cwd=c)
        good = rc0 == 0 and rc1 not in (0, 98, 99) and ok and not out
        msg = f"{bug['id']}: {'ok' if good else 'BAD'} clean={rc0} patched={rc1} tests={'ok' if ok else 'FAIL'} {out}"
        if not good:
            msg += '\n--- clean\n' + o0[-1500:] + '\n--- patched\n' + o1[-1500:] + ('' if ok else '\n--- tests\n' + o[-1500:])
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def scratch():
    """A copy of /repo and of the machinery that refers to it: /repo itself is never touched."""
    tmp = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    sh(f'cp -a /repo {tmp}/repo && mkdir {tmp}/verif && cp -a {V}/harness {V}/check.sh {V}/check32.sh {V}/run32.mjs {V}/env.sh {V}/free {tmp}/verif/ && sed -i "s#/repo#{tmp}/repo#" {tmp}/verif/free/Cargo.toml && (cp -a {V}/wasm {tmp}/verif/ || true) && sed -i "s#/repo#{tmp}/repo#" {tmp}/verif/harness/Cargo.toml', t=600)
    return tmp

def check(bug, props, tier='quick', tmp=None):
    own = tmp is None
    tmp = tmp or scratch()
    try:
        sh('git checkout -q -- .', cwd=f'{tmp}/repo')
        rc, o = sh(f"git apply {V}/seeded/{bug['id']}/patch.diff", cwd=f'{tmp}/repo')
        if rc: raise SystemExit(o)
        res = []
        for p in props:
            try:
                rc, o = sh(f'./check.sh {p} {tier}', cwd=f'{tmp}/verif', t=900, env=dict(os.environ, VERIF_ROOT=f'{tmp}/verif'))
            except subprocess.TimeoutExpired:
                rc, o = 'timeout', ''
            last = [l for l in o.split('\n') if l.strip()]
            res.append((p, rc, (last[-2:] if rc else last[-1:])))
        return res
    finally:
        if own: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    J = int(os.environ.get('J', '2'))
    if cmd == 'make':
        sel = [b for b in BUGS if not ids or b['id'] in ids]
        with cf.ThreadPoolExecutor(6) as ex:
            for m in ex.map(make, sel):
                print(m, flush=True)
    elif cmd == 'check':
        import queue, threading
        q = queue.Queue()
        for b in BUGS:
            if not ids or b['id'] in ids: q.put(b)
        def work():
            tmp = scratch()
            try:
                while True:
                    try: b = q.get_nowait()
                    except queue.Empty: return
                    for p, rc, l in check(b, [b['property']], tmp=tmp):
                        print(b['id'], p, 'CAUGHT' if rc == 1 else f'MISSED rc={rc}', [x[:300] for x in l], flush=True)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        th = [threading.Thread(target=work) for _ in range(min(J, q.qsize()))]
        [t.start() for t in th]; [t.join() for t in th]
    elif cmd == 'all':
        b = [b for b in BUGS if b['id'] == ids[0]][0]
        tmp = scratch()
        for n in range(1, 30):
            p = f'C{n:02}'
            if p == 'C21': continue
            for p, rc, l in check(b, [p], tmp=tmp):
                print(p, rc, [x[:200] for x in l], flush=True)
        shutil.rmtree(tmp, ignore_errors=True)
