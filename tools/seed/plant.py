#!/usr/bin/env python3
"""plant.py SPECS.py [ID ...]: makes and tests the planted bugs of a spec file.

A spec file defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)],
main (Rust source of the demonstration) or files {name: content} for others.
Each is made in a scratch copy of /repo, built, tested, and its demo run with and without it."""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('OUT', '/verif/seeded')
BASE = '191b1f3'
N = int(os.environ.get('N', '3'))
def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def scratch(i):
    d = f'/tmp/sc{i}'
    if not os.path.isdir(d):
        subprocess.check_call(['cp', '-a', '/repo', d])
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=d)
    return d
VP = '''
. /opt/vp/env.sh; export CARGO_TARGET_DIR=%(d)s/target; cd %(d)s
clear_dummy_inputs
cargo test --workspace --features "$FEATURES" --no-run --offline >%(d)s/target/b.log 2>&1 || { tail -30 %(d)s/target/b.log; exit 7; }
clear_dummy_inputs
cargo test --workspace --features "$FEATURES" --no-fail-fast --offline -- --test-threads 4 >%(d)s/target/t.log 2>&1
python3 /opt/vp/results.py %(d)s/target/r.json cargo:%(d)s/target/t.log
'''
def one(s, d):
    sid = s['id']; out = f'{OUT}/{sid}'
    os.makedirs(out, exist_ok=True)
    sh('git checkout -q -- .', cwd=d)
    for f, old, new in s['edits']:
        p = f'{d}/{f}'; t = open(p).read()
        if t.count(old) != 1: return sid, f'EDIT {f}: found {t.count(old)} times: {old[:60]!r}'
        open(p, 'w').write(t.replace(old, new))
    patch = subprocess.check_output(['git', 'diff'], cwd=d).decode()
    sh('git checkout -q -- .', cwd=d)
    # the lines taken away are the original repository's
    cur = None
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            cur = subprocess.check_output(['git', 'show', f'{BASE}:{l[6:]}'], cwd='/repo').decode().splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in cur:
            return sid, f'NOT ORIGINAL: {l}'
    if not any(l.startswith('-') and not l.startswith('---') for l in patch.splitlines()):
        return sid, 'only additions'
    open(f'{out}/patch.diff', 'w').write(patch)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{out}/meta.json', 'w'), indent=1, ensure_ascii=False)
    if 'main' in s:
        open(f'{out}/main.rs', 'w').write(s['main'].lstrip())
        for f in ('helper.rs', 'demo.sh'): shutil.copy(f'{HERE}/{f}', out)
    for n, c in s.get('files', {}).items(): open(f'{out}/{n}', 'w').write(c)
    os.chmod(f'{out}/demo.sh', 0o755)
    rc, o = sh(f'bash {out}/demo.sh', cwd=d)
    if rc: return sid, f'DEMO FAILS UNPATCHED {rc}:\n{o[-2500:]}'
    sh(f'git apply {out}/patch.diff', cwd=d)
    try:
        rc, o = sh(VP % {'d': d})
        if rc: return sid, f'BUILD FAILS\n{o[-2500:]}'
        r = json.load(open(f'{d}/target/r.json')); b = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(b['stable']) - set(r['passed'])
        if miss: return sid, f'TESTS FAIL {sorted(miss)[:5]}'
        rc, o = sh(f'bash {out}/demo.sh', cwd=d)
        if rc == 0: return sid, 'DEMO PASSES PATCHED'
        if rc == 3: return sid, f'DEMO NOT BUILT\n{o[-1500:]}'
        return sid, f'ok (demo {rc}: {o.strip()[-160:]!r})'
    finally:
        sh('git checkout -q -- .', cwd=d)
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:]
    seeds = [s for s in seeds if not ids or s['id'] in ids]
    q = Queue()
    for i in range(N): q.put(scratch(i))
    def run(s):
        d = q.get()
        try: return one(s, d)
        except Exception as e: return s['id'], f'EXC {e!r}'
        finally: q.put(d)
    bad = 0
    with ThreadPoolExecutor(N) as ex:
        for sid, r in ex.map(run, seeds):
            print(sid, r, flush=True)
main()
