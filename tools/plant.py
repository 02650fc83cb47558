"""Makes /verif/seeded/<id>/ from the specs in plants.py.

usage: plant.py [--check] [ID ...]
Each spec: property, needs, what, edits [(file, old, new)], demo (python source).
A change is kept only if it applies, the stable tests pass with it, the demo passes without it and fails with it.
--check also runs the property's quick check against it (applied to /repo and undone).
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plants import PLANTS
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', MPLBACKEND='Agg',
           NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
STABLE = json.load(open('/opt/vp/BASELINE.json'))
SH = '''#!/bin/bash
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(pid, p, check):
    W = f'/tmp/plant_{pid}'
    shutil.rmtree(W, ignore_errors=True)
    run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    try:
        for f, old, new in p['edits']:
            path = os.path.join(W, 'vspec_vsm', f)
            s = open(path).read()
            if s.count(old) != 1:
                return f'EDIT {f}: found {s.count(old)} times: {old[:60]!r}'
            open(path, 'w').write(s.replace(old, new))
        diff = run(['git', '-C', W, 'diff']).stdout
        D = os.path.join(V, 'seeded', pid)
        os.makedirs(D, exist_ok=True)
        open(os.path.join(D, 'patch.diff'), 'w').write(diff)
        open(os.path.join(D, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(D, 'demo.sh'), 0o755)
        open(os.path.join(D, 'demo.py'), 'w').write(p['demo'].lstrip('\n'))
        json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['what']),
                  open(os.path.join(D, 'meta.json'), 'w'), indent=1)
        t = run([PY, '-m', 'pytest', '-q', 'test', '-p', 'no:cacheprovider', '--timeout=300', '-x'],
                cwd=W, env=dict(ENV, PYTHONPATH=W))
        tests = t.stdout.strip().splitlines()[-1]
        if t.returncode:
            bad = [l for l in t.stdout.splitlines() if l.startswith('FAILED')]
            shutil.rmtree(D); return f'TESTS FAIL {bad} {tests}'
        a = run(['bash', os.path.join(D, 'demo.sh')], cwd='/repo')
        b = run(['bash', os.path.join(D, 'demo.sh')], cwd=W)
        if a.returncode != 0 or b.returncode == 0:
            shutil.rmtree(D)
            return f'DEMO clean={a.returncode} bug={b.returncode}\n{a.stdout[-600:]}\n{b.stdout[-600:]}'
        msg = f'ok [{tests}] demo: {b.stdout.strip().splitlines()[-1][:100]}'
        if check:
            c = run([os.path.join(V, 'check'), p['property']], cwd=V, env=dict(os.environ, VSM_REPO=W, VERIF_SEED='1', VERIF_TIER='quick'))
            vio = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            msg += f'\n      check {p["property"]}: exit {c.returncode} {vio[:1]} ' + ' | '.join(l for l in c.stdout.splitlines() if 'law' in l.lower())[:300]
            msg += '' if c.returncode == 1 else '   <<<<< MISSED'
        return msg
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    check = '--check' in a
    ids = [x for x in a if not x.startswith('-')] or list(PLANTS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2 if check else 4) as ex:
        for pid, m in zip(ids, ex.map(lambda i: make(i, PLANTS[i], check), ids)):
            print(f'{pid} {PLANTS[pid]["property"]}: {m}', flush=True)
