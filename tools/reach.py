#!/usr/bin/env python3
"""Which lines of coniii no check executes (functions compiled by numba are not seen and are listed as '~')."""
import ast, glob, json, os, subprocess, sys
ids = sys.argv[1:] or [os.path.basename(f)[:-3] for f in sorted(glob.glob('/verif/checks/C*.py'))]
from concurrent.futures import ThreadPoolExecutor
os.makedirs('/tmp/reach', exist_ok=True)
def one(i):
    f = '/tmp/reach/%s.json' % i
    subprocess.run(['/verif/bin/check', i, 'quick'], env=dict(os.environ, VERIF_COVER=f, VERIF_SEED='1'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
with ThreadPoolExecutor(3) as ex: list(ex.map(one, ids))
seen = {}
for f in glob.glob('/tmp/reach/*.json'):
    for p, n in json.load(open(f)): seen.setdefault(p.lstrip('/'), set()).add(n)
for f in sorted(glob.glob('/repo/coniii/*.py') + glob.glob('/repo/coniii/ising/*.py')):
    rel = os.path.relpath(f, '/repo')
    if 'test_' in f: continue
    got = next((v for k, v in seen.items() if k.endswith(rel)), set())
    src = open(f).read(); lines = src.splitlines(); tree = ast.parse(src)
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            body = {s.lineno for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
            body = {b for b in body}
            miss = sorted(body - got)
            if miss:
                jit = any('jit' in ast.unparse(d) for d in fn.decorator_list)
                if len(miss) == len(body): print('%s:%d %s %s: NEVER' % (rel, fn.lineno, '~' if jit else ' ', fn.name))
                else:
                    print('%s:%d   %s:' % (rel, fn.lineno, fn.name))
                    for m in miss[:12]: print('      %d %s' % (m, lines[m-1].strip()[:110]))
