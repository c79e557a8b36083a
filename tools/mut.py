#!/usr/bin/env python3
"""Development aid: applies textual changes to a scratch copy of /repo and shows
which checks report them.

    mut.py [-k substring] [-c ID,ID] FILE.py ...

FILE.py defines M = [(name, [ids expected], [(file, old, new), ...]), ...]; an
empty list of ids means a change that keeps behaviour: every id named with -c (or
all) has to stay quiet.
"""
import sys, os, shutil, subprocess, importlib.util, argparse, tempfile
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('-k', default='')
ap.add_argument('-c', default='')
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-t', action='store_true', help='run the tests of the repository too')
ap.add_argument('-v', action='store_true')
ap.add_argument('--seeded', action='store_true', help='run the planted changes')
ap.add_argument('files', nargs='*')
a = ap.parse_args()
M = []
for f in a.files:
    s = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    M += m.M
if a.seeded:
    import glob, json
    for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
        M.append((os.path.basename(os.path.dirname(f)), [json.load(open(f))['property']], os.path.dirname(f) + '/patch.diff'))
M = [m for m in M if a.k in m[0]]
tool = os.environ.get('TRUCHECK', '/tmp/trucheck')
def ids():
    out = subprocess.run([tool, '-list'], capture_output=True, text=True).stdout.split()
    return out
def one(m):
    name, exp, edits = m
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        r = d + '/repo'; shutil.copytree('/repo', r, symlinks=True)
        v = d + '/v'; os.mkdir(v); shutil.copy('/verif/known-findings.txt', v)
        if isinstance(edits, str):
            p = subprocess.run(['git', 'apply', edits], cwd=r, capture_output=True, text=True)
            if p.returncode: return f'{name}: does not apply {p.stderr[:300]}'
            edits = []
        for f, o, n in edits:
            t = open(f'{r}/{f}').read()
            if t.count(o) != 1: return f'{name}: BAD EDIT {f} count={t.count(o)} {o[:60]!r}'
            open(f'{r}/{f}', 'w').write(t.replace(o, n))
        b = subprocess.run(['go', 'build', './...'], cwd=r, capture_output=True, text=True)
        if b.returncode: return f'{name}: DOES NOT BUILD {b.stderr[:400]}'
        b = subprocess.run(['go', 'vet', '-unusedresult=false', '.'], cwd=r, capture_output=True, text=True)
        cs = a.c.split(',') if a.c else (exp or ids())
        env = dict(os.environ, TRU_REPO=r, VERIF_DIR=v)
        p = subprocess.run([tool] + cs, env=env, capture_output=True, text=True)
        vi = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        hit = sorted({l.split('property=')[1].split()[0] for l in vi})
        want = [c for c in exp if c in cs]
        ok = (set(want) <= set(hit)) if exp else not hit
        msg = f'{"ok  " if ok else "MISS" if exp else "ALARM"} {name}: hit={hit} rc={p.returncode}'
        if a.t:
            tr = subprocess.run(['go', 'test', '-count=1', '.'], cwd=r, capture_output=True, text=True)
            msg += ' tests=' + ('pass' if tr.returncode == 0 else 'FAIL')
        if a.v or not ok: msg += '\n' + '\n'.join('      ' + l for l in (p.stdout + p.stderr).splitlines() if l.strip() and not l.startswith('evidence'))[:3000]
        return msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(a.j) as ex:
    for res in ex.map(one, M): print(res, flush=True)
