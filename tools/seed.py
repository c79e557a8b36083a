#!/usr/bin/env python3
"""Makes and confirms planted changes.

    seed.py FILE.py ...      FILE.py defines S = [dict(id, property, needs, breaks, edits, test[, pkg, fn, extra]), ...]

For each: writes /verif/seeded/<id>/ and keeps it only if, in a scratch copy, the
demonstration passes unchanged, and with the change everything builds, the stable
tests pass and the demonstration fails. -n: only what is new.
"""
import sys, os, json, shutil, subprocess, importlib.util, tempfile
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='')
DEMO = '''#!/bin/bash
# demonstration: run with cwd at the repository, after the build
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
o=$(mktemp) || exit 1
trap 'rm -f -- "$o"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)szz_demo_test.go" "$d/demo_test.go" > "$o"
go test -vet=off -overlay "$o" %(flags)s -run '^TestDemo$' -count=1 -timeout 200s ./%(dir)s
'''
def run(c, cwd, **k): return subprocess.run(c, cwd=cwd, capture_output=True, text=True, **k)
def main():
    new = '-n' in sys.argv
    only = [a[3:] for a in sys.argv if a.startswith('-k=')]
    S = []
    for f in [a for a in sys.argv[1:] if not a.startswith('-')]:
        s = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); S += m.S
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for s in S:
        out = f'/verif/seeded/{s["id"]}'
        if only and not any(o in s['id'] for o in only): continue
        if new and os.path.exists(out): continue
        d = tempfile.mkdtemp(prefix='seed_', dir='/tmp'); r = d + '/repo'
        ok = False
        try:
            shutil.copytree('/repo', r, symlinks=True)
            e = dict(env, GOWORK=r + '/go.work')
            dd = d + '/demo'; os.mkdir(dd)
            pk = s.get('pkg', '')
            open(dd + '/demo_test.go', 'w').write(s['test'])
            open(dd + '/demo.sh', 'w').write(DEMO % dict(dir=pk, flags=s.get('flags', '')))
            bad = 0
            for i in range(s.get('runs', 2)):
                p = run(['bash', dd + '/demo.sh'], r, env=e)
                if p.returncode: bad = 1; break
            if bad: print(s['id'], 'FAILS UNCHANGED', (p.stdout + p.stderr)[-1500:]); continue
            base = run(['git', 'blame', '-s', '--root', '-l', s['edits'][0][0]], '/repo').stdout
            err = None
            for f, o, n in s['edits']:
                t = open(f'{r}/{f}').read()
                if t.count(o) != 1: err = f'BAD EDIT {f} {t.count(o)} {o[:70]!r}'; break
                open(f'{r}/{f}', 'w').write(t.replace(o, n))
            if err: print(s['id'], err); continue
            b = run(['go', 'build', './...'], r, env=e)
            if b.returncode: print(s['id'], 'NO BUILD', b.stderr[:800]); continue
            failed = []
            for t in stable:
                pkg, name = t.rsplit('/', 1)
                p = run(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', '-run', f'^{name}$', pkg], r, env=e)
                if p.returncode: failed.append(name)
            if failed: print(s['id'], 'TESTS FAIL', failed); continue
            n = 0
            for i in range(s.get('runs', 2)):
                p = run(['bash', dd + '/demo.sh'], r, env=e)
                n += p.returncode != 0
            if n < s.get('runs', 2): print(s['id'], 'DEMO PASSES WITH CHANGE', n); continue
            if 'panic: test timed out' in p.stdout and not s.get('timeoutok'): print(s['id'], 'note: demo timed out')
            diff = run(['git', 'diff'], r).stdout
            # removed lines have to be original
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            for f in ('demo_test.go', 'demo.sh'): shutil.copy(f'{dd}/{f}', out)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            touched = set()
            fn = None; ln = 0
            for l in diff.splitlines():
                if l.startswith('--- '): fn = l[6:]
                elif l.startswith('@@'): ln = int(l.split('-')[1].split(',')[0].split(' ')[0])
                elif l.startswith('-'): touched.add((fn, ln)); ln += 1
                elif l.startswith('+'): pass
                else: ln += 1
            orig = 0
            for f, k in touched:
                bl = run(['git', 'blame', '-s', '-l', '-L', f'{k},{k}', f], '/repo').stdout
                if bl.startswith('^') or bl.startswith('3477efe'): orig += 1
            last = [x for x in p.stdout.splitlines() if 'demo_test.go' in x or 'panic' in x or 'DATA RACE' in x][:2]
            print(s['id'], 'OK', f'removed lines {len(touched)} original {orig}', last, flush=True)
            ok = True
        finally:
            shutil.rmtree(d, ignore_errors=True)
main()
