#!/usr/bin/env python3
"""benignsimple.py CHECKS NAME...: runs check.py for each of the comma separated checks on the behaviour-preserving edits of tools/benign."""
import os, shutil, subprocess, sys
import benign
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = sys.argv[1].split(',')
from concurrent.futures import ThreadPoolExecutor
def one(n):
    w = '/tmp/bs.' + n
    subprocess.run(['rm', '-rf', w]); os.mkdir(w)
    shutil.copytree('/repo/tommyds', w + '/tommyds'); shutil.copy('/repo/check.c', w); shutil.copytree(V + '/absint', w + '/absint'); shutil.copy(V + '/MANIFEST.json', w)
    out = []
    for f, old, new in benign.EDITS[n]:
        p = w + '/tommyds/' + f
        s = open(p).read()
        if old not in s: out.append('%s EDIT DOES NOT APPLY %s' % (n, old[:50]))
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['clang', '-O1', '-w', '-o', w + '/tc', 'check.c', 'tommyds/tommy.c', '-I.'], cwd=w)
    t = '?' if r.returncode else subprocess.run([w + '/tc'], cwd=w, capture_output=True, text=True).stdout.strip().split('\n')[-1]
    for c in checks:
        r = subprocess.run([sys.executable, 'absint/check.py', c], cwd=w, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        L = (r.stdout + r.stderr).strip().split('\n')
        out.append('%s test %s %s exit %d %s' % (n, t, c, r.returncode, L[0][:110]))
        out += ['    ' + l[:230] for l in L[1:4]]
    subprocess.run(['rm', '-rf', w])
    return '\n'.join(out)
with ThreadPoolExecutor(5) as ex:
    for o in ex.map(one, sys.argv[2:] or sorted(benign.EDITS)): print(o, flush=True)
