#!/usr/bin/env python3
"""benign.py [NAME...]: applies behaviour-preserving edits to a scratch copy of /repo and runs all engine runs on it.
Prints every obligation that is not discharged: a False there is a false alarm."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}
for f in sorted(os.listdir(os.path.join(V, 'tools', 'benign'))):
    # NAME.txt: blocks "@@ file" then old, "==>" line, new, "@@end"
    name = f[:-4]
    out = []
    for blk in open(os.path.join(V, 'tools', 'benign', f)).read().split('\n@@end'):
        blk = blk.strip('\n')
        if not blk:
            continue
        head, rest = blk.split('\n', 1)
        old, new = rest.split('\n==>\n') if '\n==>\n' in rest else (rest.split('\n==>')[0], '')
        out.append((head[3:].strip(), old, new))
    EDITS[name] = out


def main():
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(EDITS)
    runs = [a[2:] for a in sys.argv[1:] if a.startswith('-r')]
    for n in names:
        w = '/tmp/benignwork'
        subprocess.run(['rm', '-rf', w])
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '_build', 'benchmark*', 'tommybench'))
        for f, old, new in EDITS[n]:
            p = os.path.join(w, 'tommyds', f)
            s = open(p).read()
            if old not in s:
                print(n, 'EDIT DOES NOT APPLY:', f, repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            r = subprocess.run(['clang', '-O1', '-w', '-o', w + '/tc', 'check.c', 'tommyds/tommy.c', '-I.'], cwd=w)
            t = subprocess.run([w + '/tc'], cwd=w, capture_output=True, text=True).stdout.strip().split('\n')[-1] if r.returncode == 0 and not os.environ.get('NOTEST') else '?'
            t0 = time.time()
            e = dict(os.environ, VERIF_REPO=w)
            try:
                o = subprocess.run([sys.executable, 'ops.py'] + runs, cwd=os.path.join(V, 'absint'), env=e, capture_output=True, text=True, timeout=400)
                so = o.stdout + o.stderr
            except subprocess.TimeoutExpired as x:
                so = 'TIMEOUT'
            print('==', n, 'test', t, '%.0fs' % (time.time() - t0))
            L = so.split('\n')
            for i, l in enumerate(L):
                if l.startswith('    ') or 'Trace' in l or 'Error' in l or 'BROKEN' in l or l == 'TIMEOUT':
                    print(l[:300])
        sys.stdout.flush()
    subprocess.run(['rm', '-rf', '/tmp/benignwork'])


if __name__ == '__main__':
    main()
