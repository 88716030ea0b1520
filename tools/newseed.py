#!/usr/bin/env python3
"""newseed.py ID PROP: makes seeded/ID/patch.diff from the edits in /tmp/wt (a scratch clone of /repo), then resets it.
NEEDS and BREAKS come from the environment; demo.c is read from stdin and demo.sh is written."""
import json, os, subprocess, sys
i, p = sys.argv[1:3]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/tmp/wt', 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no edits'
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/tmp/wt', 'checkout', '-q', '--', '.'])
json.dump({'property': p, 'needs': os.environ['NEEDS'], 'what_it_breaks': os.environ['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
src = sys.stdin.read()
open(d + '/demo.c', 'w').write(src)
flags = os.environ.get('FLAGS', '-O1 -g')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd at the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 1
gcc %s -I. "$here/demo.c" -o "$out/demo" || { rm -rf "${out:?}"; exit 1; }
timeout 200 "$out/demo"; rc=$?
rm -rf "${out:?}"
exit $rc
''' % flags)
