#!/bin/bash
# seedtest.sh ID [PROP...] : confirms a planted bug (demo passes before, fails after; stable tests pass) and runs checks on it.
# Works on a scratch copy of /repo for the demo/tests; the checks run with VERIF_REPO on that copy.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/seedwork/$id
mkdir -p /tmp/seedwork
[ -d "$W" ] && rm -rf "/tmp/seedwork/${id:?}"
git clone -q /repo "$W" && cd "$W" || exit 1
git apply --check "$S/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
CF="-O3 -Wall -Wextra -Wshadow -Wuninitialized -Wcast-align -Wcast-qual -g"
rm -rf "/tmp/seedwork/demo_${id:?}"; cp -a "$S" /tmp/seedwork/demo_$id
timeout 300 bash /tmp/seedwork/demo_$id/demo.sh >/dev/null 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; exit 1; }
git apply "$S/patch.diff"
timeout 300 bash /tmp/seedwork/demo_$id/demo.sh >/tmp/seedwork/$id.log 2>&1 && { echo "$id: DEMO PASSES WITH BUG"; exit 1; }
make CC=gcc CFLAGS="$CF" all >/tmp/seedwork/$id.build 2>&1 || { echo "$id: BUILD FAILS"; exit 1; }
[ "$(timeout 120 ./tommycheck 2>&1 | tail -1)" = OK ] || { echo "$id: TESTS FAIL"; exit 1; }
echo "$id: bug confirmed"
cd /verif
for p in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  VERIF_REPO=$W timeout 900 python3 absint/check.py $p quick >/tmp/seedwork/$id.$p.out 2>&1; rc=$?
  echo "  $p: exit $rc $(grep -m1 VIOLATION /tmp/seedwork/$id.$p.out)"
done
rm -rf "/tmp/seedwork/${id:?}" "/tmp/seedwork/demo_${id:?}"
