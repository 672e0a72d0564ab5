#!/bin/bash
# seed.sh <id>: confirms a planted bug of /verif/seeded: it applies, builds, passes the stable tests, and its
# demonstration tells the two trees apart. The patch is applied to /repo and undone afterwards (the UI tests do
# not work in a copy).
# seed.sh <id> check <property>...: also runs these checks (or the one of its property) against it.
# SKIP=1: only run the checks.
set -u
ID="$1"; shift
D=/verif/seeded/$ID
cd /repo || exit 1
. /opt/vp/env.sh; export TERM=dumb NO_COLOR=1
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ -z "${SKIP:-}" ]; then
  bash "$D/demo.sh" > /tmp/seed.$ID.good 2>&1 || { echo "$ID: demo fails on the unchanged tree"; tail -5 /tmp/seed.$ID.good; exit 1; }
fi
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "${SKIP:-}" ]; then
  bash /opt/vp/build.sh > /tmp/seed.$ID.build 2>&1 || { echo "$ID: DOES NOT BUILD"; grep -A8 ^error /tmp/seed.$ID.build | head -20; exit 1; }
  bash /opt/vp/test.sh /tmp/seed.$ID.json > /dev/null 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.$ID.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
if m: print('$ID: EXISTING TESTS FAIL:', m[:8])
"
  if bash "$D/demo.sh" > /tmp/seed.$ID.bad 2>&1; then echo "$ID: demo passes with the bug"; else echo "$ID: demo ok: $(grep -v '^note' /tmp/seed.$ID.bad | tail -1 | cut -c1-200)"; fi
fi
if [ "${1:-}" = check ]; then
  shift
  [ $# -gt 0 ] || set -- "$prop"
  for p in "$@"; do
    out=$(cd /verif && ./check.sh "$p" 2>&1); rc=$?
    echo "$ID: check $p exit $rc: $(echo "$out" | grep VIOLATION | head -1)"
  done
fi
