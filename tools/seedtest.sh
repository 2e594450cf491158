#!/bin/bash
# tools/seedtest.sh ID [PROP...]: apply seeded/ID to /repo, build, run the tests and the demo, run the checks, undo.
set -u
ID=$1; shift
D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
cd /repo
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/w/demo.base 2>&1 && echo "demo base: ok" || { echo "demo base: FAIL"; tail -5 /tmp/w/demo.base; }
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh 2>&1 | tail -2
bash $D/demo.sh >/tmp/w/demo.bug 2>&1 && echo "demo bug: NOT DETECTED" || echo "demo bug: fails as wanted"
if [ -z "${NOTEST:-}" ]; then bash /opt/vp/test.sh /tmp/w/seed.json >/dev/null 2>&1; python3 /tmp/w/cmp.py /tmp/w/seed.json; fi
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
for p in $P; do (cd /verif; python3 check.py $p > /tmp/w/seed.$p.out 2>&1; echo "check $p exit $?"; grep -m3 VIOLATION /tmp/w/seed.$p.out); done
