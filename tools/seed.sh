#!/bin/bash
# seed.sh ID [PROP...]: turns the uncommitted change in /tmp/seedrepo (a copy
# of /repo) into seeded/ID/patch.diff, confirms that it builds, passes the
# tests and makes demo.sh fail, that demo.sh passes without it, and runs the
# named checks against it.  seed.sh -r ID [PROP...]: re-run a kept one.
if [ "$1" = -r ]; then R=1; shift; fi
ID=$1; shift; D=/verif/seeded/$ID
export ID D R; PROPS="$*"; export PROPS
unshare -Urm bash -c '
mount --bind /tmp/seedrepo /repo; cd /repo
git config --global --add safe.directory /repo 2>/dev/null
if [ -n "$R" ]; then git checkout -q -- . ; git apply $D/patch.diff || exit 9; else git diff > $D/patch.diff; fi
[ -s $D/patch.diff ] || { echo EMPTY; exit 9; }
bash /opt/vp/build.sh > /tmp/seed.b 2>&1 || { echo BUILD FAILED; grep -m3 -A3 error: /tmp/seed.b; exit 9; }
if [ -z "$R" ]; then
bash /opt/vp/test.sh /tmp/seed.o >/dev/null 2>&1
python3 -c "
import json;d=json.load(open(\"/tmp/seed.o\"));b=json.load(open(\"/opt/vp/BASELINE.json\"));print(\"tests missing\",set(b[\"stable\"])-set(d[\"passed\"]))"
fi
cp -r $D /tmp/seeddemo; rm -f /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json
bash /tmp/seeddemo/demo.sh > /tmp/seed.d 2>&1; echo "demo with: $?"; tail -2 /tmp/seed.d | cut -c1-200
for p in $PROPS; do python3 /verif/checks/$p.py > /tmp/seed.c 2>&1; echo "check $p: exit $?"; grep -A4 -m1 VIOLATION /tmp/seed.c | cut -c1-300; tail -1 /tmp/seed.c; done
git checkout -q -- . ; bash /opt/vp/build.sh > /tmp/seed.b 2>&1
bash /tmp/seeddemo/demo.sh > /tmp/seed.d 2>&1; echo "demo without: $?"; tail -2 /tmp/seed.d | cut -c1-200
rm -rf /tmp/seeddemo
git status --short | head -5
'
