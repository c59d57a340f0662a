#!/bin/bash
# trybug.sh SEEDED_DIR [--notest] [--checks "C01 C02"]
# Confirms a planted bug in a private copy of /repo (bind-mounted over /repo in
# a mount namespace of its own): the demo passes before, the stable tests pass
# with the patch, the demo fails with it; then runs the given checks.
# WG_BASE, WG_VERIF: clones to use instead of /repo's HEAD and /verif.
D=$(realpath "$1"); shift; NOTEST=; CHECKS=
while [ $# -gt 0 ]; do case $1 in --notest) NOTEST=1;; --checks) shift; CHECKS=$1;; esac; shift; done
S=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo "$S/repo"; [ -n "$WG_BASE" ] && git -C "$S/repo" fetch -q "$WG_BASE" HEAD && git -C "$S/repo" reset -q --hard FETCH_HEAD; mkdir "$S/demo"; cp -a "$D/." "$S/demo/"; rm -f "$S"/demo/*.diff "$S"/demo/meta.json
[ -n "$CHECKS" ] && { mkdir "$S/verif"; cp -a ${WG_VERIF:-/verif}/. "$S/verif/"; rm -rf "$S/verif/seeded"; }
export D S NOTEST CHECKS
unshare -Urmi bash -c '
mount --bind $S/repo /repo || exit 9
cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh >$S/b0.log 2>&1 || { echo "base build failed"; exit 9; }
cd /repo && timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1; r0=$?
git apply $D/patch.diff || { echo "APPLY FAILED"; exit 9; }
bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo "BUILD FAILED"; tail -5 $S/b1.log; exit 9; }
cd /repo && timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1; r1=$?
t="not run"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $S/out.json >$S/t.log 2>&1; t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; p=set(json.load(open(\"$S/out.json\"))[\"passed\"])
print(\"ok\" if set(b)<=p else \"MISSING \"+str(sorted(set(b)-p)))"); fi
echo "$(basename $D): demo base=$r0 patched=$r1 tests: $t"
[ $r0 = 0 ] || tail -5 $S/d0.log
[ $r1 != 0 ] && tail -2 $S/d1.log | sed "s/^/   demo: /"
if [ -n "$CHECKS" ]; then mount --bind $S/verif /verif && cd /verif && for c in $CHECKS; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c quick 2>&1 | grep -v "^shrink" | cut -c1-220 | sed "s/^/   /" | tail -3; done; fi
'
rm -rf "$S"
