#!/bin/bash
# usage: tools/plant.sh ID   checks a planted bug in $V/seeded/ID the way it will count, in a scratch copy:
# applies, builds, passes the stable tests, demo ok/not ok, and runs the check of its property against it.
# tools/plant.sh --new ID : only refreshes the scratch copy /tmp/seed (edit it, then tools/plant.sh --diff ID)
S=/tmp/seed; V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}
sync_copy() {
    mkdir -p $S /tmp/seedvp
    rsync -rlpgoD --checksum --delete --exclude=_build --exclude=.git $R/ $S/ 2>/dev/null || { find $S -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; cp -a $(ls -d $R/* | grep -v /_build) $S/; }
    ( cd $S && { [ -d .git ] || git init -q .; } && { grep -qx _build .git/info/exclude || echo _build >> .git/info/exclude; } && git add -A && git -c user.name=x -c user.email=x commit -qm base; true )
    for f in build.sh test.sh run_tests.py results.py; do sed "s#/repo#$S#g; s#/opt/vp/#/tmp/seedvp/#g" /opt/vp/$f > /tmp/seedvp/$f; done
}
case $1 in
--new) sync_copy; exit;;
--diff) ( cd $S; git diff > $V/seeded/$2/patch.diff; git checkout -q -- . ); exit;;
esac
ID=$1; D=$V/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
sync_copy; cd $S || exit 9
bash /tmp/seedvp/build.sh > /tmp/seedvp/b.log 2>&1 || { echo "$ID: base does not build"; exit 9; }
bash $D/demo.sh > /tmp/seedvp/demo0.log 2>&1; d0=$?
git apply $D/patch.diff || { echo "$ID: does not apply"; exit 9; }
bash /tmp/seedvp/test.sh /tmp/seedvp/out.json > /tmp/seedvp/t.log 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/seedvp/out.json'))['passed'])
print(len([x for x in b if x not in o]))")
bash $D/demo.sh > /tmp/seedvp/demo1.log 2>&1; d1=$?
s=$(date +%s); if [ -z "$NOCHECK" ]; then VERIF_REPO=$S VERIF_BUILD=/tmp/seedbuild VERIF_SEED=${SEED:-1} $V/run.py $P ${TIER:-quick} --evidence /tmp/seedvp/ev.json --replay-dir /tmp/seedvp/replay > /tmp/seedvp/chk.log 2>&1; rc=$?; fi
v=$(grep -a -c "^VIOLATION property=$P" /tmp/seedvp/chk.log); e=$(date +%s)
git checkout -q -- . ; sleep 1; git ls-files -m -z >/dev/null
echo "$ID [$P]: stable tests lost $t, demo clean $d0 patched $d1, check rc=$rc violations=$v ($((e-s)) s)"
