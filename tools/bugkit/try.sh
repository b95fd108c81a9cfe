#!/bin/bash
# try.sh ID [CHECK...]: builds, tests and demonstrates planted bug ID in a scratch copy and runs CHECKs on it.
# NOTEST=1 skips the stable tests.
id=$1; shift
s=/tmp/scratch
(
flock 9
git -C $s/repo checkout -q -- . ; git -C $s/repo fetch -q /repo HEAD && git -C $s/repo checkout -q FETCH_HEAD
mkdir -p $s/verif
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude replays /verif/ $s/verif/
rm -rf $s/demo; cp -r /verif/seeded/$id $s/demo; rm -f $s/demo/patch.diff $s/demo/meta.json
git -C $s/repo apply /verif/seeded/$id/patch.diff || exit 9
unshare -Urm bash -c '
id='$id'; s=/tmp/scratch
mount --bind $s/repo /repo; mount --bind $s/verif /verif
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >$s/build.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 $s/build.log; }
  bash /opt/vp/test.sh $s/res.json >$s/test.log 2>&1
  python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$s/res.json"))
bp=b["stable"]
rp=set(r.get("passed",[]))
miss=[t for t in bp if t not in rp]
print("'$id' tests: baseline",len(bp),"missing",len(miss),miss[:5])
P
fi
(cd /repo && bash $s/demo/demo.sh >$s/demo.log 2>&1; echo "$id demo with patch: rc $?"; tail -3 $s/demo.log)
cd /verif
for c in "$@"; do VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./run.sh check $c >$s/check.$c.log 2>&1; echo "$id check $c: rc $? $(grep -m1 VIOLATION $s/check.$c.log)"; done
' _ "$@"
git -C $s/repo checkout -q -- .
) 9>/tmp/scratch/lock
