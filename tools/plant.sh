#!/bin/bash
# plant.sh confirm ID      build, tests and demonstration with and without the change
# plant.sh catch ID PROP.. runs checks against the change
# Both work on copies that are mounted over /repo and /verif in a namespace of their own.
mode=$1; id=$2; shift 2
P=${PLANT_DIR:-/tmp/plant}
mkdir -p $P/verif $P/target
if [ ! -d $P/repo ]; then cp -a /repo $P/repo; fi
(
flock 9
git -C $P/repo fetch -q /repo HEAD && git -C $P/repo reset -q --hard FETCH_HEAD
if [ $mode = catch ]; then
    # The committed state of /verif.
    [ -d $P/verif/.git ] || git -C $P/verif init -q
    git -C $P/verif fetch -q /verif HEAD && git -C $P/verif reset -q --hard FETCH_HEAD
    mkdir -p $P/verif/target
fi
export mode id P
unshare -Urm bash -c '
mount --bind $P/repo /repo
dir=$1; shift
if [ $mode = confirm ]; then
    cd /repo
    git apply --check $dir/patch.diff || exit 1
    for pass in clean patched; do
        [ $pass = patched ] && git apply $dir/patch.diff
        bash /opt/vp/build.sh > $P/build.log 2>&1 || { echo "$id: $pass does not build"; grep -E "^error" -A8 $P/build.log | head -40; git checkout -q .; exit 1; }
        if [ $pass = patched ]; then
            bash /opt/vp/test.sh $P/out.json > $P/test.log 2>&1
            python3 - $P/out.json <<"X"
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open(sys.argv[1]))
ok=set(o.get("passed", []))
bad=[t for t in b if t not in ok]
print("  tests:", "all pass" if not bad else "FAIL %s" % bad)
X
        fi
        t=$(date +%s); bash $dir/demo.sh > $P/demo-$pass.log 2>&1; rc=$?
        echo "$id: demo $pass: rc $rc ($(( $(date +%s) - t )) s) $(tail -n1 $P/demo-$pass.log | cut -c1-200)"
    done
    git checkout -q .
else
    mount --bind $P/verif /verif
    cd /repo && git apply $dir/patch.diff || exit 1
    cd /verif
    for p in "$@"; do
        t=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 check.py $p > $P/check-$p.log 2>&1; rc=$?
        echo "$id: check $p rc $rc ($(( $(date +%s) - t )) s) $(grep -B1 -a VIOLATION $P/check-$p.log | head -1 | cut -c1-300)"
    done
    cd /repo && git checkout -q .
fi
' x "/verif/seeded/$id" "$@"
) 9>$P/lock
