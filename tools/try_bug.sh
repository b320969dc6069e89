#!/bin/bash
# Try planted bugs in private mount namespaces (development only):
#   tools/try_bug.sh [-t] ID...   (-t: also the stable tests)
# Prints whether the demo tells the trees apart, whether the tests pass and whether the check catches it.
T=0; [ "$1" = -t ] && { T=1; shift; }
for id in "$@"; do
  S=/tmp/try.$id; mkdir -p $S/repo $S/verif $S/demo $S/vp
  cp -a /repo/. $S/repo; cp -a /verif/. $S/verif; cp -a /opt/vp/. $S/vp; cp -a /verif/seeded/$id/. $S/demo; rm -f $S/demo/patch.diff $S/demo/meta.json
  ID=$id T=$T S=$S unshare -m bash -c '
    mount --bind $S/repo /repo; mount --bind $S/verif /verif; mount --bind $S/vp /opt/vp; cd /repo
    P=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$ID/meta.json\"))[\"property\"])")
    timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; d0=$?
    git apply /verif/seeded/$ID/patch.diff || echo "$ID: does not apply"
    bash /opt/vp/build.sh >$S/b 2>&1; b=$?
    timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; d1=$?
    t=-
    if [ $T = 1 ]; then bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1; t=$(python3 /verif/tools/stable.py $S/t.json); fi
    cd /verif; s=$(date +%s); timeout 900 ./check.sh $P --tier quick >$S/c 2>&1; c=$?
    echo "$ID ($P): demo clean=$d0 patched=$d1 build=$b tests=$t check=$c $(grep -c ^VIOLATION $S/c) violations $(( $(date +%s)-s ))s"
    [ $d0 = 0 ] || tail -5 $S/d0
    grep -m2 -A1 "^VIOLATION" $S/c | grep "  unit"; grep -m2 "^INCOMPLETE\|^ERROR\|^UNREP" $S/c
  '
  rm -rf "/tmp/try.$id"
done
