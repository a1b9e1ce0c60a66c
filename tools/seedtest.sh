#!/bin/bash
# seedtest.sh [-c] ID... : confirm planted changes in scratch copies of /repo and /verif
# (bind-mounted over the real paths in a mount namespace of their own; the real trees stay as they are).
# Prints one line per change: demo on the clean tree, build, stable tests, demo with the change, check.
# -c: only the check.
only=0; [ "$1" = -c ] && { only=1; shift; }
one() {
  id=$1; w=$(mktemp -d /tmp/seed.XXXXXX); d=/verif/seeded/$id
  mkdir $w/demo; cp -a $d/. $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  cp -a /repo $w/repo; mkdir $w/verif; (cd /verif && tar cf - --exclude=./seeded --exclude=./.git .) | tar xf - -C $w/verif
  cp $d/patch.diff $w/patch.diff; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  unshare -m bash -c '
    w=$1; prop=$2; id=$3; only=$4
    mount --bind $w/repo /repo && mount --bind $w/verif /verif || exit 9
    cd /repo; r="$id $prop:"
    if [ $only = 0 ]; then
      timeout 300 bash $w/demo/demo.sh >$w/demo0.out 2>&1; r="$r demo0=$?"
      git apply $w/patch.diff || { echo "$r NOAPPLY"; exit; }
      bash /opt/vp/build.sh >$w/build.out 2>&1; r="$r build=$?"
      bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1; r="$r tests=[$(python3 /verif/tools/testok.py $w/t.json | tail -1)]"
      timeout 300 bash $w/demo/demo.sh >$w/demo1.out 2>&1; r="$r demo1=$? ($(tail -1 $w/demo1.out | cut -c1-80))"
    else git apply $w/patch.diff || { echo "$r NOAPPLY"; exit; }; fi
    cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check $prop >$w/check.out 2>&1; rc=$?
    r="$r check=$rc $(( $(date +%s)-s ))s $(grep -a -A1 "^MESSAGE" $w/check.out | tail -1 | cut -c1-110)"
    echo "$r"
    cp $w/check.out /tmp/seed.$id.check; cp $w/demo1.out /tmp/seed.$id.demo1 2>/dev/null; cp $w/demo0.out /tmp/seed.$id.demo0 2>/dev/null
  ' x $w $prop $id $only
  rm -rf "$w"
}
for i in "$@"; do one $i; done
