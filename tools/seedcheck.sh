#!/bin/bash
# seedcheck.sh [id-prefix]: run the check of each planted bug's property on a scratch copy with the bug
T=$(mktemp -d /tmp/seedcheck.XXXX)
one() {
  T=$1; d=$2; id=$(basename $d); c=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  git clone -q /repo $T/$id && git -C $T/$id apply $d/patch.diff || { echo "$id: patch"; return; }
  python3 /verif/run.py $c --root $T/$id --out $T/o.$id > $T/$id.txt 2>&1; rc=$?
  [ $rc = 1 ] && grep -q "VIOLATION property=$c" $T/$id.txt && echo "$id $c caught" || echo "$id $c NOT CAUGHT rc=$rc $(tail -1 $T/$id.txt)"
  rm -rf $T/$id $T/o.$id
}
export -f one
ls -d /verif/seeded/$1*/ | xargs -P 3 -I{} bash -c "one $T {}" | sort
rm -rf $T
