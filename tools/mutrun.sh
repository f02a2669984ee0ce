#!/bin/bash
# mutrun.sh PATCH CHECK...: runs checks against a scratch copy of /repo with PATCH applied
# (development aid; the design models, which do not depend on /repo, are skipped).
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" && git apply "$p" || { echo "$(basename $p) patch does not apply"; rm -rf "$d"; exit 9; }
. /opt/vp/env.sh
go build ./... 2>"$d/err" || { echo "$(basename $p) does not build: $(head -3 $d/err)"; rm -rf "$d"; exit 9; }
cp -a /verif "$d/verif" ; rm -rf "$d/verif/out" "$d/verif/.git"
for c in "$@"; do
  (cd "$d/verif" && VERIF_DEV_SKIPMODEL=1 VERIF_REPO="$d/repo" python3 tools/check.py $c > "$d/log.$c" 2>&1; rc=$?
   echo "$(basename $p) $c rc=$rc $(tail -1 $d/log.$c | grep -o 'held\|VIOLATION') $(grep -m1 'VIOLATION in' $d/log.$c | sed 's/.*]: //' | cut -c1-150) $(grep -m1 -A3 'CHECK-ERROR' $d/log.$c | cut -c1-400)")
done
rm -rf "$d"
