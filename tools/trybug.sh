#!/bin/bash
# development tool: run the check(s) of planted bug(s) on a scratch copy:  trybug.sh ID [PROP...]
V=$(cd "$(dirname "$0")/.."; pwd); id=$1; shift
w=/tmp/bugw.$id; mkdir -p $w; git -C /repo archive HEAD | tar x -C $w
(cd $w && git init -q . && git apply $V/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; exit 2; }
p=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
for c in $p; do VERIF_REPO=$w $V/check.sh $c > $w/out.txt 2>&1; r=$?; echo "$id $c: exit $r $(grep -m1 -A0 '^VIOLATION' $w/out.txt)"; grep -m2 "failed obligation" $w/out.txt; done
[ -n "$KEEP" ] && cp $w/out.txt /tmp/out.$id.txt
case $w in /tmp/bugw.*) rm -r "$w";; esac
