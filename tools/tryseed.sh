#!/bin/bash
# tryseed.sh <id> [prop...]: runs the check(s) of a planted bug against a scratch copy of /repo with the change applied.
. /opt/vp/env.sh
base="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift; d=$base/seeded/$id
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/seedwork
[ -d $w/.git ] || git clone -q /repo $w
git -C $w fetch -q /repo && git -C $w reset -q --hard FETCH_HEAD && git -C $w apply "$d/patch.diff" || exit 2
trap 'git -C /tmp/seedwork checkout -q -- .' EXIT
for p in $props; do
 s=$(date +%s); $base/bin/engine -verif $base -repo $w -property $p >/tmp/seedcheck.log 2>&1; rc=$?
 if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seedcheck.log; then echo "$id: $p CAUGHT ($(($(date +%s)-s)) s): $(grep -m1 'assertion fails\|panic' /tmp/seedcheck.log | cut -c1-150)"; else echo "$id: $p MISSED rc=$rc ($(($(date +%s)-s)) s)"; tail -3 /tmp/seedcheck.log; fi
done
