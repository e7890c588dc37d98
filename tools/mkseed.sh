#!/bin/bash
# mkseed.sh <id>: with the change already made in the scratch copy /tmp/seedwork, stores it as seeded/<id>/patch.diff and
# confirms it: builds, stable tests pass, demo passes without and fails with the change. Then runs the property's check.
. /opt/vp/env.sh
base="$(cd "$(dirname "$0")/.." && pwd)"; id="$1"; d=$base/seeded/$id; mkdir -p "$d"
cd /tmp/seedwork || exit 2
if [ -n "$(git diff)" ]; then git diff > "$d/patch.diff"; git checkout -q -- .; fi
cat > "$d/demo.sh" <<'E'
#!/bin/bash
# Runs the test beside this file as part of the package it is written for.
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
pkg="$(cat "$d/pkg")"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/%s/zz_demo_test.go": "%s/demo_test.go"}}\n' "$(pwd)" "$pkg" "$d" > "$t/overlay.json"
go test -count=1 -vet=off -overlay "$t/overlay.json" -run '^TestDemo' "./$pkg"
E
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /tmp/seedwork reset -q --hard
( cd /tmp/seedwork && bash "$d/demo.sh" >/tmp/demo0.log 2>&1 ); r0=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: build fails"; git checkout -q -- .; exit 1; }
tests=$(go test ./... 2>&1 | grep -c "^--- FAIL\|^FAIL")
( bash "$d/demo.sh" >/tmp/demo1.log 2>&1 ); r1=$?
git checkout -q -- .
echo "$id ($prop): demo clean=$r0 patched=$r1 failing-tests=$tests"
[ $r0 = 0 ] || tail -20 /tmp/demo0.log
[ $r1 != 0 ] || tail -20 /tmp/demo1.log
[ "$2" = nocheck ] && exit
bash $base/tools/tryseed.sh "$id"
