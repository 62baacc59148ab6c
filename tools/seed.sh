#!/bin/bash
# usage: seed.sh NAME — validates /verif/seeded/NAME in a scratch copy of /repo
# and runs the property's check against the patched copy.
id="$1"; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/seed.$id
rm -rf "$w"; cp -a /repo "$w"; (cd "$w" && git checkout -q -- . && git clean -fdq)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
demo=$(mktemp -d); cp -r $d/. $demo; rm -f $demo/*.diff $demo/meta.json
(cd "$w" && timeout 300 bash $demo/demo.sh) >/tmp/seed.$id.base 2>&1 || { echo "$id: DEMO FAILS ON BASE"; tail -5 /tmp/seed.$id.base; }
(cd "$w" && git apply $d/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; }
(cd "$w" && go build ./... && go vet -vettool=/bin/true ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v "no test files") >/tmp/seed.$id.test 2>&1
grep -q FAIL /tmp/seed.$id.test && { echo "$id: TESTS FAIL"; tail -5 /tmp/seed.$id.test; }
(cd "$w" && timeout 300 bash $demo/demo.sh) >/tmp/seed.$id.demo 2>&1 && echo "$id: DEMO PASSES WITH PATCH"
if [ -z "$2" ]; then
(cd /verif/gover && go build -o /tmp/gover.$id .)
t0=$(date +%s)
/tmp/gover.$id -repo "$w" -verif /verif -prop $prop >/tmp/seed.$id.out 2>&1
echo "$id: $(grep -a VIOLATION /tmp/seed.$id.out || echo MISSED $(tail -1 /tmp/seed.$id.out)) ($(( $(date +%s)-t0 )) s)"
rm -f /tmp/gover.$id
fi
rm -rf "$w" "$demo"
