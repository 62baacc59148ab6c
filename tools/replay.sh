#!/bin/bash
# replay.sh PROP [repo]: runs a property's executable contracts by hand
repo="${2:-/repo}"; d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
python3 - "$1" "$repo" "$d/o.json" > "$d/pkgs" <<'P'
import sys,glob,json,os
prop,repo,out=sys.argv[1:]
ov={};pk=set()
for i,f in enumerate(sorted(glob.glob(f'/verif/replay/{prop}/*_test.go'))):
    pkg=open(f).readline().replace('//pkg:','').strip()
    pk.add(pkg); ov[os.path.normpath(f'{repo}/{pkg}/zz_verif{i}_test.go')]=f
    if pkg=='.': ov[f'{repo}/zz_verif_harness_test.go']='/verif/replay/common/harness_test.go'
json.dump({"Replace":ov},open(out,'w'))
print(' '.join('./'+p for p in pk))
P
cd "$repo" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod timeout 300 go test $TF -tags nosqlite -overlay "$d/o.json" -run TestVerif -count=1 -timeout 240s $(cat "$d/pkgs")
