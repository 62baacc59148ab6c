"""mkseed.seed(id, prop, edits, pkg, demo, needs, breaks): write /verif/seeded/<id>."""
import json, os, subprocess, tempfile, shutil
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; cwd: the repository
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
ov="$(mktemp --suffix=.json)"
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{%(extra)s\\"$PWD/%(dir)szz_seed_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$ov"
go test -vet=off -count=1 -timeout 200s -overlay "$ov" -run 'TestSeedDemo' ./%(pkg)s
'''
def seed(id, prop, edits, pkg, demo, needs, breaks, harness=False):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    files=sorted(set(f for f,_,_ in edits))
    t=tempfile.mkdtemp()
    for f in files:
        for s in 'ab':
            os.makedirs(os.path.dirname(f'{t}/{s}/{f}'),exist_ok=True)
            src=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True,check=True).stdout
            if s=='b':
                for g,old,new in edits:
                    if g==f:
                        assert src.count(old)==1,(id,f,src.count(old),old)
                        src=src.replace(old,new)
            open(f'{t}/{s}/{f}','w').write(src)
    p=subprocess.run(['git','diff','--no-index','a','b'],cwd=t,capture_output=True,text=True).stdout
    p=p.replace('a/a/','a/').replace('b/b/','b/')
    open(d+'/patch.diff','w').write(p)
    shutil.rmtree(t)
    open(d+'/demo_test.go','w').write(demo)
    extra=''
    if harness:
        shutil.copy('/verif/replay/common/harness_test.go',d+'/harness_test.go')
        extra='\\"$PWD/zz_seed_harness_test.go\\":\\"$here/harness_test.go\\",'
    open(d+'/demo.sh','w').write(DEMO%dict(extra=extra,pkg=pkg,dir=(pkg+'/' if pkg not in('','.') else '')))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
