#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,note,state=None,observe=None,claimed=True,reason=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append((dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a),note,claimed,reason))

exec(open('/verif/tools/propdata.py').read())

P.sort(key=lambda p:p[0]["id"])
with open('/verif/properties.jsonl','w') as f:
    for p,_,_,_ in P: f.write(json.dumps(p)+"\n")
T="contract-based deductive verification: contracts (pre/postconditions, object and loop invariants, frames) on the real functions, verification conditions generated from go/ssa of /repo's current source by /verif/gover and discharged by z3/cvc5"
man=dict(version=1,setup_cmd="cd /verif/gover && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o /dev/null .",
 hooks=dict(guard="none",enable="no hooks: the verifier reads the unmodified source",source_commits=[]),
 checks=[dict(property=p["id"],quick_cmd=f"bash /verif/check.sh {p['id']} quick",thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",technique=T,level="proof",level_note=n) for p,n,c,_ in P if c],
 not_applicable=[dict(property=p["id"],reason=r) for p,_,c,r in P if not c])
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
