#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl, the harnesses present and the reasons below"""
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=set()
for f in glob.glob(V+'/harness/h/c*.go'):
    have|=set(re.findall(r'^func (C\d\d)_\w+\(\)',open(f).read(),re.M))
NA={}
if os.path.exists(V+'/tools/na.json'): NA=json.load(open(V+'/tools/na.json'))
NOTE=("Symbolic execution of the Go SSA of /repo's current source over every path of the listed harness choices (levels, parties, key subsets, map orders, digit shapes); "
 "ring coefficients, secrets, noise and messages are symbolic. Ring identities are decided by normal form of polynomials over the symbolic ring elements (exact), noise/size bounds and residue equations by z3 "
 "(every final verdict is an SMT query, unsat = holds for all values). Bounds: N=16, the listed parameter shapes, the listed choices. Trusted: lattigo v2.3.0 ring/rlwe primitives as contracts (DESIGN.md), "
 "Go SSA construction, z3. A counterexample is replayed natively on the real code before it is reported.")
EXTRA=json.load(open(V+'/tools/notes.json')) if os.path.exists(V+'/tools/notes.json') else {}
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in have and i not in NA:
        m['checks'].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":"symbolic execution of the Go SSA of the real code, SMT (z3) verdict per obligation, native replay of counterexamples",
          "level":"model_checking","level_note":NOTE+(" "+EXTRA[i] if i in EXTRA else "")})
    else:
        m['not_applicable'].append({"property":i,"reason":NA.get(i,"check not built yet")})
m["notes"]="Engine: /verif/symgo (symbolic interpreter over golang.org/x/tools/go/ssa); harnesses: /verif/harness/h; contracts and bounds: DESIGN.md."
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks',[x['property'] for x in m['not_applicable']])
