#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every property that has a harness is claimed."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set()
for f in glob.glob(root+'/harness/h/*.go'):
    have|=set(re.findall(r'^func HT?_(C\d+)_',open(f).read(),re.M))
NA={}
NOTE={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i not in have: na.append(dict(property=i,reason="no check built yet")); continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} thorough",
      technique="symbolic execution of the Go SSA of /repo with SMT (z3) deciding every branch and assertion; counterexamples replayed natively",
      level="model_checking",
      level_note=NOTE.get(i,"Bounded: the solver decides the property for every value of the symbolic inputs within the sizes stated in DESIGN.md; trusts the SSA executor's Go semantics (spot-checked by replaying path models natively) and its models of reflect, os files and fmt.")))
json.dump(dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the harnesses use the public API, files and internal packages through a module with a replace directive."),open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed",len(na),"not")
