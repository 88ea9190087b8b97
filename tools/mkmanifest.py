#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and the harness packages present.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na={
}
extra={}
p=os.path.join(V,"tools","notes.json")
if os.path.exists(p): extra=json.load(open(p))
checks=[];nots=[]
for l in open(os.path.join(V,"properties.jsonl")):
    d=json.loads(l);i=d["id"]
    if i in na: nots.append({"property":i,"reason":na[i]}); continue
    if not os.path.isdir(os.path.join(V,"harness",i.lower())):
        nots.append({"property":i,"reason":"no check built yet"}); continue
    checks.append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,
     "technique":"symbolic execution of the compiled Go SSA with SMT (z3), counterexamples replayed natively",
     "level":"model_checking",
     "level_note":"Bounded: every path of the real code within each unit's stated bounds (harness/%s, 'bounds:' lines; repeated in the evidence) is decided by the solver for all input values; nothing is claimed outside. Trusts go/ssa, the engine's instruction semantics (cross-checked by native replay of path models) and z3. %s"%(i.lower(),extra.get(i,""))})
json.dump({"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":nots,
 "notes":"No hooks in /repo are needed: harnesses use the public API of the packages and the engine loads /repo's current source."},open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(nots))
