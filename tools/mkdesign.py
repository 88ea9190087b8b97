#!/usr/bin/env python3
# Generates DESIGN.md: introduction, one section per property (prose below, the
# units and bounds from the harness), planted bugs, findings, open cases.
import glob,json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}  # id -> (oracle, why it reaches what tests cannot, quick seconds)
exec(open(os.path.join(V,"tools","design_prose.py")).read())
out=[open(os.path.join(V,"tools","design_intro.md")).read()]
out.append("\n## Properties\n\nEach quick check is one run of all units of its harness package; 'cost' is its wall time on the 8 idle cores of this sandbox. Thorough runs use the larger bounds given in brackets under the same step and time limits.\n")
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
man=json.load(open(os.path.join(V,"MANIFEST.json")))
na={n["property"]:n["reason"] for n in man["not_applicable"]}
for d in props:
    i=d["id"]
    out.append("\n### %s %s\n\n"%(i,d["title"]))
    if i in na:
        out.append("Not applicable: %s\n"%na[i]); continue
    o,w,c=P[i]
    out.append("*Decided against:* %s\n\n*Beyond the tests:* %s\n\n*Cost:* about %s s quick.\n\n"%(o,w,c))
    for f in sorted(glob.glob(os.path.join(V,"harness",i.lower(),"*.go"))):
        for m in re.finditer(r"// (U_\w+): ([^\n]*)\n//\n(?:// unit:[^\n]*\n)?(?:// bounds: ([^\n]*)\n)?",open(f).read()):
            out.append("- `%s` (%s) %s\n"%(m[1],m[2].rstrip("."),m[3] or ""))
out.append("\n## Planted bugs\n\nEach was confirmed in a scratch copy (applies, builds, 136 stable tests pass, demo passes without and fails with it) and then given to the property's quick check. All of them are caught; 'first missed' marks those that led to a stronger harness.\n\n| bug | property | what it breaks | needs | check |\n|---|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(V,"seeded","*","meta.json"))):
    n=f.split("/")[-2]; m=json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |\n"%(n,m["property"],m["what_it_breaks"].replace("|","\\|"),m["needs"].replace("|","\\|"),MISSED.get(n,"caught")))
out.append(TAIL)
open(os.path.join(V,"DESIGN.md"),"w").write("".join(out))
