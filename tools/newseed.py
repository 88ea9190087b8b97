#!/usr/bin/env python3
# newseed.py NAME PROPERTY 'needs' 'breaks' 'file:old=>new' ... < demo_test.go body
import sys,os,json,subprocess
name,prop,needs,breaks=sys.argv[1:5]
S='/verif/seeded/'+name
os.makedirs(S,exist_ok=True)
import tempfile
w=tempfile.mkdtemp(prefix='seedw')
subprocess.check_call('git -C /repo archive HEAD | tar x -C '+w+' && cd '+w+' && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x',shell=True)
for e in sys.argv[5:]:
    f,r=e.split(':',1); old,new=r.split('=>',1)
    old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
    p=w+'/'+f; s=open(p).read()
    assert s.count(old)==1,(f,old,s.count(old))
    open(p,'w').write(s.replace(old,new))
d=subprocess.check_output(['git','-C',w,'diff'],text=True)
open(S+'/patch.diff','w').write(d); assert d
subprocess.check_call(['rm','-rf',w])
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(S+'/meta.json','w'),indent=1)
b=sys.stdin.read()
open(S+'/demo_test.go.txt','w').write(b)
open(S+'/demo.sh','w').write('''#!/bin/bash
# Runs the demonstration as a test of the module in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
O="$(mktemp -d)"; trap 'rm -rf "$O"' EXIT
cp "$D/demo_test.go.txt" "$O/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$O/demo_test.go\\"}}" > "$O/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GODEBUG=randautoseed=0
go test@RACE -overlay "$O/o.json" -run '^TestDemo$' -count=1 -vet=off -timeout 120s .
'''.replace('@RACE',' -race' if os.environ.get('RACE') else '').replace('export GOTOOL','export CGO_ENABLED=1 GOTOOL' if os.environ.get('RACE') else 'export GOTOOL'))
os.chmod(S+'/demo.sh',0o755)
sys.exit(subprocess.call(['/verif/tools/seed.sh',name]))
