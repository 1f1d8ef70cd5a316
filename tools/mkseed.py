#!/usr/bin/env python3
"""mkseed.py SPEC...: writes /verif/seeded/<id>/ from a spec file (see the sections read below)."""
import sys,os,re,json,subprocess,tempfile,shutil
for spec in sys.argv[1:]:
    s=open(spec).read()
    head,rest=s.split('\nEDIT ',1)
    h=dict(re.match(r'(\w+): *(.*)',l).groups() for l in head.strip().splitlines())
    edits,test=rest.split('\nTEST\n',1)
    D='/verif/seeded/'+h['ID']; os.makedirs(D,exist_ok=True)
    tmp=tempfile.mkdtemp()
    out=''
    files={}
    for e in edits.split('\nEDIT '):
        path,body=e.split('\n',1)
        old,new=body.split('\n====\n') if '\n====\n' in body else (body.rstrip('\n=').rstrip('\n'),'')
        cur=files.get(path) or open('/repo/'+path).read()
        old=old.strip('\n'); new=new.strip('\n')
        assert cur.count(old)>=1,(spec,path,old)
        assert cur.count(old)==1,('ambiguous',spec,path,old)
        files[path]=cur.replace(old,new)
    for path,cur in files.items():
        for side,txt in (('a',open('/repo/'+path).read()),('b',cur)):
            p=os.path.join(tmp,side,path); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(txt)
    r=subprocess.run(['git','diff','--no-index','--no-color','--no-prefix','a','b'],cwd=tmp,capture_output=True,text=True).stdout
    open(D+'/patch.diff','w').write(r)
    open(D+'/demo_test.go.txt','w').write(test)
    pkg=h['PKG']
    open(D+'/demo.sh','w').write(f'''#!/bin/bash
# Runs demo_test.go.txt as an in-package test of ./{pkg} (cwd: the repository).
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
printf '{{"Replace": {{"%s/zz_seeded_demo_test.go": "%s/demo_test.go"}}}}' "$PWD/{pkg}" "$T" > "$T/overlay.json"
go test -count=1 -vet=off -timeout 120s {h.get('FLAGS','')} -overlay "$T/overlay.json" -run '^TestSeededDemo$' ./{pkg}
''')
    json.dump(dict(property=h['PROP'],needs=h['NEEDS'],what_it_breaks=h['BREAKS']),open(D+'/meta.json','w'),indent=1)
    shutil.rmtree(tmp)
    print(h['ID'],len(r.splitlines()),'patch lines')
