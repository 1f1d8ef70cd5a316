#!/usr/bin/env python3
"""gen_design.py [EVIDENCE_DIR]: writes DESIGN.md from the parts below, tools/techniques.json, properties.jsonl,
known_findings.json, seeded/*/meta.json and the rule texts and instance counts of the last evidence."""
import json,glob,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV=sys.argv[1] if len(sys.argv)>1 else V+'/evidence'
T=json.load(open(V+'/tools/techniques.json')); K=json.load(open(V+'/known_findings.json'))['findings']
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
SC=json.load(open(V+'/tools/scope.json'))
out=[open(V+'/tools/design_head.md').read().rstrip()+'\n']
w=out.append
w('## Properties\n\nFor each: how it is decided, the rules with the number of obligations on the current tree, and what the check assumes or leaves out.\n')
for p in P:
    i=p['id']; t=T.get(i,{})
    if 'technique' not in t: continue
    w('### %s %s\n'%(i,p['title']))
    w('*Method.* %s. *Bounds.* %s'%(t['technique'],t['note']))
    try:
        e=json.load(open('%s/%s.json'%(EV,i))); c=e['coverage']
        ex=c['explanation'].split('Rules: ',1)[1]
        n=c['obligations_by_rule']
        w('*Rules* (%d obligations over %d functions, %.0f s):'%(c['obligations'] if isinstance(c.get('obligations'),int) else sum(n.values()),c['functions_analysed'],max(1,e['wall_s'])))
        for r in ex.split(' || '):
            a,b=r.split(': ',1)
            w('- `%s` (%s): %s'%(a,n.get(a,0),b))
    except Exception as x:
        w('(no evidence: %s)'%x)
    for s in SC.get(i,[]): w('*Left out.* '+s)
    kf=[k for k in K if k['property']==i]
    for k in kf:
        if k['status']=='known': w('*Known finding* `%s`: %s'%(k['key'],k['what']))
    f=[k for k in kf if k['status']=='fixed']
    if f: w('*Repaired defects:* '+'; '.join('%s (%s)'%(k['what'],k['commit']) for k in f))
    w('')
w('## Not applicable\n')
for p in P:
    t=T.get(p['id'],{})
    if 'technique' not in t: w('- **%s %s**: %s'%(p['id'],p['title'],t.get('not_applicable','')))
w('\n## Planted changes\n\nEach was written from the property and the code, compiles, passes the stable tests and has a demonstration. All are caught by the check of their property; the rule that reports it is named.\n')
w('| change | property | needs | caught by |\n|---|---|---|---|')
C=json.load(open(V+'/tools/caught.json'))
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    w('| %s | %s | %s | %s |'%(n,m['property'],m['needs'],C.get(n,'')))
w('\n'+open(V+'/tools/design_tail.md').read().rstrip())
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
