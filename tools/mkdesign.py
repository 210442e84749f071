#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md + per-property table from properties.jsonl, MANIFEST.json and
tools/design_notes.json + tools/design_tail.md + planted bugs from seeded/*/meta.json (run by hand)."""
import json, os, glob, re
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
T=os.path.join(V,'tools')
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
man={c['property']:c for c in json.load(open(os.path.join(V,'MANIFEST.json')))['checks']}
notes=json.load(open(os.path.join(T,'design_notes.json')))
out=[open(os.path.join(T,'design_head.md')).read().rstrip(),'','## 4. Per property','']
fx={}
for l in open(os.path.join(V,'known_findings.txt')):
    m=re.match(r'(fixed|finding):\s+property=(\S+)\s+(.*)',l)
    if m: fx.setdefault(m.group(2),[]).append((m.group(1),m.group(3)))
res={}
p=os.path.join(T,'seed_results.json')
if os.path.exists(p): res=json.load(open(p))
for d in props:
    i=d['id']; c=man[i]; n=notes.get(i,{})
    out+=['### %s — %s'%(i,d['title']),'']
    out+=['*Level* `%s`. *Anchors* %s.'%(c['level'],'; '.join(m['name']+' ('+m['where']+')' for m in d['anchors']['mechanism'])),'']
    out+=['*Enumerated, and bound.* '+c['level_note'].replace('Exhaustive within the bound: ','').split('. Outside the bound nothing')[0]+'.','']
    for k in ('oracle','excluded','reach','cost'):
        if k in n: out+=['*%s.* %s'%({'oracle':'Oracle','excluded':'Deliberately not asserted','reach':'Why beyond tests','cost':'Cost'}[k],n[k]),'']
    if 'reach' not in n: out+=['*Why beyond tests.* '+d['why_tests_cant'][0].upper()+d['why_tests_cant'][1:]+'.','']
    if i in fx: out+=['*Defects found.* '+'; '.join(('%s (`%s`)'%(t.split(' ',1)[1],t.split(' ',1)[0]) if k=='fixed' else 'KNOWN: '+t) for k,t in fx[i])+'.','']
    s=[(os.path.basename(os.path.dirname(f)),json.load(open(f))) for f in sorted(glob.glob(os.path.join(V,'seeded','*','meta.json')))]
    s=[(a,b) for a,b in s if b['property']==i]
    if s: out+=['*Planted bugs.* '+'; '.join('`%s` (%s)'%(a,res.get(a,'not yet run')) for a,b in s)+'.','']
out+=[open(os.path.join(T,'design_tail.md')).read().rstrip(),'']
open(os.path.join(V,'DESIGN.md'),'w').write('\n'.join(out))
