#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, harness/checks.txt and the notes below."""
import json, re
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
claimed={}
cur=None
for l in open(V+'harness/checks.txt'):
    l=l.rstrip('\n')
    if l.startswith('prop '): cur=l[5:].strip(); claimed[cur]={'bounds':'','assume':'','n':0}
    elif l.startswith('bounds '): claimed[cur]['bounds']+=l[7:]+' '
    elif l.startswith('assume '): claimed[cur]['assume']+=l[7:]+'; '
    elif l.startswith('h '): claimed[cur]['n']+=1
NA={}
exec(open(V+'tools/notes.py').read())
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in claimed and claimed[i]['n']:
        c=claimed[i]
        checks.append({'property':i,'quick_cmd':f'./run.sh {i} quick','thorough_cmd':f'./run.sh {i} thorough',
          'technique':'solver-based: symbolic execution of the go/ssa form of the real code, branch feasibility and assertions decided by z3 (SMT-LIB2 bit-vectors), counterexamples replayed natively',
          'level':'model_checking',
          'level_note':'Bounded: holds for every value of the symbolic inputs within: '+c['bounds'].strip()+'. Nothing is claimed outside. Trusted: the SSA interpreter in /verif/engine (sampled paths are replayed on the compiled code and compared), z3, the library models in harness/zz'+('; '+c['assume'].strip('; ') if c['assume'] else '')+'.'})
    else:
        na.append({'property':i,'reason':NA.get(i,'not built yet')})
json.dump({'version':1,'setup_cmd':'./run.sh setup','checks':checks,'not_applicable':na},open(V+'MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
