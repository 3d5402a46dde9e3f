#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single source of the property texts)."""
import json, os
I='include/altruct/'; X='experimental/include/altruct/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,title)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or ["public API return values"],hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(__file__),'props_text.py')).read())
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),'properties')
