#!/usr/bin/env python3
"""nums.py: refresh the "Quick tier" lines of DESIGN.md from the evidence of the last quick runs."""
import json,re
p='/verif/DESIGN.md'; L=open(p).read().split('\n'); cur=None
for i,l in enumerate(L):
    m=re.match(r'### (C\d+) ',l)
    if m: cur=m.group(1)
    m=re.match(r'(\*Quick tier\*: about \S+ s); (.*)\.$',l)
    if m and cur:
        try: e=json.load(open(f'/verif/evidence/{cur}.json'))
        except OSError: continue
        if e.get('tier','quick')!='quick': continue
        cov=e.get('coverage',e)
        def val(k):
            v=cov.get(k,e.get(k))
            return v if isinstance(v,(int,str)) else None
        def sub(mm):
            v=val(mm.group(1)); return mm.group(1)+' '+(str(v) if v is not None else mm.group(2))
        L[i]=m.group(1)+'; '+re.sub(r'([a-z_0-9]+) (\d+)(?=, |$)',sub,m.group(2))+'.'
open(p,'w').write('\n'.join(L))
