#!/usr/bin/env python3
"""one-off: published series tables, as data, into refdata/ (the Earth series from the reference Fortran
source; nutation and CIO locator tables from the Rust source at the pinned commit, cross-checked by its tests
against SOFA output)"""
import re,json,os
R='/repo/crates/tofas/src/'; O=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'refdata')
s=open(R+'frames.rs').read()
def rows(s,name):
    b=s[s.index('const '+name):]; b=b[b.index('=')+1:]; b=b[:b.index('];')]
    return [[x.strip() for x in r.split(',') if x.strip()] for r in re.findall(r'\[([^\[\]]*)\]',b)]
nut=dict(arg=[[int(x) for x in r] for r in rows(s,'NALS')],coef=[[float(x) for x in r] for r in rows(s,'CLS')])
assert len(nut['arg'])==len(nut['coef'])==77
json.dump(nut,open(O+'/nut00b.json','w'))
s=open(R+'locator.rs').read()
def num(x):
    x=x.strip(); m=re.fullmatch(r'(-?[\d.]+)e(-?\d+)',x)
    return [m.group(1),int(m.group(2))] if m else [x,0]
c=dict(arg=[[[int(x) for x in r] for r in rows(s,'KS%d'%k)] for k in range(5)],coef=[[[num(x) for x in r] for r in rows(s,'SS%d'%k)] for k in range(5)])
assert [len(x) for x in c['arg']]==[33,3,25,4,1]==[len(x) for x in c['coef']]
json.dump(c,open(O+'/s00.json','w'))
f=open('/repo/fortran/epv00.for').read()
T={}
cnt={k:int(v) for k,v in re.findall(r'\b(N[ES][012][XYZ])\s*=\s*(\d+)',f)}
for m in re.finditer(r'DATA \(\(([ES][012])\(I,J,(\d)\),I=1,3\),J=\s*(\d+),\s*(\w+)\) /(.*?)/',f,re.S):
    n,k,a,b,body=m.groups(); k=int(k)-1; b=int(b) if b.isdigit() else cnt[b]
    v=re.findall(r'[+-]?\d\.\d+D[+-]\d+',body)
    assert len(v)==3*(b-int(a)+1)
    L=T.setdefault(n,[[],[],[]])[k]
    assert len(L)==int(a)-1
    for i in range(0,len(v),3): L.append([x.replace('D','e') for x in v[i:i+3]])
for n in T:
    for k in range(3): assert len(T[n][k])==cnt['N'+n+'XYZ'[k]],(n,k)
json.dump(T,open(O+'/epv00.json','w'))
print({n:[len(x) for x in T[n]] for n in T})
