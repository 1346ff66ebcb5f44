"""Ellipsoid conversions."""
import math, itertools, time
from fractions import Fraction as F
import z3
from vt import symex, term, relax, poly, polycheck
from vt.term import var, N
from vt.ll import Unsupported
from vt.check import Entry, Verdict
from vt.polycheck import *
from vt.poly import Poly, Ctx, Split
from .series import LIB
from .lin import query

# ------------------------------------------------------------------ K02
HP=math.nextafter(math.pi/2,2)
K2=(('l',-1e15,1e15),('p',-HP,HP),('h',-1e8,1e8),('a',6e6,7e6),('f',0.0,0.1))
def k02_in(f): return all(l<=x<=h for x,(_,l,h) in zip(f,K2))
def k02_ref(a,l,p,h,A,f,sq,inv):
    cl,sl,cp,sp=a.cos(l),a.sin(l),a.cos(p),a.sin(p); w=(1-f)*(1-f)
    n=A*inv(sq(cp*cp+w*sp*sp)); r=(n+h)*cp
    return [r*cl,r*sl,(w*n+h)*sp]
def k02_oracle(f,i,r):
    if not k02_in(f): return None
    call='geodetic_to_geocentric(longitude %r, latitude %r, height %r; a=%r, f=%r)'%tuple(f[:5])
    if r[0]=='panic': return call+' panics'
    if r[2][0]: return call+' is an error'
    e=k02_ref(NUM,*[mp.mpf(x) for x in f[:5]],NUM.sqrt,NUM.inv)
    for k in range(3):
        if not abs(mp.mpf(r[1][k])-e[k])<=1e-6: return '%s: %s = %r, expected %s'%(call,'XYZ'[k],r[1][k],mp.nstr(e[k],18))
def zen_oracle(f,i,r):
    if not(abs(f[0])<=1e15 and abs(f[1])<=1e15): return None
    if r[0]=='panic': return 'zenith of (%r,%r) panics'%(f[0],f[1])
    l,p=mp.mpf(f[0]),mp.mpf(f[1]); e=[mp.cos(p)*mp.cos(l),mp.cos(p)*mp.sin(l),mp.sin(p)]
    for k in range(3):
        if not abs(mp.mpf(r[1][k])-e[k])<=1e-15: return 'zenith of longitude %r, latitude %r: %s = %r, expected %s'%(f[0],f[1],'XYZ'[k],r[1][k],mp.nstr(e[k],18))
def k02_corpus(rng):
    for _ in range(1500):
        yield dict(l=angle(rng,1e15),p=rng.choice([math.pi/2,-math.pi/2,rng.uniform(-1.57,1.57),angle(rng,math.pi/2),rng.choice([-1,1])*(math.pi/2-10.0**rng.uniform(-16,0))]),
            h=rng.choice([0.0,rng.uniform(-1e4,1e4),rng.uniform(-1e8,1e8),rng.choice([-1,1])*10.0**rng.uniform(-9,8)]),a=rng.choice([6378137.0,rng.uniform(6e6,7e6)]),f=rng.choice([0.0,0.1,1/298.257223563,rng.uniform(0,0.1),10.0**rng.uniform(-20,-1)]))
def contra(ctx,fs,label):
    """the facts exclude each other"""
    return Verdict(label,ctx.residual(Poly({():F(1)}),0,0,facts=fs))
def K02(ck):
    ck.bounds.append('longitude any double up to 1e15, latitude in [-pi/2,pi/2], height up to 1e8 m in magnitude, a in [6e6,7e6] m, f in [0,0.1]; tolerance 1e-6 m')
    ck.assumptions.append(LIB)
    en=Entry('h_gd2gc',[var(n,'f') for n,_,_ in K2]); ck.target(en,k02_oracle,k02_corpus)
    def setup(ctx):
        for n,l,h in K2: ctx.input(n,F(l),F(h))
    ps=ck.explore(en,IvFeas(setup)); tasks=[]
    for k,p in enumerate(ps):
        def fn(ctx,p,k=k):
            t='path %d: '%k
            fs=ctx.facts(p.cond)
            if p.outcome=='panic' or p.out[1][0]!=0: return [(t+('cannot panic' if p.outcome=='panic' else 'cannot be an error'),None,None,0,fs)]
            ref=k02_ref(Sym(ctx),*[ctx.inp[n].p for n,_,_ in K2],ctx.sqrtp,ctx.invp)
            return [(t+'XYZ'[j],ctx.lower(p.out[0][j]),ref[j],ctx.referr,fs) for j in range(3)]
        for ctx,lab,v,R,re,fs in cases(setup,p,fn):
            def run(ctx=ctx,lab=lab,v=v,R=R,re=re,fs=fs):
                Ctx.cur=ctx
                if v is None: return [contra(ctx,fs,lab)]
                return [Verdict(lab,ctx.residual(v.p-R,v.err()+re,F(1,10**6)),note='rounding %.1e'%(v.err()+re))]
            tasks.append((lab,run))
    def lemma():
        c,s,cl,sl,w,n,a=z3.Reals('c s cl sl w n a'); H=[c*c+s*s==1,cl*cl+sl*sl==1,w>0,a>0,n*n*(c*c+w*s*s)==a*a]
        x,y,z=n*c*cl,n*c*sl,w*n*s; b2=a*a*w
        return [query('the surface point lies on the ellipsoid',H+[(n*c*n*c*(cl*cl+sl*sl))*w+w*w*n*s*n*s!=b2]),
            query('the zenith vector is along the outward normal (gradient) there',H+[n>0,z3.Or(w*x*s!=z*c*cl,w*y*s!=z*c*sl)])]
    tasks.append(('normal',lemma))
    vs=ck.run(tasks); ck.settle(en,vs,k02_oracle,k02_corpus)
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(k02_corpus(ck.rng),80)),oracle=k02_oracle)
    if ck.violations: return
    ez=Entry('h_zenith',[var('l','f'),var('p','f'),var('h','f')])
    def st(ctx): ctx.input('l',-10**15,10**15); ctx.input('p',-10**15,10**15); ctx.input('h',-10**8,10**8)
    def ref(a,ctx):
        l,p=ctx.inp['l'].p,ctx.inp['p'].p; return [('zenith X',0,a.cos(p)*a.cos(l)),('zenith Y',1,a.cos(p)*a.sin(l)),('zenith Z',2,a.sin(p))]
    polycheck(ck,ez,st,ref,F(1,10**15),zen_oracle,lambda rng:({k:e[k] for k in 'lph'} for e in k02_corpus(rng)))
