"""Driver for the claims decided on the polynomial lowering (vt/poly.py)."""
import math, itertools, time
from fractions import Fraction as F
import mpmath
from . import poly, symex, relax, term
from .poly import Ctx, Poly, Split, V, PI
from .check import Entry, Verdict
from .ll import Unsupported
from .term import N, var, topo

mp=mpmath.mp.clone() if hasattr(mpmath.mp,'clone') else mpmath.mp
mp.dps=40
J2000=F(2451545)

class Num:
    """the reference formulas over high-precision numbers"""
    pi=mp.pi
    def c(s,x): 
        if isinstance(x,F): return mp.mpf(x.numerator)/x.denominator
        return mp.mpf(x)
    def sin(s,x): return mp.sin(x)
    def cos(s,x): return mp.cos(x)
    def sqrt(s,x): return mp.sqrt(x)
    def inv(s,x): return 1/x
NUM=Num()
class Sym:
    """the reference formulas over polynomials"""
    pi=PI
    def __init__(s,ctx): s.x=ctx
    def c(s,v): return s.x.const(F(v))
    def sin(s,p): return s.x.sin(p if isinstance(p,Poly) else s.c(p))
    def cos(s,p): return s.x.cos(p if isinstance(p,Poly) else s.c(p))
    def sqrt(s,p): return s.x.sqrtp(p)
    def inv(s,p): return s.x.invp(p)

def angle(rng,lim):
    """angles for the native corpora: everywhere, at and around multiples of a quarter and an eighth of a turn, and small ones"""
    for _ in range(20):
        k=rng.randrange(8)
        if k==0: x=rng.choice([0.0,-0.0])
        elif k==1: x=rng.choice([-1,1])*10.0**rng.uniform(-18,0)
        elif k<4: x=rng.uniform(-7,7)
        elif k<6: x=rng.randint(-9,9)*math.pi/rng.choice([1,2,2,4])+rng.choice([0.0,0.0,-1,1])*10.0**rng.uniform(-17,-1)
        elif k==6: x=rng.uniform(-lim,lim)
        else: x=rng.choice([-1,1])*10.0**rng.uniform(0,math.log10(lim)) if lim>1 else rng.uniform(-lim,lim)
        if abs(x)<=lim: return x
    return 0.0
class IvFeas:
    """prunes branches during execution by interval arithmetic only"""
    def __init__(self,setup): self.setup=setup; self.ctx=None
    def __call__(self,cond,c,val):
        ctx=Ctx(); self.setup(ctx)
        try:
            for d,b in cond:
                r=ctx.decide1(d)
                ctx.sel[d.id]=b
            r=ctx.decide1b(c)
        except (Split,Unsupported): return True
        return r is None or r==val
    def value(self,*a): raise Unsupported('symbolic index')

class CmpFeas:
    """prunes branches that contradict earlier comparisons of the same integer with constants"""
    def __call__(self,cond,c,val):
        if type(c) is not N or c.op!='icmp': return True
        k,w,a,b=c.args; key=a if type(a) is N else b
        if type(a) is N and type(b) is N or k[0]=='u': return True
        lo,hi=-(1<<(w-1)),(1<<(w-1))-1; no=set(); ok=True
        for d,v in list(cond)+[(c,val)]:
            if type(d) is not N or d.op!='icmp' or d.args[1]!=w: continue
            k,_,a,b=d.args
            if type(a) is N and type(b) is N or k[0]=='u': continue
            if type(a) is not N: a,b=b,a; k={'slt':'sgt','sle':'sge','sgt':'slt','sge':'sle'}.get(k,k)
            if a is not key: continue
            b=b-(1<<w) if b>>(w-1) else b
            if not v: k={'slt':'sge','sle':'sgt','sgt':'sle','sge':'slt','eq':'ne','ne':'eq'}[k]
            if k=='slt': hi=min(hi,b-1)
            elif k=='sle': hi=min(hi,b)
            elif k=='sgt': lo=max(lo,b+1)
            elif k=='sge': lo=max(lo,b)
            elif k=='eq': lo=max(lo,b); hi=min(hi,b)
            else: no.add(b)
        while lo in no: lo+=1
        while hi in no: hi-=1
        return lo<=hi
    def value(self,*a): raise Unsupported('symbolic index')

def cases(setup,path,fn,maxcases=200):
    """fn(ctx) for the path, once per combination of conditions that intervals leave open"""
    work=[{}]; out=[]; n=0
    while work:
        sel=work.pop(); n+=1
        if n>maxcases: raise Unsupported('more than %d cases'%maxcases)
        ctx=Ctx(); setup(ctx); ctx.sel=dict(sel)
        try:
            dead=False
            for c,b in path.cond:
                k=ctx.sel.get(c.id)
                r=k if k is not None else ctx.decide1(c)
                if r is not None and r!=b: dead=True; break
                ctx.sel[c.id]=b
            if dead: continue
            ctx.tighten(path.cond)
            out+=[(ctx,)+tuple(x) for x in fn(ctx,path)]
        except Split as s:
            for b in(True,False): work.append({**sel,s.c:b})
    return out

def polycheck(ck,en,setup,ref,tols,oracle,corpus,tag='',paths=None,validate=True,nval=30,extra=None,axioms=False,timeout=20000):
    """ref(alg) -> list of (label, output index, reference polynomial); tols(label) -> tolerance.
    Claims |output - reference| <= tol on every path, panics infeasible."""
    ck.target(en,oracle,corpus)
    if paths is None: paths=ck.explore(en,IvFeas(setup))
    tasks=[]; nn=[0]
    for k,p in enumerate(paths):
        def fn(ctx,p,k=k):
            if p.outcome=='panic': return [('path %d cannot panic (%s)'%(k,p.out),None,None,0)]
            refs=ref(Sym(ctx),ctx); out=[]
            re=ctx.referr
            for lab,idx,rp in refs:
                o=p.out[0][idx]
                v=ctx.lower(o)
                out.append(('path %d: %s'%(k,lab),v.p-rp,v.err()+re,tols(lab) if callable(tols) else tols))
            if extra: out+=extra(ctx,p,k)
            return out
        for ctx,lab,diff,err,tol in cases(setup,p,fn):
            nn[0]+=1
            def run(ctx=ctx,lab=lab,diff=diff,err=err,tol=tol):
                Ctx.cur=ctx
                if diff is None: return [Verdict(tag+lab,'sat')]
                r=ctx.residual(diff,err,tol,timeout=timeout)
                if r!='unsat' and axioms: r=ctx.residual(diff,err,tol,axioms=True,timeout=timeout)
                return [Verdict(tag+lab,r,note='residual terms %d, rounding %.1e, bound %.1e'%(len(diff.d),err,ctx.pmag(diff)+err))]
            tasks.append((tag+lab,run))
    if not tasks: ck.inconclusive.append(tag+'no feasible path'); return paths
    vs=ck.run(tasks)
    ck.settle(en,vs,oracle,corpus,tag)
    if validate and not ck.violations:
        envs=list(itertools.islice(corpus(ck.rng),nval)) 
        ck.validate(en,paths,envs,oracle=oracle)
        ck.samples+=envs[:2]
    return paths

# ------------------------------------------------------------------ dates
class Dates:
    """two-part dates within a number of years of J2000, each part at most 4e6 days"""
    def __init__(s,years,n1='d1',n2='d2',part=4000000): s.days=F(years)*F(1461,4); s.n=(n1,n2); s.part=part
    def __call__(s,ctx):
        a=ctx.atom('var',-s.days,s.days,'T'+s.n[0]); T=ctx.A(a); ctx.__dict__.setdefault('T',{})[s.n[0]]=T
        ctx.__dict__.setdefault('Tid',{})[s.n[0]]=a.id
        d2=ctx.input(s.n[1],-s.part,s.part)
        ctx.input(s.n[0],-s.part,s.part,T+J2000-d2)
    def inside(s,a,b):
        return abs(a)<=s.part and abs(b)<=s.part and abs(F(a)+F(b)-J2000)<=s.days
    def T(s,f): return F(f[0])+F(f[1])-J2000
    def gen(s,rng):
        """one split date"""
        d=float(s.days)
        T=rng.choice([rng.uniform(-d,d),rng.uniform(-min(d,40000),min(d,40000)),round(rng.uniform(-d,d)),rng.choice([-d,d])*(1-1e-9)*rng.random()**0.01])
        k=rng.randrange(9)
        J=2451545.0
        if k==0: a,b=J,T
        elif k==1: a,b=float(math.floor(J+T)),T-math.floor(T)
        elif k==2: a,b=2400000.5,T+51544.5
        elif k==3: a=rng.uniform(-s.part,s.part); b=J+T-a
        elif k==4: a,b=T,J
        elif k==5: a,b=J+T,0.0
        elif k==6: a=b=(J+T)/2
        else:
            a=rng.choice([0.5,-0.5,rng.uniform(-1,1),10.0**rng.uniform(-12,3)]); b=J+T-a
            if k==7: a,b=b,a
        return a,b
    def corpus(s,rng,n=400):
        for a,b in((2451545.0,0.0),(2400000.5,53736.0),(0.0,2451545.0),(2451545.0,1.0),(2451544.5,0.5)): yield dict(zip(s.n,(a,b)))
        for _ in range(n):
            a,b=s.gen(rng)
            if s.inside(a,b): yield dict(zip(s.n,(a,b)))
