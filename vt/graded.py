"""Straight-line double arithmetic over quantities that are small or large by a known power.

A value is  g1^k1 g2^k2 ... * (p + d),  |d| <= e,  with p a polynomial in a few bounded variables and
the g's positive grade variables (a cosine that may be as small as 1e-17, a radius of any size): rounding
is a relative error of the whole, so nothing is lost where a value is tiny because a grade is.
Adding two values brings them to common grades: a small grade (at most 1) to the lower power, a large
one to the higher power by way of its inverse; the excess goes into the polynomial."""
import math
from fractions import Fraction as F
import z3
from . import relax
from .term import N, topo
from .ll import Unsupported

Q=220; ONE=1<<Q; UP=1+1e-12; EPS=2.0**-53
def fix(x): return (F(x).numerator*ONE)//F(x).denominator
class Undecided(Exception):
    pass

class Val:
    __slots__=('k','p','e','sgn','root')
    def __init__(s,k,p,e,sgn=0,root=None): s.k=k; s.p=p; s.e=e; s.sgn=sgn; s.root=root
class Ratio:
    """a quotient, with its relative rounding error"""
    def __init__(s,x,y,r): s.x=x; s.y=y; s.r=r
class Angle:
    """direction of (x,y) in the half plane x>0 (when half) up to an error e, to which rounding adds"""
    def __init__(s,x,y,e,half): s.x=x; s.y=y; s.e=e; s.half=half

class G:
    """vars: name -> (lo,hi); grades: name -> (lo,hi,mode,variable) with mode 'min' (the variable is the grade itself)
    or 'max' (the variable is its inverse); pairs: (s,c) with s^2+c^2=1"""
    def __init__(g,vars,grades,pairs):
        g.vn=list(vars); g.rng=[tuple(map(F,vars[n])) for n in g.vn]; g.ix={n:i for i,n in enumerate(g.vn)}
        g.gn=list(grades); g.gr=[grades[n] for n in g.gn]
        g.pairs=[(g.ix[a],g.ix[b]) for a,b in pairs]
        g.z=(0,)*len(g.vn); g.k0=(0,)*len(g.gn); g.memo={}; g.inp={}; g._mr={}
    # -------------------------------------------------------------- polynomials with fixed-point coefficients
    def mr(g,m):
        r=g._mr.get(m)
        if r is None:
            l=h=1.0
            for i,n in enumerate(m):
                if not n: continue
                a,b=float(g.rng[i][0]),float(g.rng[i][1])
                if a>=0: x,y=a**n,b**n
                elif n%2==0: x,y=0.0,max(-a,b)**n
                else: x,y=a**n,b**n
                c=(l*x,l*y,h*x,h*y); l,h=min(c),max(c)
            l-=abs(l)*1e-13; h+=abs(h)*1e-13; r=g._mr[m]=(l,h)
            assert max(abs(l),abs(h))<2.0**60
        return r
    def mag(g,p): return sum(abs(c)/ONE*max(map(abs,g.mr(m))) for m,c in p.items())*UP
    def range(g,p):
        l=h=0.0
        for m,c in p.items():
            a,b=g.mr(m); c=c/ONE
            if c<0: a,b=b,a
            l+=c*a; h+=c*b
        t=(abs(l)+abs(h))*1e-12+1e-40
        return l-t,h+t
    def const(g,x): 
        c=fix(x); return {g.z:c} if c else {}
    def v(g,n): return {tuple(1 if i==g.ix[n] else 0 for i in range(len(g.vn))):ONE}
    def add(g,p,q,s=1):
        r=dict(p)
        for m,c in q.items():
            t=r.get(m,0)+s*c
            if t: r[m]=t
            else: r.pop(m,None)
        return r
    def mul(g,p,q):
        r={}
        for m,c in p.items():
            for n,d in q.items():
                k=tuple(map(int.__add__,m,n)); r[k]=r.get(k,0)+c*d
        return g.red({m:c>>Q for m,c in r.items()})
    def scale(g,p,x):
        x=F(x); return {m:c*x.numerator//x.denominator for m,c in p.items() if c*x.numerator//x.denominator}
    def red(g,p):
        for i,j in g.pairs:
            while True:
                big=[m for m in p if m[i]>=2]
                if not big: break
                for m in big:
                    c=p.pop(m); a=list(m); a[i]-=2; a=tuple(a); b=list(a); b[j]+=2; b=tuple(b)
                    p[a]=p.get(a,0)+c; p[b]=p.get(b,0)-c
        return {m:c for m,c in p.items() if c}
    def cut(g,p,lim=1e-24):
        """drop what is negligible: (polynomial, error); covers the fixed-point truncation too"""
        e=(len(p)+1)*2.0**-100; r={}
        for m,c in p.items():
            w=abs(c)/ONE*max(map(abs,g.mr(m)))
            if w<lim: e+=w
            else: r[m]=c
        return r,e*UP
    def pw(g,p,n):
        r=g.const(1)
        for _ in range(n): r=g.mul(r,p)
        return r
    def series(g,p,coef,rem):
        """sum coef(j) d^j for p=k(1+d): returns k, polynomial, error; rem(r,n) bounds the rest after power n"""
        l,h=g.range(p)
        if not l>0: raise Unsupported('root or inverse of a quantity that may vanish')
        k=F((l+h)/2); d=g.add(g.scale(p,1/k),g.const(1),-1); r=g.mag(d)
        l,h=g.range(d); r=min(r,max(abs(l),abs(h)))
        if r>0.5: raise Unsupported('root or inverse of a widely varying quantity')
        out=g.const(coef(0)); t=g.const(1); e=0.0; n=0
        while True:
            if rem(r,n)<1e-21: break
            n+=1
            if n>60: raise Unsupported('slow series')
            t,ee=g.cut(g.mul(t,d)); e+=ee*2; out=g.add(out,g.scale(t,coef(n)))
            if not t: break
        out,e2=g.cut(out)
        return k,out,(e+e2+rem(r,n))*UP
    # -------------------------------------------------------------- values
    def val(g,p,e=0.0,k=None,sgn=0): return Val(k or g.k0,p,e,sgn)
    def rnd(g,v):
        if not v.p and v.e==0: return v
        m=g.mag(v.p)+v.e; s=1.0
        for n,(lo,hi,mode,_) in zip(v.k,g.gr): s*=(lo if n>0 else hi)**n
        v.e=(v.e+m*EPS*1.0000001+(2.0**-1074/s if s>0 else math.inf))*UP
        if not v.e<1e300: raise Unsupported('underflow')
        return v
    def to(g,v,k):
        """the value on other grades"""
        p=v.p; f=1.0
        for n,w,(lo,hi,mode,var) in zip(v.k,k,g.gr):
            d=n-w if mode=='min' else w-n
            assert d>=0
            if d:
                p=g.mul(p,g.pw(g.v(var),d)); a,b=g.rng[g.ix[var]]; f*=max(abs(float(a)),abs(float(b)))**d
        return p,(v.e*f+2.0**-90*(f!=1.0))*UP
    def common(g,x,y): return tuple((min if r[2]=='min' else max)(a,b) for a,b,r in zip(x.k,y.k,g.gr))
    def plus(g,x,y,s=1):
        if not x.p and not x.e: return Val(y.k,g.scale(y.p,s),y.e,y.sgn*s,y.root if s==1 else None)
        if not y.p and not y.e: return x
        k=g.common(x,y); (p,e),(q,f)=g.to(x,k),g.to(y,k)
        r,t=g.cut(g.add(p,q,s))
        return Val(k,r,(e+f+t)*UP)
    def times(g,x,y):
        if (not x.p and not x.e) or(not y.p and not y.e): return Val(g.k0,{},0.0)
        p,t=g.cut(g.mul(x.p,y.p))
        e=(g.mag(x.p)*y.e+g.mag(y.p)*x.e+x.e*y.e+t)*UP
        n=x.sgn*y.sgn; n=0 if n==0 else (2 if abs(n)==4 else 1)*(1 if n>0 else -1)
        return Val(tuple(map(int.__add__,x.k,y.k)),p,e,n,x if x is y else None)
    def neg(g,x): return Val(x.k,g.scale(x.p,-1),x.e,-x.sgn)
    def sign(g,x):
        """1, -1, 0 (known to be zero) or None; sgn means a sign that is not strict"""
        if not x.p and x.e==0: return 0
        l,h=g.range(x.p)
        if l-x.e>0: return 1
        if h+x.e<0: return -1
        return None
    def sqrt(g,x):
        if not x.p and x.e==0: return x
        if x.root is not None:
            s=g.sign(x.root)
            if s: r=x.root if s>0 else g.neg(x.root); l=g.low(r.p)-r.e; return Val(r.k,r.p,(r.e+(x.e+g.mag(x.p)*EPS)/max(l,1e-300))*UP)
        if any(n%2 for n in x.k): raise Unsupported('root of an odd power')
        def coef(j):
            c=F(1)
            for i in range(j): c*=F(1,2)-i; c/=i+1
            return c
        k,p,e=g.series(x.p,coef,lambda r,n: r**(n+1)/(1-r) if n>0 or r==0 else 1.0)
        s=F(math.sqrt(k)); s=(s+k/s)/2; s=(s+k/s)/2; s=F(fix(s),ONE)
        p=g.scale(p,s); l,h=g.range(x.p); dl=x.e/(2*math.sqrt(max(l-x.e,1e-300))) if l-x.e>0 else None
        if dl is None: raise Unsupported('root of a quantity that may vanish')
        return Val(tuple(n//2 for n in x.k),p,(e*float(s)+dl+2.0**-100)*UP)
    def low(g,p): return max(0.0,g.range(p)[0])
    def inverse(g,x):
        k,p,e=g.series(x.p,lambda j:F((-1)**j),lambda r,n: r**(n+1)/(1-r) if n>0 or r==0 else 1.0)
        l,h=g.range(x.p)
        if not l-x.e>0: raise Unsupported('inverse of a quantity that may vanish')
        return Val(tuple(-n for n in x.k),g.scale(p,1/k),(e/float(k)+x.e/(l*(l-x.e))+2.0**-100)*UP)
    def exact(g,p,q):
        """the polynomial p/q when it is one"""
        if not q: return None
        i=max(range(len(g.vn)),key=lambda i:max(m[i] for m in q)); D=max(m[i] for m in q)
        lead=[m for m in q if m[i]==D]
        if len(q)==1 or len(lead)!=1: return None
        lm=lead[0]; lc=q[lm]; r=dict(p); out={}
        for _ in range(200):
            r={m:c for m,c in r.items() if abs(c)>ONE>>170}
            if not r: return out
            m=max(r,key=lambda m:m[i])
            d=tuple(map(int.__sub__,m,lm))
            if min(d)<0: return None
            c=r[m]*ONE//lc; out[d]=out.get(d,0)+c
            r=g.add(r,g.mul({d:c},q),-1); r.pop(m,None)
        return None
    def over(g,x,y):
        if not x.p and not x.e and g.sign(y): return Val(g.k0,{},0.0)
        k=tuple(map(int.__sub__,x.k,y.k))
        if len(y.p)==1 and g.z in y.p and y.e==0:
            c=F(y.p[g.z],ONE); return Val(k,g.scale(x.p,1/c),x.e/abs(float(c))*UP+2.0**-100,x.sgn*(1 if c>0 else -1))
        s=g.sign(y)
        if s:
            q=g.exact(x.p,y.p)
            if q is not None:
                l,h=g.range(y.p); l=min(abs(l),abs(h)); return Val(k,q,((x.e+g.mag(q)*y.e)/(l-y.e)+2.0**-80)*UP)
        if s==-1: return g.over(g.neg(x),g.neg(y))
        r=g.times(x,g.inverse(y)); r.root=None
        return r
    # -------------------------------------------------------------- terms
    def lower(g,root):
        if type(root) is float: return g.val(g.const(root)) if root==root and abs(root)<1e300 else g.bad('constant %r'%root)
        for n in topo([root]):
            if type(n) is not N or n.id in g.memo: continue
            try: g.memo[n.id]=g.node(n)
            except Unsupported as x: g.memo[n.id]=x
        r=g.memo[root.id]
        if isinstance(r,Exception): raise r
        return r
    def bad(g,t): raise Unsupported(t)
    def get(g,a):
        if type(a) is not N: return g.lower(a)
        r=g.memo[a.id]
        if isinstance(r,Exception): raise r
        return r
    def value(g,a): g.lower(a); return g.num(a)
    def num(g,a):
        r=g.get(a)
        if isinstance(r,Ratio): r=g.rnd(g.over(r.x,r.y))
        if not isinstance(r,Val): raise Unsupported('angle in arithmetic')
        return r
    def node(g,n):
        o,A=n.op,n.args
        if o=='var':
            if A[0] in g.inp: return g.inp[A[0]]
            raise Unsupported('input '+A[0])
        if o in('fadd','fsub'):
            x,y=g.num(A[0]),g.num(A[1]); r=g.plus(x,y,1 if o=='fadd' else -1)
            if r is x or(not x.p and not x.e): return r
            return g.rnd(r)
        if o=='fmul':
            for i in(0,1):
                if A[i] in(1.0,-1.0) and isinstance(g.get(A[1-i]),Angle): x=g.get(A[1-i]); return x if A[i]>0 else Angle(x.x,g.neg(x.y),x.e,x.half)
            x,y=g.num(A[0]),g.num(A[1]); return g.rnd(g.times(x,x if A[0] is A[1] else y))
        if o=='fma': r=g.plus(g.times(g.num(A[0]),g.num(A[1])),g.num(A[2])); r.root=None; return g.rnd(r)
        if o=='fdiv':
            x,y=g.num(A[0]),g.num(A[1])
            if len(y.p)==1 and g.z in y.p and y.e==0: return g.rnd(g.over(x,y))
            return Ratio(x,y,EPS*1.001)
        if o=='fneg':
            x=g.get(A[0])
            if isinstance(x,Angle): return Angle(x.x,g.neg(x.y),x.e,x.half)
            return g.neg(x) if isinstance(x,Val) else Ratio(g.neg(x.x),x.y,x.r)
        if o=='sqrt': return g.rnd(g.sqrt(g.num(A[0])))
        if o=='fabs' and isinstance(g.get(A[0]),Angle):
            x=g.get(A[0]); w=g.sign(x.y)
            if w is None: raise Unsupported('absolute value of an angle of either sign')
            return x if w>=0 else Angle(x.x,g.neg(x.y),x.e,x.half)
        if o=='fabs':
            x=g.num(A[0]); s=x.sgn or g.sign(x)
            if s is None: raise Unsupported('absolute value of a quantity of either sign')
            return x if s>=0 else g.neg(x)
        if o=='copysign':
            x,y=g.get(A[0]),g.num(A[1]); t=y.sgn or g.sign(y)
            if isinstance(x,Angle):
                w=g.sign(x.y)
                if not t or w is None: raise Unsupported('sign of an angle')
                return x if (w>=0)==(t>0) else Angle(x.x,g.neg(x.y),x.e,x.half)
            w=x.sgn or g.sign(x)
            if not t or w is None: raise Unsupported('copysign')
            return x if (w>=0)==(t>0) else g.neg(x)
        if o=='hypot':
            x,y=g.num(A[0]),g.num(A[1]); r=g.sqrt(g.plus(g.times(x,x),g.times(y,y))); g.rnd(r); return g.rnd(r)
        if o=='pow':
            x=g.num(A[0])
            if type(A[1]) is float and A[1] in(2.0,3.0,4.0,5.0):
                r=x
                for _ in range(int(A[1])-1): r=g.times(r,x)
                r=Val(r.k,r.p,r.e,r.sgn); g.rnd(r); return g.rnd(r)
            raise Unsupported('pow')
        if o=='atan':
            x=g.get(A[0])
            if isinstance(x,Ratio):
                s=g.sign(x.y)
                if s is None: raise Unsupported('atan of a quotient by a quantity of either sign')
                return Angle(x.y if s>0 else g.neg(x.y),x.x if s>0 else g.neg(x.x),x.r+ATAN,True)
            return Angle(g.val(g.const(1)),x,ATAN,True)
        if o=='atan2':
            y,x=g.get(A[0]),g.get(A[1])
            if isinstance(x,Val) and isinstance(y,Val): return Angle(x,y,2*ATAN,g.sign(x)==1)
        raise Unsupported('operation '+o)
    def decide(g,c):
        """a comparison: True, False or None"""
        if type(c) is int: return bool(c)
        if c.op=='xor' and c.args[1]==1:
            r=g.decide(c.args[0]); return None if r is None else not r
        if c.op in('and','or') and c.ty==1:
            r=[g.decide(x) for x in c.args]; d=c.op=='or'
            if d in r: return d
            return None if None in r else not d
        if c.op!='fcmp': raise Unsupported('condition '+c.op)
        p,x,y=c.args
        try: x=g.lower(x); y=g.lower(y)
        except Unsupported: raise
        if isinstance(x,Ratio): x=g.num(c.args[1])
        if isinstance(y,Ratio): y=g.num(c.args[2])
        if isinstance(x,Angle) or isinstance(y,Angle): raise Unsupported('comparison of angles')
        k=p[1:]
        if k in('no','rd'): return True
        if not y.p and y.e==0: d=x; s=x.sgn
        elif not x.p and x.e==0: d=g.neg(y); s=d.sgn
        else: d=g.plus(x,y,-1); s=0
        t=g.sign(d)
        if t is None:
            if s>0: return False if k=='lt' else True if k=='ge' else None
            if s==-2: t=-1
            elif s<0: return False if k=='gt' else True if k=='le' else None
            else:
                (a,b),(l,h)=g.span(x),g.span(y)
                t=1 if a>h else -1 if b<l else None
                if t is None: return None
        return {'lt':t<0,'le':t<=0,'gt':t>0,'ge':t>=0,'eq':t==0,'ne':t!=0}[k]
    def span(g,x):
        """range with the grades multiplied in"""
        l,h=g.range(x.p); l-=x.e; h+=x.e; a=b=1.0
        for n,(lo,hi,_,_) in zip(x.k,g.gr): u,v=lo**n,hi**n; a*=min(u,v); b*=max(u,v)
        l=l*(a if l>0 else b); h=h*(b if h>0 else a)
        return l-abs(l)*1e-12,h+abs(h)*1e-12
    # -------------------------------------------------------------- solver
    def query(g,cons,timeout=60000):
        """cons: list of (polynomial, lo, hi); satisfiable?  monomials are independent within their ranges"""
        import time
        t0=time.time(); S=relax.STATS; s=z3.Solver(); s.set('timeout',timeout); mv={}
        for p,lo,hi in cons:
            ts=[]
            for m,c in p.items():
                if m==g.z: ts.append(relax.q(F(c,ONE))); continue
                if m not in mv:
                    v=z3.Real('m%d'%len(mv)); l,h=g.mr(m); s.add(v>=relax.q(F(l)),v<=relax.q(F(h))); mv[m]=v
                ts.append(relax.q(F(c,ONE))*mv[m])
            t=z3.Sum(ts) if ts else z3.RealVal(0)
            if lo is not None: s.add(t>=relax.q(F(lo)))
            if hi is not None: s.add(t<=relax.q(F(hi)))
        r=str(s.check()); S.queries+=1; S.time+=time.time()-t0; setattr(S,r,getattr(S,r)+1)
        return r
    def below(g,p,e,tol):
        """|p|+e <= tol everywhere?"""
        a=g.query([(p,F(tol)-F(e),None)])
        return a if a!='unsat' else g.query([(p,None,F(e)-F(tol))])
    def above(g,p,e,lo):
        """p-e > lo everywhere?"""
        return g.query([(p,None,F(lo)+F(e))])
ATAN=2.0**-52
class Box:
    """a box of a G: the polynomial in the offsets from the middle of the box"""
    def __init__(b,g,lim):
        b.mid=[]; vs={}
        for i,n in enumerate(g.vn):
            l,h=lim.get(n,g.rng[i]); l,h=F(l),F(h)
            m=F(float((l+h)/2)) if n in lim else F(0)
            b.mid.append(m); vs[n]=(l-m,h-m)
        b.g=G(vs,{},())
    def shift(b,p):
        for i,m in enumerate(b.mid):
            if not m: continue
            M=fix(m); pws=[ONE]; r={}
            for k,c in p.items():
                n=k[i]
                while len(pws)<=n: pws.append(pws[-1]*M>>Q)
                for j in range(n+1):
                    t=math.comb(n,j)*(c*pws[n-j]>>Q); a=k[:i]+(j,)+k[i+1:]; r[a]=r.get(a,0)+t
            p={k:c for k,c in r.items() if c}
        return b.g.cut(p,1e-26)
def boxes(g,splits):
    """splits: name -> number of parts"""
    import itertools
    out=[[]]
    for n,k in splits.items():
        l,h=g.rng[g.ix[n]]; out=[o+[(n,l+(h-l)*j/k,l+(h-l)*(j+1)/k)] for o in out for j in range(k)]
    return [Box(g,{n:(l,h) for n,l,h in o}) for o in out]
