"""Lowering of double terms to exact polynomials over atoms plus a rounding-error bound.

A double-valued term v becomes V(p, rel, ab, lo, hi):  |v - p| <= rel*|p| + ab  and  lo <= v <= hi, with p an
exact rational polynomial over atoms: inputs (or symbols for combinations of inputs), unknown integers
(quotients of remainders and floors), sines and cosines, square roots, reciprocals and arc tangents of
polynomials.  sin^2 is rewritten to 1-cos^2, sqrt^2 to its radicand, x*(1/x) to 1; integer multiples of a turn
disappear inside sines and cosines.  Two arguments that differ by at most SLACK share an atom; the
difference goes into the error bound.  Every claim |code - reference| <= tol becomes an SMT query over the
monomials of the difference (reals within their ranges) and, if that is not enough, over the atoms with their
defining equations."""
import math, time, random
from fractions import Fraction as F
import z3
from .term import N, topo
from . import term, relax
from .ll import Unsupported

U=2.0**-53; TINY=2.0**-1074
PI=F('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651')
TWOPI=2*PI
SLACK=1e-7
UP=1+2.0**-45
LIBM=2.0**-52        # assumed absolute error of sin, cos (and relative error of the others) of the platform libm
INF=math.inf

class Split(Exception):
    def __init__(self,c): self.c=c

class Poly:
    __slots__=('d',)
    def __init__(self,d=None): self.d=d if d is not None else {}
    def __add__(a,b):
        if not isinstance(b,Poly): b=Poly({():F(b)} if b else {})
        if len(a.d)<len(b.d): a,b=b,a
        r=dict(a.d)
        for m,c in b.d.items():
            x=r.get(m)
            if x is None: r[m]=c
            else:
                x+=c
                if x: r[m]=x
                else: del r[m]
        return Poly(r)
    __radd__=__add__
    def iadd(a,b,s=1):
        r=a.d
        for m,c in b.d.items():
            if s!=1: c=-c
            x=r.get(m)
            if x is None: r[m]=c
            else:
                x+=c
                if x: r[m]=x
                else: del r[m]
        return a
    def __neg__(a): return Poly({m:-c for m,c in a.d.items()})
    def __sub__(a,b): return a+(-b if isinstance(b,Poly) else -F(b))
    def __rsub__(a,b): return (-a)+b
    def scale(a,s):
        s=F(s)
        if s==0: return Poly()
        if s==1: return a
        return Poly({m:c*s for m,c in a.d.items()})
    def __truediv__(a,s): return a.scale(1/F(s))
    def __mul__(a,b):
        if not isinstance(b,Poly): return a.scale(b)
        if len(a.d)==1 and () in a.d: return b.scale(a.d[()])
        if len(b.d)==1 and () in b.d: return a.scale(b.d[()])
        r={}
        red=Ctx.cur.red
        for m,c in a.d.items():
            for n,e in b.d.items():
                if not m: k=n
                elif not n: k=m
                else: k=tuple(sorted(m+n))
                z=red(k) if m and n else None
                if z is None:
                    x=r.get(k); r[k]=c*e if x is None else x+c*e
                else:
                    ce=c*e
                    for k2,c2 in z.d.items():
                        x=r.get(k2); r[k2]=ce*c2 if x is None else x+ce*c2
        return Poly({m:c for m,c in r.items() if c})
    __rmul__=__mul__
    def isconst(a): return not a.d or (len(a.d)==1 and () in a.d)
    def const(a): return a.d.get((),F(0))
    def vars(a): return {x for m in a.d for x in m}

class Atom:
    __slots__=('id','kind','lo','hi','arg','isint','partner','name','sample')

class V:
    __slots__=('p','rel','ab','lo','hi')
    def __init__(s,p,rel,ab,lo,hi): s.p=p; s.rel=rel; s.ab=ab; s.lo=lo; s.hi=hi
    def mag(s): return max(abs(s.lo),abs(s.hi))
    def err(s):
        """absolute bound on |v-p|"""
        if s.rel==0: return s.ab
        return (s.rel*(s.mag()+s.ab)/(1-s.rel)+s.ab)*UP
    def sign(s):
        # sign of the polynomial value, when known
        if s.lo>=0 and (s.rel<1 and s.ab==0 or s.lo>s.ab): return 1
        if s.hi<=0 and (s.rel<1 and s.ab==0 or -s.hi>s.ab): return -1
        if len(s.p.d)<=12:
            lo,hi=Ctx.cur.prange(s.p)
            if lo>=0: return 1
            if hi<=0: return -1
        return 0

def fl(x):
    try: return float(x)
    except OverflowError: return math.inf if x>0 else -math.inf

class Ctx:
    cur=None
    def __init__(self,seed=12345,slack=SLACK):
        self.atoms=[]; self.inp={}; self.memo={}; self.trig={}; self.algs={}; self.rc={}
        self.sel={}; self.slack=slack; self.rng=random.Random(seed); self.assume=[]; self.usedsel=[]
        self.iin={}; self.imemo={}; self.ifl={}
        self.hook=None; self.opaque=False; self.cap=None; self.ot={}
        Ctx.cur=self
    # ------------------------------------------------------------------ atoms
    def atom(self,kind,lo,hi,name=None,isint=False,arg=None,sample=None):
        a=Atom(); a.id=len(self.atoms); a.kind=kind; a.lo=lo; a.hi=hi; a.isint=isint; a.arg=arg; a.partner=None; a.name=name
        if sample is None:
            l,h=max(lo,-1e9),min(hi,1e9)
            sample=F(self.rng.uniform(float(l),float(h)))
            if isint: sample=F(round(sample))
        a.sample=sample
        self.atoms.append(a)
        return a
    def A(self,a): return Poly({(a.id,):F(1)})
    def input(self,name,lo,hi,poly=None):
        """declare a float input; by default its own symbol"""
        if poly is None: poly=self.A(self.atom('var',F(lo),F(hi),name))
        self.inp[name]=V(poly,0.0,0.0,fl(lo),fl(hi))
        return poly
    def const(self,c): return Poly({():F(c)} if c else {})
    def red(self,m):
        """rewrite a monomial; None when it is already reduced"""
        r=self.rc.get(m,0)
        if r!=0: return r
        r=None; prev=None
        ats=self.atoms
        for i,x in enumerate(m):
            a=ats[x]
            if a.kind=='sin':
                if x==prev:
                    rest=Poly({m[:i-1]+m[i+1:]:F(1)}); c=self.A(ats[a.partner])
                    r=self.full(m[:i-1]+m[i+1:])*(1-c*c); break
            elif a.kind=='sqrt':
                if x==prev: r=self.full(m[:i-1]+m[i+1:])*a.arg; break
            elif a.kind=='inv' and a.partner is not None and a.partner in m:
                l=list(m); l.remove(x); l.remove(a.partner); r=self.full(tuple(l)); break
            prev=x
        self.rc[m]=r
        return r
    def full(self,m):
        z=self.red(m) if len(m)>1 else None
        return Poly({m:F(1)}) if z is None else z
    # ------------------------------------------------------------------ ranges
    def mrange(self,m):
        lo=hi=1.0; i=0
        if len(m)>1:
            for x in m:
                a=self.atoms[x]
                if a.kind=='inv' and a.partner is not None and self.atoms[a.partner].kind=='sqrt':
                    r=self.atoms[a.partner].arg.d
                    if all(c>0 and len(k)%2==0 and k[::2]==k[1::2] for k,c in r.items()):
                        y=next((y for y in m if r.get((y,y),0)>=1),None)
                        if y is not None:
                            l=list(m); l.remove(x); l.remove(y); m=tuple(l)
                            g=max(map(abs,self.mrange(m)))*(1+2**-40) if m else 1.0
                            return -g,g
        n=len(m)
        while i<n:
            j=i
            while j<n and m[j]==m[i]: j+=1
            a=self.atoms[m[i]]; l,h=fl(a.lo),fl(a.hi); k=j-i
            if k>1:
                if k%2==0:
                    g=max(abs(l),abs(h))**k; l2=0.0 if l<=0<=h else min(abs(l),abs(h))**k
                    l,h=l2,g
                else: l,h=l**k,h**k
            v=(lo*l,lo*h,hi*l,hi*h); lo,hi=min(v),max(v); i=j
        # outward by a relative amount; a bound of zero is exact
        k=2.0**-48
        return lo-abs(lo)*k,hi+abs(hi)*k
    def prange(self,p):
        lo=hi=0.0; mag=0.0; pos=neg=True
        for m,c in p.d.items():
            if not m:
                c=fl(c); lo+=c; hi+=c; mag+=abs(c)
                if c<0: pos=False
                else: neg=False
                continue
            l,h=self.mrange(m); c=fl(c)
            a,b=c*l,c*h
            if a>b: a,b=b,a
            lo+=a; hi+=b; mag+=max(abs(a),abs(b))
            if a<0: pos=False
            if b>0: neg=False
        g=mag*2.0**-45
        return (lo*(1-2.0**-45) if pos else lo-g),(hi*(1-2.0**-45) if neg else hi+g)
    def pmag(self,p):
        s=0.0
        for m,c in p.d.items():
            l,h=self.mrange(m); s+=abs(fl(c))*max(abs(l),abs(h))
        return s*UP
    def evalp(self,p,env=None):
        s=F(0)
        for m,c in p.d.items():
            for x in m: c=c*self.atoms[x].sample
            s+=c
        return s
    # ------------------------------------------------------------------ functions of polynomials
    def strip(self,p):
        """remove whole turns; returns the polynomial and the error made"""
        e=0.0; d=None
        for m,c in p.d.items():
            if len(m)==0 or (all(self.atoms[x].isint for x in m)):
                if m==() : 
                    k=round(c/TWOPI)
                    if k:
                        d=d or dict(p.d); d[()]=c-k*TWOPI
                        if not d[()]: del d[()]
                    continue
                k=round(c/TWOPI)
                r=c-k*TWOPI; l,h=self.mrange(m); w=abs(fl(r))*max(abs(l),abs(h))
                if w<=self.slack:
                    d=d or dict(p.d); del d[m]; e+=w
        return (Poly(d) if d is not None else p),e*UP
    def trigpoly(self,p):
        """sin and cos of a polynomial -> (sin poly, cos poly, error)"""
        p,e=self.strip(p)
        if p.isconst():
            c=p.const()
            if c==0: return self.const(0),self.const(1),e
            if abs(c)<10**6:
                import mpmath
                with mpmath.workdps(50):
                    x=mpmath.mpf(c.numerator)/c.denominator
                    return self.const(F(str(mpmath.sin(x)))),self.const(F(str(mpmath.cos(x)))),e+1e-30
        # arc tangents inside: addition theorem
        for m,c in list(p.d.items()):
            if len(m)==1 and self.atoms[m[0]].kind=='ang' and c.denominator==1 and abs(c)<=2:
                a=self.atoms[m[0]]; r=Poly(p.d.copy()); del r.d[m]
                sr,cr,e2=self.trigpoly(r); s,cc=a.arg
                for _ in range(abs(int(c))):
                    if c>0: sr,cr=sr*cc+cr*s,cr*cc-sr*s
                    else: sr,cr=sr*cc-cr*s,cr*cc+sr*s
                return sr,cr,e+e2
        v=self.evalp(p)
        k=round(v/TWOPI); f=float(v-k*TWOPI)
        B=1e-5
        for sg in(1,-1):
            key=round(sg*f/B)
            for kk in(key-1,key,key+1):
                for(i,q) in self.trig.get(kk,()):
                    dd,e3=self.strip(p-q if sg==1 else p+q)
                    w=self.pmag(dd)+e3
                    if w<=self.slack:
                        s=self.A(self.atoms[i]); c=self.A(self.atoms[self.atoms[i].partner])
                        return (s if sg==1 else -s),c,(e+w)*UP
        lo,hi=self.prange(p)
        slo,shi,clo,chi=-1.0,1.0,-1.0,1.0
        if -1.5<lo and hi<1.5:
            slo,shi=math.sin(lo)-1e-15,math.sin(hi)+1e-15
            slo=max(slo,-1.0); shi=min(shi,1.0)
            clo=min(math.cos(lo),math.cos(hi))-1e-15
            chi=1.0
        sv=math.sin(f); cv=math.cos(f)
        s=self.atom('sin',slo,shi,arg=p,sample=F(sv)); c=self.atom('cos',clo,chi,arg=p,sample=F(cv))
        s.partner=c.id; c.partner=s.id
        self.trig.setdefault(round(f/B),[]).append((s.id,p))
        return self.A(s),self.A(c),e
    def sin(self,p): 
        s,c,e=self.trigpoly(p)
        self.referr+=e
        return s
    def cos(self,p):
        s,c,e=self.trigpoly(p); self.referr+=e
        return c
    referr=0.0
    def pkey(self,p): return frozenset(p.d.items())
    def alg(self,kind,p):
        """sqrt or inverse atom of a polynomial, shared when the polynomials agree to 1e-13 relative coefficientwise;
        returns (atom, relative difference)"""
        key=(kind,frozenset(p.d))
        for(i,q) in self.algs.get(key,()):
            if all(abs(p.d[m]-q.d[m])<=F(1,10**13)*abs(q.d[m]) for m in p.d):
                return self.atoms[i],max([fl(abs(p.d[m]-q.d[m])/abs(q.d[m])) for m in p.d]+[0.0])
        lo,hi=self.prange(p)
        for(q,l,h) in self.assume:
            if p.d==q.d: lo=max(lo,fl(l)); hi=min(hi,fl(h))
        v=self.evalp(p)
        if kind=='sqrt':
            a=self.atom('sqrt',math.sqrt(max(lo,0.0))*(1-1e-15),math.sqrt(max(hi,0.0))*(1+1e-15),arg=p,sample=F(math.sqrt(abs(v))))
        else:
            if lo<=0<=hi: raise Unsupported('division by something that may vanish')
            a=self.atom('inv',min(1/lo,1/hi)*(1-1e-15) if lo>0 else min(1/lo,1/hi)*(1+1e-15),max(1/lo,1/hi)*(1+1e-15),arg=p,sample=1/v if v else F(1))
            ms=list(p.d)
            if len(ms)==1 and len(ms[0])==1 and p.d[ms[0]]==1:
                a.partner=ms[0][0]
        self.algs.setdefault(key,[]).append((a.id,p))
        return a,0.0
    def sqconst(self,p):
        """square root of the square of a rational"""
        if p.isconst() and p.const()>0:
            c=p.const(); r=F(math.isqrt(c.numerator),math.isqrt(c.denominator))
            if r*r==c: return self.const(r)
    def sqrtp(self,p):
        q=self.sqconst(p)
        if q is not None: return q
        a,r=self.alg('sqrt',p); self.referr+=r*max(abs(a.lo),abs(a.hi)); return self.A(a)
    def invp(self,p):
        if len(p.d)==1:
            (m,c),=p.d.items()
            if not m: return self.const(1/c)
            if c!=1:
                return self.invp(Poly({m:F(1)})).scale(1/c)
        a,r=self.alg('inv',p); self.referr+=r*max(abs(a.lo),abs(a.hi)); return self.A(a)
    def atan2p(self,y,x):
        """angle atom of (x,y); y or x nonzero is the caller's concern"""
        key=('atan2',self.pkey(y),self.pkey(x))
        if key in self.algs: return self.A(self.atoms[self.algs[key]])
        r=self.sqrtp(x*x+y*y); i=self.invp2(r)
        a=self.atom('ang',-math.pi,math.pi*(1+1e-15),arg=(y*i,x*i)); self.algs[key]=a.id
        return self.A(a)
    def invp2(self,r):
        """reciprocal of a square root that may come close to zero (guarded by the program)"""
        (m,c),=r.d.items(); key=('inv0',m[0])
        if key in self.algs: return self.A(self.atoms[self.algs[key]])
        b=self.atoms[m[0]]
        a=self.atom('inv',0.0,1/b.lo*(1+1e-15) if b.lo>1e-300 else 1e300,arg=r,sample=1/b.sample if b.sample else F(1)); a.partner=b.id
        self.algs[key]=a.id
        return self.A(a)
    def atanp(self,p):
        key=('atan',self.pkey(p))
        if key in self.algs: return self.A(self.atoms[self.algs[key]])
        if len(p.d)==1:
            # square root of a fraction N/D, D > 0: sine sqrt(N/(N+D)), cosine sqrt(D/(N+D))
            (m,c),=p.d.items(); b=self.atoms[m[0]]
            if len(m)==1 and c==1 and b.kind=='sqrt':
                R=b.arg; com=set.intersection(*[set(k) for k in R.d]) if R.d else set()
                for x in com:
                    v=self.atoms[x]
                    if v.kind!='inv' or v.lo<=0 or any(k.count(x)!=1 for k in R.d): continue
                    N_=Poly({tuple(y for y in k if y!=x):c for k,c in R.d.items()}); D=v.arg; S=N_+D
                    i=self.invp(self.sqrtp(S)) if not S.isconst() or S.const()!=1 else self.const(1)
                    a=self.atom('ang',0,math.pi/2*(1+1e-15),arg=(self.sqrtp(N_)*i,self.sqrtp(D)*i)); self.algs[key]=a.id
                    return self.A(a)
        i=self.invp(self.sqrtp(p*p+1))
        a=self.atom('ang',-math.pi/2*(1+1e-15),math.pi/2*(1+1e-15),arg=(p*i,i)); self.algs[key]=a.id
        return self.A(a)
    # ------------------------------------------------------------------ lowering
    def mk(self,p,rel,ab,lo,hi,round_=True):
        if round_:
            rel=(rel+U*(1+rel))*UP; ab=ab*(1+4*U)+TINY
        if len(p.d)<=6:
            a,b=self.prange(p)
            for(q,l,h) in self.assume:
                if p.d==q.d: a=max(a,fl(l)); b=min(b,fl(h))
            lo=max(lo,a-(rel*abs(a)+ab)*UP); hi=min(hi,b+(rel*abs(b)+ab)*UP)
            if lo>hi: lo,hi=min(lo,hi),max(lo,hi)
        if not(lo>-1e306 and hi<1e306): raise Unsupported('possible overflow')
        return V(p,rel,ab,lo,hi)
    def toabs(self,v):
        return V(v.p,0.0,v.err(),v.lo,v.hi)
    def lower(self,n):
        if type(n) is float:
            if n!=n or abs(n)==INF: raise Unsupported('constant %r'%n)
            return V(self.const(F(n)),0.0,0.0,n,n)
        if n.id in self.memo: return self.memo[n.id]
        uses=None
        todo=[n]
        order=[]
        # need-driven topological order (selected branches only)
        st=[(n,False)]; seen=set()
        while st:
            x,d=st.pop()
            if x.id in self.memo: continue
            if d:
                v=self.low1(x)
                if self.cap is not None and len(v.p.d)>self.cap: v=self.fresh(v)
                self.memo[x.id]=v; continue
            if x.id in seen: continue
            seen.add(x.id)
            r=self.hook(x) if self.hook else None
            if r is not None: self.memo[x.id]=r; continue
            st.append((x,True))
            if x.op=='ite' and x.ty=='f':
                c=self.decide(x.args[0]); y=x.args[1] if c else x.args[2]
                if type(y) is N: st.append((y,False))
                continue
            if x.ty=='f':
                for a in x.args:
                    if type(a) is N and a.ty=='f' and a.id not in self.memo: st.append((a,False))
        return self.memo[n.id]
    def g(self,a): return self.memo[a.id] if type(a) is N else self.lower(a)
    def fresh(self,v):
        """forget where a double comes from: a symbol of its own with the double's interval"""
        a=self.atom('var',F(v.lo),F(v.hi))
        return V(self.A(a),0.0,0.0,v.lo,v.hi)
    def trange(self,lo,hi):
        """ranges of sin and cos on [lo,hi]"""
        def rng(sh):
            # extrema of sin(x+sh) at pi/2 + k pi
            a,b=lo+sh,hi+sh
            if not(b-a<6.2) or max(abs(a),abs(b))>1e6: return -1.0,1.0
            k=math.ceil((a-math.pi/2)/math.pi-1e-9); l,h=min(math.sin(a),math.sin(b)),max(math.sin(a),math.sin(b))
            while math.pi/2+k*math.pi<=b+1e-9:
                if k%2: l=-1.0
                else: h=1.0
                k+=1
            return max(l-1e-9*(abs(l)!=1),-1.0),min(h+1e-9*(abs(h)!=1),1.0)
        return rng(0.0)+rng(math.pi/2)
    def optrig(self,n):
        """sine or cosine of a double without looking into it"""
        a=n.args[0]; sg=1
        while type(a) is N and a.op=='fneg': a=a.args[0]; sg=-sg
        x=self.g(a) if type(a) is N else self.lower(a)
        if type(a) is float and a<0: a=-a; sg=-sg; x=self.lower(a)
        k=a.id if type(a) is N else a
        if k not in self.ot:
            r=self.trange(x.lo,x.hi); f=self.rng.uniform(-3,3)
            s=self.atom('sin',r[0],r[1],arg=None,sample=F(math.sin(f))); c=self.atom('cos',r[2],r[3],arg=None,sample=F(math.cos(f)))
            s.partner=c.id; c.partner=s.id; self.ot[k]=(s,c)
        s,c=self.ot[k]
        if n.op=='cos': return V(self.A(c),0.0,LIBM,max(c.lo-LIBM,-1.0),min(c.hi+LIBM,1.0))
        lo,hi=(s.lo,s.hi) if sg==1 else (-s.hi,-s.lo)
        return V(self.A(s) if sg==1 else -self.A(s),0.0,LIBM,max(lo-LIBM,-1.0),min(hi+LIBM,1.0))
    def add(self,x,y,sg):
        p=x.p+y.p if sg==1 else x.p-y.p
        ylo,yhi=(y.lo,y.hi) if sg==1 else (-y.hi,-y.lo)
        lo,hi=x.lo+ylo,x.hi+yhi
        sx,sy=x.sign(),y.sign()*sg
        if (sx and sx==sy) or (x.rel==0 and y.rel==0): rel=max(x.rel,y.rel); ab=x.ab+y.ab
        elif not y.p.d and y.ab==0: rel=x.rel; ab=x.ab
        elif not x.p.d and x.ab==0: rel=y.rel; ab=y.ab
        else: rel=0.0; ab=x.err()+y.err()
        return self.mk(p,rel,ab,lo,hi)
    def low1(self,n):
        o=n.op; A=n.args
        if o=='var':
            if A[0] in self.inp: return self.inp[A[0]]
            raise Unsupported('input %s is not declared'%A[0])
        if o in('fadd','fsub'):
            x,y=self.g(A[0]),self.g(A[1])
            if o=='fsub' and type(A[1]) is N and A[1].op in('trunc','floor') and A[1].args[0] is A[0] and max(abs(x.lo),abs(x.hi))>=1:
                # the fraction of a double: exact for truncation, rounded once for the floor
                v=self.toabs(x); b=math.nextafter(1.0,0.0)
                if A[1].op=='trunc': return V(v.p-y.p,0.0,v.ab,-b if x.lo<0 else 0.0,b if x.hi>0 else 0.0)
                return V(v.p-y.p,0.0,v.ab+2.0**-53,0.0,1.0 if x.lo<0 else b)
            return self.add(x,y,1 if o=='fadd' else -1)
        if o=='fneg':
            x=self.g(A[0]); return V(-x.p,x.rel,x.ab,-x.hi,-x.lo)
        if o in('sitofp','uitofp'):
            lo,hi=self.irange(A[0])
            if max(abs(lo),abs(hi))>2**53 or (o=='uitofp' and lo<0): raise Unsupported('integer too large for an exact double')
            a=self.atom('var',F(lo),F(hi),sample=F(lo+(hi-lo)//3))
            return V(self.A(a),0.0,0.0,float(lo),float(hi))
        if o=='fmul':
            x,y=self.g(A[0]),self.g(A[1])
            if self.cap is not None and len(x.p.d)*len(y.p.d)>4*self.cap:
                same=x is y; x=self.fresh(x) if len(x.p.d)>1 else x; y=x if same else self.fresh(y) if len(y.p.d)>1 else y
            v=(x.lo*y.lo,x.lo*y.hi,x.hi*y.lo,x.hi*y.hi)
            lo,hi=min(v),max(v)
            if x is y: lo=max(lo,0.0)
            if x.p.isconst() and abs(x.p.const())==1 and x.rel==0==x.ab: return V(y.p*x.p,y.rel,y.ab,lo,hi)
            if y.p.isconst() and abs(y.p.const())==1 and y.rel==0==y.ab: return V(x.p*y.p,x.rel,x.ab,lo,hi)
            p=x.p*y.p
            rel=x.rel+y.rel+x.rel*y.rel
            # |xy - pq| <= rel |pq| + ab: cross terms of the absolute parts
            mx=x.mag()+x.err(); my=y.mag()+y.err()
            ab=(x.ab*my+y.ab*mx+x.ab*y.ab)*(1+rel)*UP
            return self.mk(p,rel,ab,lo,hi)
        if o=='fdiv':
            x,y=self.g(A[0]),self.g(A[1])
            if y.lo<=0<=y.hi: raise Unsupported('division by something that may vanish')
            v=(x.lo/y.lo,x.lo/y.hi,x.hi/y.lo,x.hi/y.hi); lo,hi=min(v),max(v)
            if y.p.isconst():
                i=self.const(1/y.p.const()); im=abs(fl(1/y.p.const())); er=0.0
                if y.rel==0 and y.ab==0:
                    return self.mk(x.p*i,x.rel,x.ab*im*UP,lo,hi)
            if x.p.d==y.p.d and x.p.d:
                i=None; p=self.const(1)
            else:
                sv=self.referr; self.referr=0.0
                i=self.invp(y.p); r0=self.referr*fl(max(abs(y.lo),abs(y.hi))); self.referr=sv
                p=x.p*i
            ymin=min(abs(y.lo),abs(y.hi)); py=(ymin-y.ab)/(1+y.rel)*(1-2.0**-45)
            if py<=0: raise Unsupported('division by something that may vanish')
            ry=(y.rel+y.ab/py)*UP          # relative error of the denominator
            if ry>=0.5: raise Unsupported('denominator too uncertain')
            rel=((1+x.rel)/(1-ry)-1)*UP+ (r0 if i is not None else 0.0)
            ab=x.ab/py/(1-ry)*UP
            return self.mk(p,rel,ab,lo,hi)
        if o=='frem':
            x,y=self.g(A[0]),self.g(A[1])
            if not(y.p.isconst() and y.rel==0 and y.ab==0): raise Unsupported('remainder by a variable')
            c=abs(y.p.const()); cf=fl(c)
            if max(abs(x.lo),abs(x.hi))<cf: return x
            k=math.ceil(max(abs(x.lo),abs(x.hi))/cf)+1
            q=self.atom('int',F(-k if x.lo<0 else 0),F(k if x.hi>0 else 0),isint=True)
            v=self.toabs(x)
            b=math.nextafter(cf,0.0)
            return V(v.p-self.A(q).scale(c),0.0,v.ab,-b if x.lo<0 else 0.0,b if x.hi>0 else 0.0)
        if o in('floor','ceil','trunc','rint','round','nearbyint','roundeven'):
            x=self.g(A[0]); g=getattr(math,o if o in('floor','ceil','trunc') else 'floor')
            lo,hi=float(math.floor(x.lo)),float(math.ceil(x.hi))
            q=self.atom('int',F(lo),F(hi),isint=True)
            return V(self.A(q),0.0,0.0,lo,hi)
        if o=='fabs':
            x=self.g(A[0])
            if x.lo>=0: return x
            if x.hi<=0: return V(-x.p,x.rel,x.ab,-x.hi,-x.lo)
            s=self.decide_sign(A[0])
            return V(x.p,x.rel,x.ab,max(x.lo,0.0),x.hi) if s else V(-x.p,x.rel,x.ab,max(-x.hi,0.0),-x.lo)
        if o in('sin','cos') and self.opaque: return self.optrig(n)
        if self.opaque and o in('atan','atan2','sqrt','acos'):
            x=self.g(A[0])
            if o=='sqrt':
                if x.lo<0: raise Unsupported('square root of something that may be negative')
                lo,hi=math.sqrt(x.lo)*(1-1e-15),math.sqrt(x.hi)*(1+1e-15)
            elif o=='atan2': self.g(A[1]); lo,hi=-math.pi,math.pi
            elif o=='acos': lo,hi=0.0,math.pi
            else: lo,hi=-math.pi/2,math.pi/2
            return self.fresh(V(None,0.0,0.0,lo,hi))
        if o in('sin','cos'):
            x=self.g(A[0]); s,c,e=self.trigpoly(x.p)
            ar=x.err()+e
            b=min(1.0,x.mag()) if o=='sin' else 1.0
            lo,hi=(-1.0,1.0)
            if -1.5<x.lo and x.hi<1.5:
                if o=='sin': lo,hi=math.sin(x.lo),math.sin(x.hi)
                else: lo=min(math.cos(x.lo),math.cos(x.hi))
                lo-=1e-15*b; hi=min(hi+1e-15*b,1.0)
            # sin x = x (1+..) keeps relative accuracy near zero; only the absolute bound is used
            if ar==0.0 and o=='sin' and b<1.0 and False: pass
            return V(s if o=='sin' else c,0.0,(ar+LIBM*b)*UP,lo,hi)
        if o=='sqrt':
            x=self.g(A[0])
            lo,hi=math.sqrt(max(x.lo,0.0)),math.sqrt(max(x.hi,0.0))
            if x.lo<0: raise Unsupported('square root of something that may be negative')
            q=self.sqconst(x.p); r=0.0
            if q is None: a,r=self.alg('sqrt',x.p); q=self.A(a)
            rel=x.rel/2*(1+x.rel)+r; ab=0.0
            if x.ab>0:
                # |sqrt(p(1+d)+e)-sqrt(p(1+d))| <= min(sqrt e, e/sqrt(lo))
                ab=math.sqrt(x.ab)
                if x.lo>0: ab=min(ab,x.ab/math.sqrt(x.lo))
            return self.mk(q,rel*UP,ab*UP,lo,hi)
        if o=='tan':
            raise Unsupported('tan')
        if o=='atan2':
            y,x=self.g(A[0]),self.g(A[1])
            if y.rel or y.ab or x.rel or x.ab:
                # relative errors of the two arguments move the angle by at most their sum
                if y.ab>TINY*4 or x.ab>TINY*4: raise Unsupported('atan2 of inexact arguments')
            return V(self.atan2p(y.p,x.p),0.0,(x.rel+y.rel)*UP+4*LIBM+1e-15,-math.pi,math.pi)
        if o=='atan':
            x=self.g(A[0]); p=self.atanp(x.p)
            lo,hi=math.atan(x.lo)*(1-1e-15)-1e-15,math.atan(x.hi)*(1+1e-15)+1e-15
            # atan' <= 1; a relative error r moves the angle by at most r/2
            return V(p,0.0,(x.rel*0.51+x.ab+2*LIBM)*UP,lo,hi)
        if o in('fmin','fmax','minnum','maxnum','minimumnum','maximumnum','minimum','maximum'):
            x,y=self.g(A[0]),self.g(A[1]); mn='min' in o
            if x.hi<=y.lo: return x if mn else y
            if y.hi<=x.lo: return y if mn else x
            k=('minmax',n.id)
            if type(A[0]) is N and type(A[1]) is N:
                # neither is below the other: equal
                if not any(self.sel.get(term.fcmp('olt',*w).id,True) for w in(A,A[::-1])): return x if mn else y
            if k not in self.sel: raise Split(k)
            z=x if self.sel[k] else y
            lo,hi=(min(x.lo,y.lo),min(x.hi,y.hi)) if mn else (max(x.lo,y.lo),max(x.hi,y.hi))
            return V(z.p,z.rel,z.ab,max(z.lo,lo),min(z.hi,hi))
        if o=='fma':
            x,y,z=[self.g(a) for a in A]
            w=self.low1_mul_exact(x,y); return self.add(w,z,1)
        if o=='ite': 
            c=self.decide(A[0]); return self.g(A[1] if c else A[2])
        raise Unsupported('operation %s'%o)
    def low1_mul_exact(self,x,y):
        v=(x.lo*y.lo,x.lo*y.hi,x.hi*y.lo,x.hi*y.hi)
        mx=x.mag()+x.err(); my=y.mag()+y.err()
        return V(x.p*y.p,x.rel+y.rel+x.rel*y.rel,(x.ab*my+y.ab*mx+x.ab*y.ab)*UP,min(v),max(v))
    # ------------------------------------------------------------------ conditions
    def decide_sign(self,n):
        k=('sign',n.id)
        if k in self.sel: return self.sel[k]
        raise Split(k)
    def decide(self,c):
        """truth of a condition: by intervals or by the current case"""
        if type(c) is int: return bool(c)
        if c.id in self.sel: return self.sel[c.id]
        r=self.decide1(c)
        if r is None: raise Split(c.id)
        self.sel[c.id]=r
        return r
    def irange(self,n,w=None):
        """signed range of an integer term (ranges of the integer inputs in self.iin)"""
        if type(n) is int: return (term.signed(n,w),)*2
        m=self.imemo
        if n.id in m: return m[n.id]
        for x in topo([n]):
            if x.id in m or x.ty=='f': continue
            w=x.ty; full=(-(1<<(w-1)),(1<<(w-1))-1) if w>1 else (0,1); r=None; o=x.op; A=x.args
            g=lambda a,aw=w: (term.signed(a,aw),)*2 if type(a) is int else m[a.id]
            if w==1: m[x.id]=full; continue
            if o=='var': r=self.iin.get(A[0])
            elif o=='add': a,b=g(A[0]),g(A[1]); r=(a[0]+b[0],a[1]+b[1])
            elif o=='sub': a,b=g(A[0]),g(A[1]); r=(a[0]-b[1],a[1]-b[0])
            elif o=='mul': a,b=g(A[0]),g(A[1]); v=[p*q for p in a for q in b]; r=(min(v),max(v))
            elif o=='sext': r=g(A[0],A[0].ty)
            elif o=='zext':
                a=g(A[0],A[0].ty); aw=A[0].ty; r=a if a[0]>=0 else (0,(1<<aw)-1)
            elif o=='trunc': r=g(A[0],A[0].ty)
            elif o in('sdiv','srem','udiv','urem') and type(A[1]) is int:
                a=g(A[0]); d=term.signed(A[1],w)
                if o[0]=='s' and d>0 or a[0]>=0 and d>0:
                    q=lambda z: abs(z)//d*(1 if z>=0 else -1)
                    r=(q(a[0]),q(a[1])) if o[1:]=='div' else (0 if a[0]>=0 else -min(d-1,-a[0]),min(d-1,a[1]) if a[1]>0 else 0)
            elif o=='ite':
                k=self.sel.get(A[0].id) if type(A[0]) is N else bool(A[0])
                a,b=g(A[1]),g(A[2]); r=a if k is True else b if k is False else (min(a[0],b[0]),max(a[1],b[1]))
            elif o in('fptosi','fptoui'):
                try: v=self.lower(A[0]); r=(math.trunc(v.lo),math.trunc(v.hi))
                except (Unsupported,Split): r=None
                if r and o=='fptoui' and r[0]<0: r=None
            if r is None or r[0]<full[0] or r[1]>full[1]:
                r=full
            m[x.id]=r
        return m[n.id]
    def decide1(self,c):
        if c.op=='icmp':
            k,w,a,b=c.args
            if w==1: return None
            x,y=self.irange(a,w),self.irange(b,w)
            if k[0]=='u':
                if x[0]<0 or y[0]<0: return None
                k='s'+k[1:]
            if k=='slt': return True if x[1]<y[0] else False if x[0]>=y[1] else None
            if k=='sle': return True if x[1]<=y[0] else False if x[0]>y[1] else None
            if k=='sgt': return True if x[0]>y[1] else False if x[1]<=y[0] else None
            if k=='sge': return True if x[0]>=y[1] else False if x[1]<y[0] else None
            if x[1]<y[0] or y[1]<x[0]: return k=='ne'
            if x[0]==x[1]==y[0]==y[1]: return k=='eq'
            return None
        if c.op=='ovf':
            o,w,a,b=c.args; x,y=self.irange(a,w),self.irange(b,w)
            v={'add':[x[0]+y[0],x[1]+y[1]],'sub':[x[0]-y[1],x[1]-y[0]],'mul':[p*q for p in x for q in y]}[o[1:]]
            lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if o[0]=='s' else (0,(1<<w)-1)
            if o[0]=='u' and (x[0]<0 or y[0]<0): return None
            return False if lo<=min(v) and max(v)<=hi else None
        if c.op=='fcmp':
            p,a,b=c.args
            try: x,y=self.lower(a),self.lower(b)
            except Unsupported: return None
            if p=='uno': return False
            if p=='ord': return True
            k=p[1:]
            if k=='lt': return True if x.hi<y.lo else False if x.lo>=y.hi else None
            if k=='le': return True if x.hi<=y.lo else False if x.lo>y.hi else None
            if k=='gt': return True if x.lo>y.hi else False if x.hi<=y.lo else None
            if k=='ge': return True if x.lo>=y.hi else False if x.hi<y.lo else None
            if k in('eq','ne'):
                if x.hi<y.lo or y.hi<x.lo: return k=='ne'
                if x.lo==x.hi==y.lo==y.hi: return k=='eq'
                return None
            return None
        if c.op in('and','or','xor') and c.ty==1:
            a=self.decide1b(c.args[0]); b=self.decide1b(c.args[1])
            if c.op=='and':
                if a is False or b is False: return False
                if a and b: return True
            elif c.op=='or':
                if a or b: return True
                if a is False and b is False: return False
            elif a is not None and b is not None: return a!=b
        return None
    def decide1b(self,c):
        if type(c) is int: return bool(c)
        if c.id in self.sel: return self.sel[c.id]
        return self.decide1(c)
    def tighten(self,conds):
        """narrow the range of doubles compared with constants"""
        for c,b in conds:
            if type(c) is not N or c.op!='fcmp': continue
            p,x,y=c.args; k=p[1:]
            if type(x) is float: x,y=y,x; k={'lt':'gt','le':'ge','gt':'lt','ge':'le'}.get(k,k)
            if type(x) is not N or type(y) is not float: continue
            if not b: k={'lt':'ge','le':'gt','gt':'le','ge':'lt'}.get(k)
            if k is None: continue
            try: v=self.lower(x)
            except (Unsupported,Split): continue
            if k in('lt','le'): v.hi=min(v.hi,y)
            elif k in('gt','ge'): v.lo=max(v.lo,y)
            elif k=='eq': v.lo=max(v.lo,y); v.hi=min(v.hi,y)
    def facts(self,conds):
        """what comparisons of doubles that went one way say about the polynomials"""
        out=[]
        for c,b in conds:
            if type(c) is not N or c.op!='fcmp': continue
            p,x,y=c.args
            try: x,y=self.lower(x),self.lower(y)
            except (Unsupported,Split): continue
            k=p[1:]; e=F(x.err()+y.err())
            if k in('lt','le'): up=b
            elif k in('gt','ge'): up=not b
            elif k=='eq' and b: out.append((x.p-y.p,-e,e)); continue
            else: continue
            out.append((x.p-y.p,None,e) if up else (x.p-y.p,-e,None))
        return out
    # ------------------------------------------------------------------ errors relative to the terms
    def rlower(self,n):
        """(P,E): |n - P(x)| <= E(|x|), E a polynomial with coefficients >= 0 in the magnitudes"""
        m=self.__dict__.setdefault('rmemo',{})
        u=F(1,2**53)
        ab=lambda p: Poly({k:abs(c) for k,c in p.d.items()})
        def rnd(p,e,t=True): return p,(e*(1+u)+ab(p)*u+(F(1,2**1074) if t else 0))
        def g(a): return (self.const(F(a)),Poly()) if type(a) is float else m[a.id]
        if type(n) is float: return g(n)
        for x in topo([n]):
            if x.id in m: continue
            o=x.op; A=x.args
            if o=='var': r=(self.inp[A[0]].p,Poly())
            elif o=='fneg': p,e=g(A[0]); r=(-p,e)
            elif o in('fadd','fsub'):
                (p,e),(q,f)=g(A[0]),g(A[1])
                if not q.d and not f.d: r=(p,e)
                elif not p.d and not e.d: r=(q if o=='fadd' else -q,f)
                else: r=rnd(p+q if o=='fadd' else p-q,e+f,False)
            elif o=='fmul':
                (p,e),(q,f)=g(A[0]),g(A[1])
                if q.isconst() and abs(q.const())==1 and not f.d: r=(p*q,e)
                elif p.isconst() and abs(p.const())==1 and not e.d: r=(p*q,f)
                elif (not p.d and not e.d) or (not q.d and not f.d): r=(Poly(),Poly())
                else: r=rnd(p*q,ab(p)*f+e*ab(q)+e*f)
            elif o=='fma':
                (p,e),(q,f),(s,h)=map(g,A); r=rnd(p*q+s,ab(p)*f+e*ab(q)+e*f+h)
            elif o=='fdiv' and g(A[1])[0].isconst() and not g(A[1])[1].d:
                (p,e),(q,_)=g(A[0]),g(A[1]); c=1/q.const(); r=rnd(p.scale(c),e.scale(abs(c)))
            else: raise Unsupported('operation %s in a polynomial of the inputs'%o)
            m[x.id]=r
        return m[n.id]
    def rresidual(self,p,e,tol,timeout=20000):
        """|p| + e(|x|) <= tol(|x|) for all magnitudes?"""
        t0=time.time(); S=relax.STATS; s=z3.Solver(); s.set('timeout',timeout); vs={}
        def v(m):
            if not m: return z3.RealVal(1)
            if m not in vs: vs[m]=z3.Real('M%d'%len(vs)); s.add(vs[m]>=0)
            return vs[m]
        L=lambda p: z3.Sum([z3.RealVal(0)]+[relax.q(abs(c))*v(m) for m,c in p.d.items()])
        s.add(L(p)+L(e)>L(tol)); r=str(s.check())
        S.queries+=1; S.time+=time.time()-t0; setattr(S,r,getattr(S,r)+1)
        return r
    # ------------------------------------------------------------------ derivative
    def diff(self,p,x):
        """derivative with respect to the symbol with atom id x"""
        memo={}
        def da(i):
            if i==x: return self.const(1)
            if i in memo: return memo[i]
            a=self.atoms[i]
            if a.kind in('sin','cos'):
                dp=self.diff(a.arg,x); o=self.A(self.atoms[a.partner])
                r=o*dp if a.kind=='sin' else -(o*dp)
            elif a.kind in('var','int'): r=self.const(0)
            else: raise Unsupported('derivative of %s'%a.kind)
            memo[i]=r; return r
        out=Poly()
        for m,c in p.d.items():
            for k in range(len(m)):
                if k and m[k]==m[k-1]: continue
                mult=m.count(m[k])
                d=da(m[k])
                if not d.d: continue
                rest=Poly({m[:k]+m[k+1:]:c*mult})
                out.iadd(rest*d)
        return out
    def collapse(self,p,width=1e-12):
        """replace symbols that hardly vary by a constant -> (polynomial, error)"""
        nar={a.id for a in self.atoms if a.kind!='int' and fl(a.hi)-fl(a.lo)<=width}
        r={}; e=0.0
        for m,c in p.d.items():
            rest=tuple(x for x in m if x not in nar)
            if len(rest)<len(m):
                l,h=self.mrange(tuple(x for x in m if x in nar)); mid=F((l+h)/2); g=(h-l)*UP
                b=max(map(abs,self.mrange(rest))) if rest else 1.0
                e+=abs(fl(c))*g*b*UP+1e-300; c=c*mid
            r[rest]=r.get(rest,F(0))+c
        return Poly({m:c for m,c in r.items() if c}),e*UP
    # ------------------------------------------------------------------ the solver
    def residual(self,p,err,tol,label='',axioms=False,timeout=20000,extra=(),facts=()):
        """is |p| + err <= tol for every value of the atoms?  -> (verdict, note)"""
        t0=time.time(); S=relax.STATS
        s=z3.Solver(); s.set('timeout',timeout)
        tot=z3.Real('err'); e=F(err)*(1+F(1,2**40)); cs=[tot<=relax.q(e),tot>=relax.q(-e)]
        terms=[tot]; small=F(0); vs={}
        if axioms:
            def av(i):
                if i not in vs:
                    a=self.atoms[i]; v=z3.Real('a%d'%i); vs[i]=v
                    cs.append(v>=relax.q(F(a.lo))); cs.append(v<=relax.q(F(a.hi)))
                    if a.kind in('sin','cos'):
                        w=av(a.partner)
                        if a.kind=='sin': cs.append(v*v+w*w==1)
                    elif a.kind=='sqrt': cs.append(v*v==pz(a.arg)); cs.append(v>=0)
                    elif a.kind=='inv': cs.append(v*pz(a.arg)==1)
                return vs[i]
            def pz(p):
                out=[]
                for m,c in p.d.items():
                    t=relax.q(c)
                    for i in m: t=t*av(i)
                    out.append(t)
                return z3.Sum(out) if out else z3.RealVal(0)
            terms.append(pz(p))
            for(fp,l,h) in facts:
                if l is not None: cs.append(pz(fp)>=relax.q(F(l)))
                if h is not None: cs.append(pz(fp)<=relax.q(F(h)))
            for q,l,h in self.assume: cs.append(pz(q)>=relax.q(F(l))); cs.append(pz(q)<=relax.q(F(h)))
            for f in extra: cs.append(f(pz))
        else:
            # monomials that cannot matter together are folded into the error before the query
            ws=[]
            for m,c in p.d.items():
                if not m: terms.append(relax.q(c)); continue
                l,h=self.mrange(m); ws.append((abs(fl(c))*max(abs(l),abs(h))*UP,m,c,l,h))
            mvs={}; keep={m for f in facts for m in f[0].d}
            ws.sort(key=lambda w:(w[1] in keep,w[0])); lim=fl(tol)*1e-3; acc=0.0; n=0
            while n<len(ws) and ws[n][1] not in keep and (acc+ws[n][0])*UP<=lim: acc=(acc+ws[n][0])*UP; n+=1
            small+=F(acc)
            for k,(w,m,c,l,h) in enumerate(ws[n:]):
                # short coefficients; what is cut goes to the error
                cc=F(fl(c)); small+=abs(c-cc)*F(max(abs(l),abs(h)))
                v=z3.Real('m%d'%k); mvs[m]=v; cs+=[v>=relax.q(F(l)),v<=relax.q(F(h))]; terms.append(relax.q(cc)*v)
            for(fp,l,h) in facts:
                fs=[]
                for m,c in fp.d.items():
                    if not m: fs.append(relax.q(c)); continue
                    if m not in mvs:
                        a,b=self.mrange(m); v=z3.Real('f%d'%len(mvs)); mvs[m]=v; cs+=[v>=relax.q(F(a)),v<=relax.q(F(b))]
                    fs.append(relax.q(c)*mvs[m])
                fs=z3.Sum(fs) if fs else z3.RealVal(0)
                if l is not None: cs.append(fs>=relax.q(F(l)))
                if h is not None: cs.append(fs<=relax.q(F(h)))
        sm=z3.Sum(terms); tl=relax.q(F(tol)-small)
        s.add(*cs); s.add(z3.Or(sm>tl,sm<-tl))
        r=str(s.check()); dt=time.time()-t0
        S.queries+=1; S.time+=dt; setattr(S,r,getattr(S,r)+1)
        return r
