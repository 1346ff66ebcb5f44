"""Lowering of terms to linear (and, where needed, nonlinear) integer/real arithmetic for z3.

Machine integers are exact (wrap-around is represented by an integer carry).  A double is a real in
which every rounded operation carries its own error variable e with |e| <= u*|exact result|
(u = 2^-53, plus half the smallest subnormal for products and quotients); the fact that rounding is
monotone is instantiated at a set of representable thresholds, and operations whose exact result is
provably a representable number carry no error.  The lowering over-approximates the code: unsat means
no input within the domain violates the assertion; sat gives a candidate that is replayed."""
from fractions import Fraction as F
import math, time, struct
import z3
from . import term
from .term import N
from .ll import Unsupported

U=F(1,2**53)
ETA=F(1,2**1075)
FMAX=F((2**53-1)*2**971)
BIG=F(2)**1100

class Stats:
    def __init__(self): self.queries=0; self.unsat=0; self.sat=0; self.unknown=0; self.time=0.0; self.log=[]
STATS=Stats()

def q(x):
    """z3 rational from Fraction"""
    x=F(x)
    return z3.RealVal(x.numerator) if x.denominator==1 else z3.Q(x.numerator,x.denominator)

class Atom:
    __slots__=('z','lo','hi','isint','cons','deps','name','idx','grid')

class LF:
    """linear form: const + sum coef*atom"""
    __slots__=('c','t','_k')
    def __init__(self,c=0,t=None): self.c=F(c); self.t=t or {}; self._k=None
    def key(self):
        if self._k is None: self._k=(self.c,tuple(sorted(self.t.items())))
        return self._k
    def __add__(a,b):
        if not isinstance(b,LF): return LF(a.c+F(b),a.t)
        t=dict(a.t)
        for k,v in b.t.items():
            w=t.get(k,0)+v
            if w: t[k]=w
            else: t.pop(k,None)
        return LF(a.c+b.c,t)
    __radd__=__add__
    def scale(a,s):
        s=F(s)
        return LF(a.c*s,{k:v*s for k,v in a.t.items()}) if s else LF(0)
    def __sub__(a,b): return a+(b.scale(-1) if isinstance(b,LF) else -F(b))
    def __rsub__(a,b): return a.scale(-1)+b
    def __neg__(a): return a.scale(-1)
    def __mul__(a,s):
        if isinstance(s,LF):
            if not s.t: return a.scale(s.c)
            if not a.t: return s.scale(a.c)
            raise Unsupported('LF product')
        return a.scale(s)
    __rmul__=__mul__
    def __truediv__(a,s): return a.scale(1/F(s))
    def isconst(a): return not a.t

class B:
    """boolean: z3 expression plus the atoms it mentions"""
    __slots__=('e','a')
    def __init__(self,e,a): self.e=e; self.a=a
    def __and__(s,o): return B(z3.And(s.e,o.e),s.a|o.a)
    def __or__(s,o): return B(z3.Or(s.e,o.e),s.a|o.a)
    def __invert__(s): return B(z3.Not(s.e),s.a)
    def implies(s,o): return B(z3.Implies(s.e,o.e),s.a|o.a)
TRUE=B(z3.BoolVal(True),frozenset()); FALSE=B(z3.BoolVal(False),frozenset())

def AND(*bs):
    bs=[b for b in bs if b is not TRUE]
    if not bs: return TRUE
    return B(z3.And([b.e for b in bs]),frozenset().union(*[b.a for b in bs]))
def OR(*bs):
    if not bs: return FALSE
    return B(z3.Or([b.e for b in bs]),frozenset().union(*[b.a for b in bs]))

def round_dir(x,up):
    """Fraction -> nearest double Fraction in direction (over-approximation for interval ends)"""
    return x

class Relax:
    def __init__(self,dom,thresholds=(),timeout=20000,feas_timeout=4000,exact=False):
        """dom: var name -> (lo,hi) inclusive"""
        self.dom=dom; self.atoms=[]; self.cache={}; self.lfc={}
        self.thr=sorted({F(x) for x in thresholds}|{F(0),F(1),F(-1)})
        self.timeout=timeout; self.ft=feas_timeout
        self.exact=exact                  # exact real arithmetic (no error variables)
        self.bcache={}; self.ivc={}; self.intbase={}
        self.feas_cache={}
        self.nerr=0
    # ---------------------------------------------------------- atoms
    def atom(self,name,lo,hi,isint=False,grid=None):
        a=Atom(); a.idx=len(self.atoms); a.name='%s_%d'%(name,a.idx)
        a.z=z3.Int(a.name) if isint else z3.Real(a.name)
        a.lo=F(lo) if lo is not None else -BIG; a.hi=F(hi) if hi is not None else BIG
        if isint: a.lo=F(math.ceil(a.lo)); a.hi=F(math.floor(a.hi))
        a.isint=isint; a.cons=[]; a.deps=set(); a.grid=0 if isint else grid
        if lo is not None and a.lo>-BIG: a.cons.append(a.z>=(z3.IntVal(int(a.lo)) if isint else q(a.lo)))
        if hi is not None and a.hi<BIG: a.cons.append(a.z<=(z3.IntVal(int(a.hi)) if isint else q(a.hi)))
        self.atoms.append(a)
        return a
    def con(self,a,b):
        """attach constraint b (B) to atom a"""
        if b is TRUE: return
        a.cons.append(b.e); a.deps|=b.a
    def A(self,a): return LF(0,{a.idx:F(1)})
    def z(self,lf):
        terms=[]; allint=lf.c.denominator==1
        for k,v in lf.t.items():
            at=self.atoms[k]
            if not(at.isint and v.denominator==1): allint=False
        if allint:
            for k,v in lf.t.items():
                at=self.atoms[k]; terms.append(at.z if v==1 else z3.IntVal(v.numerator)*at.z)
            if lf.c or not terms: terms.append(z3.IntVal(lf.c.numerator))
        else:
            for k,v in lf.t.items():
                at=self.atoms[k]; x=z3.ToReal(at.z) if at.isint else at.z
                terms.append(x if v==1 else q(v)*x)
            if lf.c or not terms: terms.append(q(lf.c))
        return z3.Sum(terms) if len(terms)>1 else terms[0]
    def iv(self,lf):
        lo=hi=lf.c
        for k,v in lf.t.items():
            a=self.atoms[k]
            if v>0: lo+=v*a.lo; hi+=v*a.hi
            else: lo+=v*a.hi; hi+=v*a.lo
        b=self.ivc.get(lf.key())
        if b: lo=max(lo,b[0]); hi=min(hi,b[1])
        return lo,hi
    def setiv(self,lf,lo,hi):
        k=lf.key(); b=self.ivc.get(k)
        if b: lo=max(lo,b[0]); hi=min(hi,b[1])
        self.ivc[k]=(lo,hi)
    def cmp(self,l,op,r=0):
        """B for l op r"""
        if not isinstance(l,LF): l=LF(l)
        d=l-(r if isinstance(r,LF) else LF(r))
        lo,hi=self.iv(d)
        if op=='<':
            if hi<0: return TRUE
            if lo>=0: return FALSE
        elif op=='<=':
            if hi<=0: return TRUE
            if lo>0: return FALSE
        elif op=='>':
            if lo>0: return TRUE
            if hi<=0: return FALSE
        elif op=='>=':
            if lo>=0: return TRUE
            if hi<0: return FALSE
        elif op=='==':
            if lo==hi==0: return TRUE
            if lo>0 or hi<0: return FALSE
        elif op=='!=':
            if lo==hi==0: return FALSE
            if lo>0 or hi<0: return TRUE
        # clear denominators for all-integer forms
        if d.t and all(self.atoms[k].isint for k in d.t):
            m=1
            for v in list(d.t.values())+[d.c]: m=m*v.denominator//math.gcd(m,v.denominator)
            d=d.scale(m)
        c=d.c; d0=LF(0,d.t); zl=self.z(d0)
        rr=z3.IntVal(int(-c)) if (zl.sort()==z3.IntSort() and c.denominator==1) else q(-c)
        e={'<':zl<rr,'<=':zl<=rr,'>':zl>rr,'>=':zl>=rr,'==':zl==rr,'!=':zl!=rr}[op]
        return B(e,frozenset(d.t))
    def absle(self,l,bound):
        """|l| <= bound (LF or number)"""
        bd=bound if isinstance(bound,LF) else LF(bound)
        return AND(self.cmp(l,'<=',bd),self.cmp(l,'>=',-bd))
    def grid(self,lf):
        """largest g with every value a multiple of 2^g, or None"""
        g=None
        def v2(x):
            if x==0: return None
            d=x.denominator
            if d&(d-1): return 'bad'
            n=x.numerator; e=-(d.bit_length()-1)
            e+=(n&-n).bit_length()-1
            return e
        for k,v in list(lf.t.items())+[(None,lf.c)]:
            e=v2(v)
            if e is None: continue
            if e=='bad': return None
            if k is not None:
                ag=self.atoms[k].grid
                if ag is None: return None
                e+=ag
            g=e if g is None else min(g,e)
        return 2000 if g is None else g
    # ---------------------------------------------------------- rounding
    def rnd(self,s,mul=False,exact=False):
        """the double nearest to the real s"""
        if self.exact or exact: return s
        lo,hi=self.iv(s)
        if s.isconst():
            return LF(F(float(s.c)) if abs(s.c)<FMAX else s.c)
        m=max(abs(lo),abs(hi))
        g=self.grid(s)
        if g is not None and m<=F(2)**(53+g): return s
        k=('rnd',s.key())
        r=self.lfc.get(k)
        if r is not None: return r
        if m>=FMAX: m=max(m,FMAX)
        e=self.atom('e',-(U*m+(ETA if mul else 0)),U*m+(ETA if mul else 0))
        self.nerr+=1
        eL=self.A(e); r=s+eL
        if lo>=0: bound=s*U; self.con(e,self.absle(eL,bound+(ETA if mul else 0)))
        elif hi<=0: bound=s*(-U); self.con(e,self.absle(eL,bound+(ETA if mul else 0)))
        else:
            ex=ETA if mul else 0
            self.con(e,AND(self.cmp(s,'>=').implies(self.absle(eL,s*U+ex)),self.cmp(s,'<=').implies(self.absle(eL,s*(-U)+ex))))
        for c in self.thr:
            if lo<c<hi or c in(lo,hi):
                self.con(e,AND(self.cmp(s,'<=',c).implies(self.cmp(r,'<=',c)),self.cmp(s,'>=',c).implies(self.cmp(r,'>=',c))))
        if self.hgrid and not mul and m<2**51:
            # half-integers are doubles here, and rounding is monotone
            ip,pl,ph=self.intpart(s,F(1,2))
            if ip is None: h=self.A(self.atom('h',math.floor(2*lo),math.floor(2*hi),True))
            else: h=ip+self.A(self.atom('h',math.floor(2*pl),math.floor(2*ph),True))
            self.con(e,AND(self.cmp(s*2,'>=',h),self.cmp(s*2,'<',h+1),self.cmp(r*2,'>=',h),self.cmp(r*2,'<=',h+1)))
        rl=lo-abs(lo)*U-ETA; rh=hi+abs(hi)*U+ETA
        # ends are clipped when representable
        if g is None:
            if F(float(lo) if abs(lo)<FMAX else 0)==lo: rl=lo
            if F(float(hi) if abs(hi)<FMAX else 0)==hi: rh=hi
        self.setiv(r,rl,rh)
        self.lfc[k]=r
        return r
    # ---------------------------------------------------------- quotient atoms
    def intpart(self,x,c):
        """integer atoms of x/c (so that a quotient becomes their sum plus a local integer); None if useless"""
        t={k:F(round(v/c)) for k,v in x.t.items() if self.atoms[k].isint and abs(v/c-round(v/c))<F(1,10**9) and round(v/c)}
        if not t: return None,0,0
        ip=LF(0,t); lo,hi=self.iv(x); rl,rh=self.iv(x-ip*c)
        if rh-rl>=hi-lo: return None,0,0
        return ip,rl,rh
    def divmod_trunc(self,x,c):
        """integer atom q with x - c*q = remainder of the truncated division (c > 0 Fraction)"""
        k=('tq',x.key(),c); r=self.lfc.get(k)
        if r is not None: return r
        lo,hi=self.iv(x)
        if lo>-c and hi<c: r=LF(0); self.lfc[k]=r; return r
        ip,rl,rh=self.intpart(x,c)
        if ip is None: a=self.atom('q',math.trunc(lo/c),math.trunc(hi/c),True); ql=self.A(a)
        else:
            a=self.atom('q',math.floor(rl/c),math.ceil(rh/c),True); a.deps|=set(ip.t); ql=ip+self.A(a)
            self.setiv(ql,F(math.trunc(lo/c)),F(math.trunc(hi/c)))
        rem=x-ql*c
        P=AND(self.cmp(ql,'>='),self.cmp(rem,'>='),self.cmp(rem,'<',c))
        M=AND(self.cmp(ql,'<='),self.cmp(rem,'<='),self.cmp(rem,'>',-c))
        if lo>=0: self.con(a,P)
        elif hi<=0: self.con(a,M)
        else: self.con(a,AND(self.cmp(x,'>=').implies(P),self.cmp(x,'<').implies(M)))
        self.setiv(rem,-c if lo<0 else F(0),c if hi>0 else F(0))
        self.lfc[k]=ql
        return ql
    def floordiv(self,x,c):
        k=('fl',x.key(),c); r=self.lfc.get(k)
        if r is not None: return r
        lo,hi=self.iv(x)
        if math.floor(lo/c)==math.floor(hi/c): return LF(math.floor(lo/c))
        ip,rl,rh=self.intpart(x,c)
        if ip is None: a=self.atom('fl',math.floor(lo/c),math.floor(hi/c),True); ql=self.A(a)
        else:
            a=self.atom('fl',math.floor(rl/c),math.floor(rh/c),True); a.deps|=set(ip.t); ql=ip+self.A(a)
            self.setiv(ql,F(math.floor(lo/c)),F(math.floor(hi/c)))
        rem=x-ql*c
        self.con(a,AND(self.cmp(rem,'>='),self.cmp(rem,'<',c)))
        self.setiv(rem,F(0),c)
        self.lfc[k]=ql
        return ql
    def rounded(self,x):
        g=self.grid(x)
        if g is not None and g>=0: return x
        k=('ro',x.key()); r=self.lfc.get(k)
        if r is not None: return r
        lo,hi=self.iv(x); h=F(1,2)
        rl=math.floor(lo+h); rh=math.floor(hi+h)+1
        ip,pl,ph=self.intpart(x,F(1))
        if ip is None: a=self.atom('k',rl-1,rh,True); kl=self.A(a)
        else:
            a=self.atom('k',math.floor(pl-h),math.floor(ph+h)+1,True); a.deps|=set(ip.t); kl=ip+self.A(a)
            self.setiv(kl,F(rl-1),F(rh))
        d=x-kl
        P=AND(self.cmp(d,'>=',-h),self.cmp(d,'<',h)); M=AND(self.cmp(d,'>',-h),self.cmp(d,'<=',h))
        if lo>=0: self.con(a,P)
        elif hi<=0: self.con(a,M)
        else: self.con(a,AND(self.cmp(x,'>=').implies(P),self.cmp(x,'<').implies(M)))
        self.lfc[k]=kl
        return kl
    def wrap(self,s,w,sg=True):
        """signed representative of s modulo 2^w and the carry"""
        lo,hi=self.iv(s); L=-(1<<(w-1)) if sg else 0; H=(1<<(w-1))-1 if sg else (1<<w)-1
        if lo>=L and hi<=H: return s,LF(0)
        k=('wr',s.key(),w,sg); r=self.lfc.get(k)
        if r is not None: return r
        a=self.atom('c',math.floor((lo-L)/(1<<w)),math.floor((hi-L)/(1<<w)),True); kl=self.A(a)
        v=s-kl*(1<<w)
        self.con(a,AND(self.cmp(v,'>=',L),self.cmp(v,'<=',H)))
        self.setiv(v,F(L),F(H))
        self.lfc[k]=(v,kl)
        return v,kl
    def ite(self,b,x,y,name='s'):
        if b is TRUE: return x
        if b is FALSE: return y
        if x.key()==y.key(): return x
        l1,h1=self.iv(x); l2,h2=self.iv(y)
        isint=all(self.grid(v) is not None and self.grid(v)>=0 for v in(x,y))
        a=self.atom(name,min(l1,l2),max(h1,h2),isint); r=self.A(a)
        if not isint:
            g1,g2=self.grid(x),self.grid(y)
            if g1 is not None and g2 is not None: a.grid=min(g1,g2)
        self.con(a,AND(b.implies(self.cmp(r,'==',x)),(~b).implies(self.cmp(r,'==',y))))
        return r
    def mul(self,x,y):
        if x.isconst() or y.isconst(): return x*y
        kx,ky=x.key(),y.key()
        k=('mul',min(kx,ky),max(kx,ky)); r=self.lfc.get(k)
        if r is not None: return r
        l1,h1=self.iv(x); l2,h2=self.iv(y)
        ps=[l1*l2,l1*h2,h1*l2,h1*h2]; lo,hi=min(ps),max(ps)
        if kx==ky: lo=max(lo,F(0))
        isint=all(self.grid(v) is not None and self.grid(v)>=0 for v in(x,y))
        a=self.atom('m',lo,hi,isint); r=self.A(a)
        a.cons.append(a.z==self.z(x)*self.z(y)); a.deps|=set(x.t)|set(y.t)
        g1,g2=self.grid(x),self.grid(y)
        if g1 is not None and g2 is not None: a.grid=g1+g2
        self.lfc[k]=r
        return r
    def div(self,x,y):
        if y.isconst():
            if y.c==0: raise Unsupported('division by zero')
            return x/y.c
        k=('div',x.key(),y.key()); r=self.lfc.get(k)
        if r is not None: return r
        l1,h1=self.iv(x); l2,h2=self.iv(y)
        lo=hi=None
        if l2>0 or h2<0:
            ps=[l1/l2,l1/h2,h1/l2,h1/h2]; lo,hi=min(ps),max(ps)
        a=self.atom('d',lo,hi); r=self.A(a)
        a.cons.append(self.z(r)*self.z(y)==z3.ToReal(self.z(x)) if self.z(x).sort()==z3.IntSort() else self.z(r)*self.z(y)==self.z(x)); a.deps|=set(x.t)|set(y.t)
        self.lfc[k]=r
        return r
    def sqrt(self,x):
        k=('sqrt',x.key()); r=self.lfc.get(k)
        if r is not None: return r
        lo,hi=self.iv(x)
        up=lambda v: F(math.isqrt(int(v*2**120))+1,2**60); dn=lambda v:F(math.isqrt(int(v*2**120)),2**60)
        a=self.atom('r',dn(max(lo,F(0))),up(max(hi,F(0)))); r=self.A(a)
        a.cons.append(a.z*a.z==self.z(x)); a.deps|=set(x.t)
        self.lfc[k]=r
        return r
    def opaque(self,name,args,lo,hi):
        k=(name,)+tuple(x.key() for x in args); r=self.lfc.get(k)
        if r is not None: return r
        a=self.atom(name,lo,hi); r=self.A(a); self.lfc[k]=r
        for x in args: a.deps|=set(x.t)
        return r
    # ---------------------------------------------------------- lowering of terms
    def low(self,n):
        """term of float or int type -> LF (ints in signed representation)"""
        if type(n) is float:
            if n!=n or math.isinf(n): raise Unsupported('non-finite constant in relax')
            return LF(F(n))
        if type(n) is int: raise Unsupported('untyped int')
        r=self.cache.get(n.id)
        if r is not None: return r
        for x in term.topo([n]):
            if x.id not in self.cache and not(x.ty==1):
                self.cache[x.id]=self.low1(x)
                if x.ty=='f':
                    lo,hi=self.iv(self.cache[x.id])
        return self.cache[n.id]
    def li(self,a,w):
        if type(a) is int: return LF(term.signed(a,w))
        if a.ty==1:
            b=self.bool(a)
            if b is TRUE: return LF(1)
            if b is FALSE: return LF(0)
            k=('b2i',a.id); r=self.lfc.get(k)
            if r is None: r=self.ite(b,LF(1),LF(0),'b'); self.lfc[k]=r
            return r
        return self.low(a)
    def lu(self,a,w):
        """unsigned value of an int"""
        s=self.li(a,w)
        if type(a) is N and a.ty==1: return s
        lo,hi=self.iv(s)
        if lo>=0: return s
        if hi<0: return s+(1<<w)
        return self.ite(self.cmp(s,'>='),s,s+(1<<w),'u')
    cuts={}; hgrid=False
    def low1(self,n):
        o=n.op; A=n.args; ty=n.ty
        if n.id in self.cuts:
            lo,hi=self.cuts[n.id]
            return self.A(self.atom('cut',lo,hi,ty!='f'))
        if o=='var':
            lo,hi=self.dom[A[0]][:2]
            a=self.atom(A[0],lo,hi,ty!='f')
            if len(self.dom[A[0]])>2: a.grid=self.dom[A[0]][2]
            return self.A(a)
        if ty=='f':
            if o in('fadd','fsub'):
                x,y=self.low(A[0]),self.low(A[1])
                s=x+y if o=='fadd' else x-y
                lx,hx=self.iv(x); ly,hy=self.iv(y)
                if o=='fsub': ly,hy=-hy,-ly
                self.setiv(s,lx+ly,hx+hy)
                r=self.rnd(s)
                gx,gy=self.grid(x),self.grid(y)
                for v,w,gw in((x,y,gy),(y,x,gx)):
                    if gw is not None and gw>=0 and not v.isconst():
                        if v is y and o=='fsub': v=-v
                        S=self.intbase.get(v.key(),v)
                        if r is not s and r.key()!=s.key(): self.exactint(s,r,S)
                        if r.key() not in self.intbase: self.intbase[r.key()]=S; self.intbase[(-r).key()]=-S
                        break
                return r
            if o=='fmul':
                x,y=self.low(A[0]),self.low(A[1]); s=self.mul(x,y)
                p2=any(v.isconst() and v.c!=0 and self.pow2(abs(v.c)) for v in(x,y))
                if p2 : 
                    lo,hi=self.iv(s)
                    c=x.c if x.isconst() else y.c
                    if abs(c)>=1: return s
                return self.rnd(s,True)
            if o=='fdiv':
                x,y=self.low(A[0]),self.low(A[1]); s=self.div(x,y)
                if y.isconst() and self.pow2(abs(y.c)) and abs(y.c)<=1: return s
                return self.rnd(s,True)
            if o=='frem':
                x,y=self.low(A[0]),self.low(A[1])
                if not y.isconst() or y.c==0: raise Unsupported('frem by a variable')
                c=abs(y.c); r=x-self.divmod_trunc(x,c)*c
                if c.denominator==1 and r.key() not in self.intbase: self.intbase[r.key()]=self.intbase.get(x.key(),x)
                return r
            if o=='fneg': return -self.low(A[0])
            if o=='fabs':
                x=self.low(A[0]); lo,hi=self.iv(x)
                if lo>=0: return x
                if hi<=0: return -x
                k=('abs',x.key()); r=self.lfc.get(k)
                if r is None:
                    a=self.atom('abs',0,max(-lo,hi)); a.grid=self.grid(x); r=self.A(a)
                    self.con(a,AND(self.cmp(x,'>=').implies(self.cmp(r,'==',x)),self.cmp(x,'<').implies(self.cmp(r,'==',-x))))
                    self.lfc[k]=r
                return r
            if o=='trunc': return self.divmod_trunc(self.low(A[0]),F(1))
            if o=='floor': return self.floordiv(self.low(A[0]),F(1))
            if o=='ceil': return -self.floordiv(-self.low(A[0]),F(1))
            if o=='round': return self.rounded(self.low(A[0]))
            if o=='rint':
                x=self.low(A[0])
                g=self.grid(x)
                if g is not None and g>=0: return x
                lo,hi=self.iv(x); a=self.atom('ri',math.floor(lo-1),math.ceil(hi+1),True); r=self.A(a)
                self.con(a,self.absle(x-r,F(1,2))); return r
            if o=='sqrt': return self.rnd(self.sqrt(self.low(A[0])))
            if o in('sitofp','uitofp'):
                w=A[0].ty
                return self.rnd(self.li(A[0],w) if o=='sitofp' else self.lu(A[0],w))
            if o in('sin','cos'): return self.opaque(o,[self.low(A[0])],-1,1)
            if o=='atan': return self.opaque(o,[self.low(A[0])],-2,2)
            if o in('acos','asin','atan2'): return self.opaque(o,[self.low(x) for x in A],-4,4)
            if o=='ite': return self.ite(self.bool(A[0]),self.low(A[1]),self.low(A[2]))
            if o=='fma':
                x,y,z=[self.low(v) for v in A]; return self.rnd(self.mul(x,y)+z,True)
            if o=='copysign':
                x=self.low(term.fun('fabs',A[0])) if not(type(A[0]) is float) else LF(abs(F(A[0])))
                # the sign of zero is not represented: both signs are possible at zero
                s=self.low(A[1]); b=self.cmp(s,'<')
                z=self.cmp(s,'==')
                fz=B(z3.Bool('sz_%d'%n.id),frozenset())
                return self.ite(OR(b,AND(z,fz)),-x,x)
            if o in('minnum','minimum','minimumnum','maxnum','maximum','maximumnum'):
                x,y=[self.low(v) for v in A]; c=self.cmp(x,'<',y)
                return self.ite(c,x,y) if o.startswith('min') else self.ite(c,y,x)
            if o in('tan','pow','exp','log','hypot','cbrt'): return self.opaque(o,[self.low(x) for x in A],None,None)
            raise Unsupported('relax: '+o)
        w=ty
        if o in('add','sub','mul'):
            x,y=self.li(A[0],w),self.li(A[1],w)
            s=x+y if o=='add' else x-y if o=='sub' else self.mul(x,y)
            lx,hx=self.iv(x); ly,hy=self.iv(y)
            if o=='add': self.setiv(s,lx+ly,hx+hy)
            elif o=='sub': self.setiv(s,lx-hy,hx-ly)
            return self.wrap(s,w)[0]
        if o in('sdiv','srem'):
            x,y=self.li(A[0],w),self.li(A[1],w)
            if not y.isconst() or y.c==0: raise Unsupported('division by a variable')
            qq=self.divmod_trunc(x,abs(y.c))
            if o=='srem': return x-qq*abs(y.c)
            return qq if y.c>0 else -qq
        if o in('udiv','urem'):
            x,y=self.lu(A[0],w),self.lu(A[1],w)
            if not y.isconst() or y.c==0: raise Unsupported('division by a variable')
            qq=self.floordiv(x,y.c); r=qq if o=='udiv' else x-qq*y.c
            return self.wrap(r,w)[0]
        if o=='shl' and type(A[1]) is int: return self.wrap(self.li(A[0],w)*(1<<A[1]),w)[0]
        if o=='ashr' and type(A[1]) is int: return self.floordiv(self.li(A[0],w),F(1<<A[1]))
        if o=='lshr' and type(A[1]) is int: return self.wrap(self.floordiv(self.lu(A[0],w),F(1<<A[1])),w)[0]
        if o=='and' and type(A[1]) is int and (A[1]+1)&A[1]==0:
            x=self.li(A[0],w); m=A[1]+1; return x-self.floordiv(x,F(m))*m
        if o=='xor' and type(A[1]) is int and A[1]==(1<<w)-1: return -self.li(A[0],w)-1
        if o=='ite':
            return self.ite(self.bool(A[0]),self.li(A[1],w),self.li(A[2],w))
        if o=='sext':
            x=self.li(A[0],A[0].ty)
            return -x if A[0].ty==1 else x
        if o=='zext': return self.lu(A[0],A[0].ty)
        if o=='trunc':
            return self.wrap(self.li(A[0],A[0].ty),w)[0]
        if o in('fptosi','fptoui'):
            x=self.low(A[0]); t=self.divmod_trunc(x,F(1))
            L,H=(-(1<<(w-1)),(1<<(w-1))-1) if o=='fptosi' else (0,(1<<w)-1)
            lo,hi=self.iv(t)
            if lo<L: t=self.ite(self.cmp(t,'<',L),LF(L),t)
            if hi>H: t=self.ite(self.cmp(t,'>',H),LF(H),t)
            return self.wrap(t,w)[0]
        if o in('and','or','xor','d2i','signbit'):
            a=self.atom('bv',-(1<<(w-1)),(1<<(w-1))-1,True)   # over-approximation
            return self.A(a)
        raise Unsupported('relax: '+o)
    def pow2(self,c): return c.numerator&(c.numerator-1)==0 and c.denominator&(c.denominator-1)==0
    def bool(self,n):
        if type(n) is int: return TRUE if n else FALSE
        r=self.bcache.get(n.id)
        if r is None: r=self.bool1(n); self.bcache[n.id]=r
        return r
    def bool1(self,n):
        o=n.op; A=n.args
        if o=='fcmp':
            p=A[0]
            if p in('ord','uno'): return TRUE if p=='ord' else FALSE
            x,y=self.low(A[1]),self.low(A[2])
            if y.isconst() and not x.isconst(): self.gap(x,y.c)
            elif x.isconst() and not y.isconst(): self.gap(y,x.c)
            return self.cmp(x,{'eq':'==','ne':'!=','lt':'<','le':'<=','gt':'>','ge':'>='}[p[1:]],y)
        if o=='icmp':
            p,w,a,b=A
            if p[0]=='u': x,y=self.lu(a,w),self.lu(b,w)
            else: x,y=self.li(a,w),self.li(b,w)
            return self.cmp(x,{'eq':'==','ne':'!=','lt':'<','le':'<=','gt':'>','ge':'>='}[p[-2:]],y)
        if o=='ovf':
            k,w,a,b=A
            sg=k[0]=='s'
            x,y=(self.li(a,w),self.li(b,w)) if sg else (self.lu(a,w),self.lu(b,w))
            s=x+y if k[1:]=='add' else x-y if k[1:]=='sub' else self.mul(x,y)
            lx,hx=self.iv(x); ly,hy=self.iv(y)
            if k[1:]=='add': self.setiv(s,lx+ly,hx+hy)
            elif k[1:]=='sub': self.setiv(s,lx-hy,hx-ly)
            v,c=self.wrap(s,w,sg)
            return self.cmp(c,'!=')
        if o=='and': return AND(self.bool(A[0]),self.bool(A[1]))
        if o=='or': return OR(self.bool(A[0]),self.bool(A[1]))
        if o=='xor':
            a=self.bool(A[0]); b=self.bool(A[1])
            if b is TRUE: return self.neg(a)
            return B(z3.Xor(a.e,b.e),a.a|b.a)
        if o=='ite':
            c,a,b=[self.bool(x) for x in A]; return B(z3.If(c.e,a.e,b.e),c.a|a.a|b.a)
        if o=='trunc':
            x=self.li(A[0],A[0].ty); return self.cmp(x-self.floordiv(x,F(2))*2,'==',1)
        if o=='var': return B(z3.Bool(A[0]),frozenset())
        raise Unsupported('relax bool: '+o)
    def exactint(self,s,r,S):
        """s differs from the double S by an integer: when |s| <= |S| < 2^53 it is a multiple of the unit of S, hence a double"""
        lo,hi=self.iv(S)
        if max(abs(lo),abs(hi))>=2**53: return
        ks=set(r.t)-set(s.t)
        if len(ks)!=1: return
        e=self.atoms[ks.pop()]
        k=('xi',e.idx)
        if k in self.lfc: return
        self.lfc[k]=True
        ok=OR(AND(self.cmp(s,'>='),self.cmp(s,'<=',S)),AND(self.cmp(s,'<='),self.cmp(s,'>=',S)),AND(self.cmp(s,'>='),self.cmp(s,'<=',-S)),AND(self.cmp(s,'<='),self.cmp(s,'>=',-S)))
        self.con(e,ok.implies(self.cmp(self.A(e),'==')))
    def gap(self,x,c):
        """x is a double: it equals c or keeps one unit away from it"""
        k=('gap',x.key(),c)
        if self.exact or k in self.lfc or c==0: return
        self.lfc[k]=True
        d=float(c)
        if F(d)!=c or self.grid(x) is not None: return
        lo,hi=self.iv(x)
        if not lo<=c<=hi: return
        a=self.atoms[max(x.t)]
        self.con(a,OR(self.cmp(x,'<=',F(math.nextafter(d,-math.inf))),self.cmp(x,'==',c),self.cmp(x,'>=',F(math.nextafter(d,math.inf)))))
    def neg(self,b):
        if b is TRUE: return FALSE
        if b is FALSE: return TRUE
        return ~b
    def conds(self,cond):
        out=[]
        for n,v in cond:
            b=self.bool(n)
            out.append(b if v else self.neg(b))
        return out
    # ---------------------------------------------------------- queries
    def query(self,bs,timeout=None,tag=''):
        """satisfiability of the conjunction; returns ('sat',model)|('unsat',None)|('unknown',None)"""
        if any(b is FALSE for b in bs): bs=[FALSE]
        s=z3.Solver(); s.set('timeout',timeout or self.timeout)
        need=set(); st=[]
        for b in bs: s.add(b.e); st.extend(b.a)
        while st:
            k=st.pop()
            if k in need: continue
            need.add(k); a=self.atoms[k]
            for c in a.cons: s.add(c)
            st.extend(a.deps)
        t=time.time(); r=str(s.check()); dt=time.time()-t
        STATS.queries+=1; STATS.time+=dt
        setattr(STATS,r,getattr(STATS,r)+1)
        return r,(s.model() if r=='sat' else None)
    def query_cvc5(self,bs,timeout=None):
        import subprocess,tempfile,os
        s=z3.Solver(); need=set(); st=[]
        for b in bs: s.add(b.e); st.extend(b.a)
        while st:
            k=st.pop()
            if k in need: continue
            need.add(k); a=self.atoms[k]
            for c in a.cons: s.add(c)
            st.extend(a.deps)
        t=time.time()
        fd,path=tempfile.mkstemp(suffix='.smt2'); os.write(fd,s.to_smt2().encode()); os.close(fd)
        try:
            r=subprocess.run(['cvc5','--tlimit=%d'%(timeout or self.timeout),path],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=(timeout or self.timeout)/1000+10).stdout.split('\n')[0].strip()
        except Exception: r='unknown'
        os.unlink(path)
        STATS.queries+=1; STATS.time+=time.time()-t
        if r!='unsat': r='unknown'
        setattr(STATS,r,getattr(STATS,r)+1)
        return r,None
    def inputs(self,model,names=None):
        """values of the input variables in a model (Fractions)"""
        out={}
        for a in self.atoms:
            nm=a.name.rsplit('_',1)[0]
            if nm in self.dom and (names is None or nm in names):
                v=model.eval(a.z,model_completion=True)
                out[nm]=modelval(v)
        return out
    # feasibility interface for the executor
    def __call__(self,cond,c,val):
        b=self.bool(c); b=b if val else self.neg(b)
        if b is TRUE or b is FALSE: 
            if b is FALSE: return False
            return True
        key=(tuple((n.id,v) for n,v in cond),c.id,val)
        r=self.feas_cache.get(key)
        if r is None:
            r=self.query(self.conds(cond)+[b],self.ft)[0]!='unsat'
            self.feas_cache[key]=r
        return r
    def value(self,cond,n,w):
        x=self.li(n,w)
        key=(tuple((m.id,v) for m,v in cond),n.id)
        if key in self.feas_cache: return self.feas_cache[key]
        r,m=self.query(self.conds(cond)+[B(z3.BoolVal(True),frozenset(x.t))],self.ft)
        if r!='sat': 
            if r=='unknown': raise Unsupported('cannot enumerate an index')
            v=None
        else: v=term.mask(int(modelval(m.eval(self.z(x),model_completion=True))),w)
        self.feas_cache[key]=v
        return v

def modelval(v):
    if z3.is_int_value(v): return F(v.as_long())
    if z3.is_rational_value(v): return F(v.numerator_as_long(),v.denominator_as_long())
    if z3.is_algebraic_value(v): 
        a=v.approx(30); return F(a.numerator_as_long(),a.denominator_as_long())
    try: return F(str(v))
    except Exception: return F(0)
