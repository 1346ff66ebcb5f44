"""Vectors and matrices."""
import math, itertools, time
from fractions import Fraction as F
import z3
from vt import symex, term, relax, poly, polycheck
from vt.term import var, N
from vt.ll import Unsupported
from vt.check import Entry, Verdict, feq
from vt.polycheck import *
from vt.poly import Poly, Ctx, Split
from .series import LIB

def mags(rng,lo=-152,hi=152):
    k=rng.randrange(8)
    if k==0: return 0.0
    if k==1: return float(rng.randint(-3,3))
    if k<5: return rng.uniform(-10,10)
    if k==5 and lo<=-152: return rng.choice([-1,1])*10.0**rng.uniform(-300,hi)
    return rng.choice([-1,1])*10.0**rng.uniform(lo,hi)
def vec(rng,lo=-152,hi=152):
    k=rng.randrange(4)
    if k==0: return [rng.uniform(-1,1) for _ in range(3)]
    if k==1: return [float(rng.randint(-2,2)) for _ in range(3)]
    s=10.0**rng.uniform(lo,hi-1)
    if k==2: return [rng.uniform(-1,1)*s for _ in range(3)]
    return [mags(rng,lo,hi) for _ in range(3)]
def names(n): return ['v%d'%k for k in range(n)]
def mk(name,n,i=()): return Entry(name,[var(x,'f') for x in names(n)],i)
def corp(n,gen,cnt=1500):
    def c(rng):
        for _ in range(cnt):
            x=gen(rng)
            yield dict(zip(names(n),x))
    return c
def fr(x): return [F(v) for v in x]
def dotf(a,b): return sum((x*y for x,y in zip(a,b)),F(0))
U=F(1,2**53); TI=F(1,10**300)

def relative(ck,en,n,lim,ref,tol,oracle,corpus,tag,paths=None):
    """outputs are polynomials of the inputs up to an error relative to the terms; ref(x)->[(label,index,poly,tolerance poly)]"""
    ck.target(en,oracle,corpus)
    def setup(ctx):
        for k in names(n): ctx.input(k,-lim,lim)
    ps=paths or ck.explore(en,IvFeas(setup)); tasks=[]
    for k,p in enumerate(ps):
        def run(p=p,k=k):
            if p.outcome=='panic': return [Verdict('%s path %d cannot panic'%(tag,k),'sat')]
            ctx=Ctx(); setup(ctx); out=[]
            for lab,idx,rp,tp in ref(ctx,[ctx.inp[x].p for x in names(n)]):
                pp,e=ctx.rlower(p.out[0][idx]); out.append(Verdict('%s path %d: %s'%(tag,k,lab),ctx.rresidual(pp-rp,e,tp+TI)))
            return out
        tasks.append((tag,run))
    vs=ck.run(tasks)
    ck.settle(en,vs,oracle,corpus)
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(corpus(ck.rng),40)),oracle=oracle)
    return ps
def aab(p): return Poly({k:abs(c) for k,c in p.d.items()})

# ------------------------------------------------------------------ V01
def v01_vals(x):
    a,b,c=x[:3],x[3:6],x[6]
    out=[(-v,0) for v in a]+[(c*v,abs(c*v)) for v in a]+[(u+v,abs(u)+abs(v)) for u,v in zip(a,b)]+[(u-v,abs(u)+abs(v)) for u,v in zip(a,b)]
    return out+[(dotf(a,b),dotf(map(abs,a),map(abs,b)))]
VN=['negation %s','scaling %s','sum %s','difference %s']
def v01_oracle(f,i,r):
    if any(not abs(x)<=1e152 for x in f[:7]): return None
    if r[0]=='panic': return 'vector operations on %r panic'%(f[:7],)
    for k,(e,t) in enumerate(v01_vals(fr(f[:7]))):
        v=r[1][k]; lab=VN[k//3]%'XYZ'[k%3] if k<12 else 'dot product'
        if not abs(v)<=1e300 or abs(F(v)-e)>4*U*t+TI: return '%s of %r, %r, factor %r is %r, expected %r'%(lab,f[:3],f[3:6],f[6],v,float(e))
def v01_norm(f,i,r):
    if any(not abs(x)<=1e152 for x in f[:3]): return None
    if r[0]=='panic': return 'norm of %r panics'%(f[:3],)
    n=mp.sqrt(mp.mpf(1)*sum(mp.mpf(x)**2 for x in f[:3])); v=r[1][0]
    if not v<=1e300 or abs(mp.mpf(v)-n)>mp.mpf(1e-15)*n+mp.mpf(1e-153): return 'norm of %r is %r'%(f[:3],v)
def v01_unit(f,i,r):
    if any(not abs(x)<=1e152 for x in f[:3]): return None
    n=mp.sqrt(sum(mp.mpf(x)**2 for x in f[:3]))
    if not 1e-152<=n<=1e152: return None
    if r[0]=='panic': return 'normalising %r panics'%(f[:3],)
    for k in range(3):
        e=mp.mpf(f[k])/n; v=r[1][k]
        if not abs(v)<=2 or abs(mp.mpf(v)-e)>1e-15*abs(e)+mp.mpf(10)**-153: return 'normalising %r: component %d is %r, expected %s'%(f[:3],k,v,mp.nstr(e,18))
def query(label,cs,timeout=20000):
    """unsat expected"""
    t0=time.time(); S=relax.STATS; s=z3.Solver(); s.set('timeout',timeout); s.add(*cs); r=str(s.check())
    S.queries+=1; S.time+=time.time()-t0; setattr(S,r,getattr(S,r)+1)
    return Verdict(label,r)
def relquery(label,v,rel,ab,hi):
    """|e| <= v.rel n + v.ab implies |e| <= rel n + ab for 0 <= n <= hi"""
    n,e=z3.Reals('n e'); q=relax.q
    b=q(F(v.rel))*n+q(F(v.ab)); c=q(F(rel))*n+q(F(ab))
    return query(label,[n>=0,n<=q(F(hi)),e<=b,e>=-b,z3.Or(e>c,e<-c)])
NORM2=(F(10)**-304,F(10)**304)
def V01(ck):
    ck.bounds.append('all components of magnitude at most 1e152; errors at most 4 units of 2^-53 of the terms (sums of magnitudes), 1e-15 of the norm')
    c7=corp(7,lambda r:vec(r)+vec(r)+[mags(r)]); c3=corp(3,vec)
    def ref(ctx,x):
        a,b,c=x[:3],x[3:6],x[6]; out=[]; z=Poly()
        for k in range(3): out.append((VN[0]%'XYZ'[k],k,-a[k],z))
        for k in range(3): out.append((VN[1]%'XYZ'[k],3+k,c*a[k],(c*a[k])*(4*U)))
        for k in range(3): out.append((VN[2]%'XYZ'[k],6+k,a[k]+b[k],(a[k]+b[k])*(4*U)))
        for k in range(3): out.append((VN[3]%'XYZ'[k],9+k,a[k]-b[k],(a[k]+b[k])*(4*U)))
        d=a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; out.append(('dot product',12,d,d*(4*U)))
        return out
    relative(ck,mk('h_vec_ops',7),7,10**152,ref,None,v01_oracle,c7,'')
    # norm and normalisation
    en=mk('h_vec_norm',3); ck.target(en,v01_norm,c3); tasks=[]
    def setup(ctx):
        for k in names(3): ctx.input(k,-10**152,10**152)
    def setup2(ctx):
        x=[ctx.input(k,-10**152,10**152) for k in names(3)]; ctx.assume.append((x[0]*x[0]+x[1]*x[1]+x[2]*x[2],)+NORM2)
    ps=ck.explore(en,IvFeas(setup))
    for k,p in enumerate(ps):
        def fn(ctx,p):
            if p.outcome=='panic': return [(None,None)]
            x=[ctx.inp[k].p for k in names(3)]; n=ctx.sqrtp(x[0]*x[0]+x[1]*x[1]+x[2]*x[2])
            return [(ctx.lower(p.out[0][0]),n)]
        for ctx,v,n in cases(setup,p,fn):
            def run(ctx=ctx,v=v,n=n,k=k):
                if v is None: return [Verdict('norm path %d cannot panic'%k,'sat')]
                Ctx.cur=ctx
                return [Verdict('norm path %d is sqrt of the sum of squares'%k,ctx.residual(v.p-n,0,0)),relquery('norm path %d: rounding'%k,v,1e-15,1e-153,10**153)]
            tasks.append(('norm',run))
    vs=ck.run(tasks); ck.settle(en,vs,v01_norm,c3)
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(c3(ck.rng),100)),oracle=v01_norm)
    en=mk('h_vec_normalize',3); ck.target(en,v01_unit,c3); tasks=[]
    ps=ck.explore(en,IvFeas(setup2))
    for k,p in enumerate(ps):
        def fn(ctx,p):
            if p.outcome=='panic': return [(None,None,0)]
            x=[ctx.inp[k].p for k in names(3)]; i=ctx.invp(ctx.sqrtp(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]))
            return [(ctx.lower(p.out[0][j]),x[j]*i,j) for j in range(3)]
        for ctx,v,n,j in cases(setup2,p,fn):
            def run(ctx=ctx,v=v,n=n,j=j,k=k):
                if v is None: return [Verdict('normalise path %d cannot panic'%k,'sat')]
                Ctx.cur=ctx
                return [Verdict('normalise path %d component %d is the component over the norm'%(k,j),ctx.residual(v.p-n,0,0)),relquery('normalise path %d component %d: rounding'%(k,j),v,1e-15,1e-153,2)]
            tasks.append(('normalise',run))
    def lemma():
        x=z3.Reals('x0 x1 x2'); e=z3.Reals('e0 e1 e2'); t=relax.q(F(1,10**15)); o=[]
        n2=sum(a*a for a in x); m2=sum((a*(1+b))*(a*(1+b)) for a,b in zip(x,e))
        # sum x_i^2 (1+e_i)^2 lies between (1-t)^2 and (1+t)^2 times sum x_i^2, termwise
        y=z3.Reals('y0 y1 y2'); cs=[n2==1]
        w=[z3.Real('w%d'%k) for k in range(3)]; s2=[z3.Real('s%d'%k) for k in range(3)]
        cs=[sum(s2)==1]
        for k in range(3): cs+=[s2[k]>=0,w[k]<=s2[k]*(1+t)*(1+t),w[k]>=s2[k]*(1-t)*(1-t)]
        return [query('a vector with these components has norm 1 to 1e-15',cs+[z3.Or(sum(w)>(1+t)*(1+t),sum(w)<(1-t)*(1-t))])]
    tasks.append(('lemma',lemma))
    vs=ck.run(tasks); ck.settle(en,vs,v01_unit,c3)
    if not ck.violations: ck.validate(en,ps,[e for e in itertools.islice(c3(ck.rng),200) if 1e-140<max(abs(v) for v in e.values())<1e140][:60],oracle=v01_unit)

# ------------------------------------------------------------------ V02
ATOL=6e-15
def v02_oracle(f,i,r):
    a,b=f[:3],f[3:6]
    if any(not abs(x)<=1e152 for x in f[:6]): return None
    na,nb=[mp.sqrt(sum(mp.mpf(x)**2 for x in v)) for v in(a,b)]
    if not(1e-152<=na<=1e152 and 1e-152<=nb<=1e152): return None
    call='angle(%r,%r)'%(a,b)
    if r[0]=='panic': return call+' panics'
    v=r[1][0]
    if not 0<=v<=math.pi: return '%s = %r'%(call,v)
    c=sum(mp.mpf(x)*mp.mpf(y) for x,y in zip(a,b))/na/nb
    if abs(mp.cos(mp.mpf(v))-c)>2*ATOL: return '%s = %r, whose cosine is off by %s'%(call,v,mp.nstr(mp.cos(mp.mpf(v))-c,5))
def v02_corpus(rng):
    for _ in range(3000):
        a=vec(rng,-152,152); k=rng.randrange(4); b=vec(rng,-152,152)
        if k==0: b=[x*rng.choice([1,-1,2,-2,3,0.1,-7,1e10]) for x in a]
        elif k==1: b=list(a)
        elif k==2: z=10**rng.uniform(-17,0); b=[x*(1+rng.choice([0,1,-1,.3])*z) for x in a]
        yield dict(zip(names(6),a+b))
def V02(ck):
    ck.bounds.append('all pairs of vectors with components of magnitude at most 1e152 and norms in [1e-152,1e152]; cosine to 6e-15')
    ck.assumptions.append('the platform acos maps [-1,1] into [0, pi] and acos(x) has cosine x to 2e-15')
    en=mk('h_vec_angle',6); ck.target(en,v02_oracle,v02_corpus)
    def setup(ctx):
        x=[ctx.input(k,-10**152,10**152) for k in names(6)]
        ctx.sq=[x[j]*x[j]+x[j+1]*x[j+1]+x[j+2]*x[j+2] for j in(0,3)]
        for s in ctx.sq: ctx.assume.append((s,)+NORM2)
        i=[ctx.invp(ctx.sqrtp(s)) for s in ctx.sq]
        ctx.c=(x[0]*x[3]+x[1]*x[4]+x[2]*x[5])*i[0]*i[1]
    ps=ck.explore(en,IvFeas(setup)); tasks=[]
    swapped=Entry('h_vec_angle',en.f[3:]+en.f[:3]); ps2=ck.explore(swapped,IvFeas(setup))
    for tag,pp in(('',ps),('arguments exchanged, ',ps2)):
        for k,p in enumerate(pp):
            def fn(ctx,p,k=k,tag=tag):
                t='%spath %d'%(tag,k)
                if p.outcome=='panic': return [(t+' cannot panic',None,None)]
                o=p.out[0][0]
                if type(o) is float:
                    c=float(mp.cos(mp.mpf(o))); return [(t,poly.V(ctx.const(F(c)),0.0,1e-16,c,c),[])] if 0<=o<=math.pi else [(t+': constant %r'%o,o,None)]
                if o.op!='acos': raise Unsupported('the angle is not an arc cosine')
                a=o.args[0]; v=ctx.lower(a)
                return [(t,v,list(ctx.sel.items()))]
            for ctx,lab,v,sel in cases(setup,p,fn):
                def run(ctx=ctx,lab=lab,v=v,sel=sel,p=p):
                    Ctx.cur=ctx
                    if v is None or type(v) is float: return [Verdict(lab,'sat')]
                    ids={c.id:c for c in topo([p.out[0][0]]) if c.op=='fcmp'}
                    fs=ctx.facts([(ids[c],b) for c,b in sel if c in ids]+[(c,b) for c,b in p.cond])
                    fs.append((ctx.c,F(-1),F(1)))
                    out=[Verdict(lab+': argument of acos within [-1,1]','unsat' if -1<=v.lo and v.hi<=1 else 'sat')]
                    # through the solver as well: the interval of the double
                    x=z3.Real('x'); out[0]=query(out[0].label,[x>=relax.q(F(v.lo)),x<=relax.q(F(v.hi)),z3.Or(x>1,x<-1)])
                    out.append(Verdict(lab+': cosine is the normalised dot product',ctx.residual(v.p-ctx.c,v.err(),F(ATOL),facts=fs)))
                    return out
                tasks.append((lab,run))
    def cs():
        a=z3.Reals('a0 a1 a2'); b=z3.Reals('b0 b1 b2')
        # Lagrange: |a|^2 |b|^2 - (a.b)^2 is the squared length of the cross product
        p=(a[1]*b[2]-a[2]*b[1]); q=a[2]*b[0]-a[0]*b[2]; r=a[0]*b[1]-a[1]*b[0]
        l=sum(x*x for x in a)*sum(x*x for x in b)-sum(x*y for x,y in zip(a,b))*sum(x*y for x,y in zip(a,b))-(p*p+q*q+r*r)
        d=z3.simplify(l,som=True); x,y,z=z3.Reals('p q r'); t,n=z3.Reals('t n')
        return [query('the normalised dot product is within [-1,1]: Lagrange identity',[d!=0]),query('hence its square is at most 1',[n>0,n-t*t==x*x+y*y+z*z,t*t>n])]
    tasks.append(('Cauchy-Schwarz',cs))
    vs=ck.run(tasks); ck.settle(en,vs,v02_oracle,v02_corpus)
    if not ck.violations: ck.validate(en,ps,[e for e in itertools.islice(v02_corpus(ck.rng),400) if all(1e-140<max(abs(e['v%d'%(j+q)]) for q in range(3))<1e140 for j in(0,3))][:100],oracle=v02_oracle)

# ------------------------------------------------------------------ M01
def mm(a,b): return [[sum(a[i][k]*b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def m9(x): return [list(x[0:3]),list(x[3:6]),list(x[6:9])]
def exact(name,n,vals,lab):
    def oracle(f,i,r):
        if any(not abs(x)<=1e152 for x in f[:n]): return None
        if r[0]=='panic': return '%s of %r panics'%(lab,f[:n])
        for k,(e,t) in enumerate(vals(fr(f[:n]))):
            v=r[1][k]
            if not abs(v)<=1e300 or abs(F(v)-e)>4*U*t+TI: return '%s of %r: element %d is %r, expected %r'%(lab,f[:n],k,v,float(e))
    return oracle
def comp_vals(x): a,b=m9(x),m9(x[9:]); A,B=m9(list(map(abs,x[:9]))),m9(list(map(abs,x[9:18]))); return list(zip(sum(mm(a,b),[]),sum(mm(A,B),[])))
def app_vals(x):
    a=m9(x); v=x[9:12]
    return [(sum(v[k]*a[k][j] for k in range(3)),sum(abs(v[k]*a[k][j]) for k in range(3))) for j in range(3)]
def tr_vals(x): a=m9(x); return [(a[j][i],0) for i in range(3) for j in range(3)]
def M01(ck):
    ck.bounds.append('all entries of magnitude at most 1e152; errors at most 4 units of 2^-53 of the sum of the magnitudes of the terms')
    def entries(r,n):
        if r.random()<.7: return [r.choice([r.uniform(-1,1),mags(r,-6,6),mags(r,-152,152) if r.random()<.2 else 1.5,float(r.randint(-3,3))]) for _ in range(n)]
        return [0.0 if r.random()<.6 else r.choice([1.0,mags(r,-153,6),mags(r,-25,6)]) for _ in range(n)]
    def gen(n): return corp(n,lambda r: entries(r,n),1200)
    for name,n,vals,lab in(('h_mat_compose',18,comp_vals,'product'),('h_mat_apply',12,app_vals,'application'),('h_mat_transpose',9,tr_vals,'transposition')):
        def ref(ctx,x,vals=vals,lab=lab):
            if lab=='transposition': return [('%s element %d'%(lab,k),k,m9(x)[k%3][k//3],Poly()) for k in range(9)]
            if lab=='product': r=sum(mm(m9(x),m9(x[9:])),[])
            else: r=[sum((x[9+k]*m9(x)[k][j] for k in range(3)),Poly()) for j in range(3)]
            return [('%s element %d'%(lab,k),k,p,p*(4*U)) for k,p in enumerate(r)]
        relative(ck,mk(name,n),n,10**152,ref,None,exact(name,n,vals,lab),gen(n),lab)
        if ck.violations: return
    en=Entry('h_mat_const'); I=[0.0]*9+[1.0,0,0,0,1,0,0,0,1]
    def orc(f,i,r):
        if r[0]=='panic' or not all(a==b for a,b in zip(r[1],I)): return 'zero and identity matrices are %r'%(r[1][:18],)
    none=lambda rng: iter([{}])
    ck.target(en,orc,none); ps=ck.explore(en,IvFeas(lambda c:None))
    def run():
        x=[z3.Real('x%d'%k) for k in range(18)]; out=[]
        for k,p in enumerate(ps):
            if p.outcome=='panic': out.append(Verdict('constants','sat')); continue
            ctx=Ctx(); vs=[ctx.lower(p.out[0][j]) for j in range(18)]
            for j,v in enumerate(vs): out.append(Verdict('%s element %d'%('zero' if j<9 else 'identity',j%9),ctx.residual(v.p-F(I[j]),v.err(),0)))
        # algebra of the exact operations that the claims above tie the code to
        A,B=[m9([z3.Real('%s%d'%(n,k)) for k in range(9)]) for n in 'ab']; v=[z3.Real('v%d'%k) for k in range(3)]
        ap=lambda m,x: [sum(x[k]*m[k][j] for k in range(3)) for j in range(3)]
        l=ap(mm(A,B),v); r=ap(B,ap(A,v))
        out.append(query('row vector times A*B is (row vector times A) times B',[z3.Or([z3.simplify(p-q,som=True)!=0 for p,q in zip(l,r)])]))
        return out
    vs=ck.run([('constants',run)]); ck.settle(en,vs,orc,none)

# ------------------------------------------------------------------ M02
def rot_ref(ax,c,s,one,zero):
    r=[[zero]*3 for _ in range(3)]; a,b=(ax+1)%3,(ax+2)%3
    r[a][a]=c; r[a][b]=s; r[b][a]=-s; r[b][b]=c; r[ax][ax]=one
    return r
def m02_oracle(f,i,r):
    ax,t=i[0],f[0]
    if not(0<=ax<=2 and abs(t)<=1e308): return None
    call='rotation(%d,%r)'%(ax,t)
    if r[0]=='panic': return call+' panics'
    mp2=mpmath.mp.clone() if False else mp
    with mp.workdps(360 if abs(t)>1e15 else 40): c,s=mp.cos(mp.mpf(t)),mp.sin(mp.mpf(t))
    e=sum(rot_ref(ax,c,s,mp.mpf(1),mp.mpf(0)),[])
    for k in range(9):
        if not abs(r[1][k])<=2 or abs(mp.mpf(r[1][k])-e[k])>4e-16: return '%s: element %d is %r, expected %s'%(call,k,r[1][k],mp.nstr(e[k],18))
    if t==0 and any(float(x)!=y for x,y in zip(e,r[1])): return call+' is not the identity'
def m02_corpus(ax):
    def c(rng):
        for t in(0.0,-0.0,1.0,-1.0,math.pi,math.pi/2,-math.pi/2,1e300,5e-324,1e-9): yield dict(t=t)
        for _ in range(600): yield dict(t=rng.choice([angle(rng,1e4),rng.uniform(-1e4,1e4),rng.gauss(0,1e-3),angle(rng,1e307)]))
    return c
def M02(ck):
    ck.bounds.append('axes 0, 1, 2; every finite double angle (|angle| <= 1e308)'); ck.assumptions.append(LIB)
    for ax in range(3):
        en=Entry('h_mat_rotation',[var('t','f')],[ax]); neg=Entry('h_mat_rotation',[term.fneg(var('t','f'))],[ax])
        def setup(ctx): ctx.input('t',-10**308,10**308)
        def ref(a,ctx):
            t=ctx.inp['t'].p; R=sum(rot_ref(ax,a.cos(t),a.sin(t),a.c(1),a.c(0)),[])
            return [('element %d'%k,k,R[k]) for k in range(9)]
        ps2=ck.explore(neg,IvFeas(setup))
        def extra(ctx,p,k):
            m=[ctx.lower(p.out[0][j]) for j in range(9)]; out=[]; P=m9([v.p for v in m]); e=max(v.err() for v in m)
            for i in range(3):
                for j in range(i,3): out.append(('path %d: orthogonal (%d,%d)'%(k,i,j),sum((P[i][q]*P[j][q] for q in range(3)),Poly())-(1 if i==j else 0),7*e,F(1,10**14)))
            cr=[P[0][1]*P[1][2]-P[0][2]*P[1][1],P[0][2]*P[1][0]-P[0][0]*P[1][2],P[0][0]*P[1][1]-P[0][1]*P[1][0]]
            for j in range(3): out.append(('path %d: right-handed %d'%(k,j),cr[j]-P[2][j],7*e,F(1,10**14)))
            for p2 in ps2:
                if p2.outcome=='panic': out.append(('path %d: opposite angle panics'%k,None,None,0)); continue
                for j in range(9):
                    v=ctx.lower(p2.out[0][j]); out.append(('path %d: opposite angle, element %d'%(k,j),v.p-P[j%3][j//3],v.err()+e,F(1,10**15)))
            return out
        ps=polycheck(ck,en,setup,ref,F(4,10**16),m02_oracle,m02_corpus(ax),tag='axis %d, '%ax,extra=extra)
        if ck.violations: return
        z=Entry('h_mat_rotation',[0.0],[ax]); I=[1.0,0,0,0,1,0,0,0,1]
        def orc(f,i,r):
            if r[0]=='panic' or any(a!=b for a,b in zip(r[1],I)): return 'rotation(%d,0.0) is %r'%(i[0],r[1][:9])
        none=lambda rng: iter([{}])
        zp=ck.explore(z,IvFeas(lambda c:None))
        def run():
            ctx=Ctx(); out=[]
            for p in zp:
                if p.outcome=='panic': return [Verdict('axis %d, angle zero panics'%ax,'sat')]
                for j in range(9):
                    v=ctx.lower(p.out[0][j]); out.append(Verdict('axis %d, angle zero, element %d'%(ax,j),ctx.residual(v.p-F(I[j]),v.err(),0)))
            return out
        vs=ck.run([('zero',run)]); ck.settle(z,vs,orc,none)
