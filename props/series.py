"""Series and polynomials of time: fundamental arguments, nutation, precession, CIO locator, Earth ephemeris."""
import json, os, math, itertools
from fractions import Fraction as F
import numpy as np
from vt import symex, term, relax, poly, polycheck
from vt.term import var, N
from vt.ll import Unsupported
from vt.check import Entry, Verdict, ROOT
from vt.polycheck import *

def load(n): return json.load(open(os.path.join(ROOT,'refdata',n+'.json')))
def horner(cs,t):
    r=0
    for c in reversed(cs): r=r*t+c
    return r
def qs(*a): return [F(x) for x in a]

# IERS Conventions (2003) fundamental arguments: arcseconds, powers of Julian centuries
FA=dict(l=qs('485868.249036','1717915923.2178','31.8792','0.051635','-0.00024470'),
        lp=qs('1287104.793048','129596581.0481','-0.5532','0.000136','-0.00001149'),
        f=qs('335779.526232','1739527262.8478','-12.7512','-0.001037','0.00000417'),
        d=qs('1072260.703692','1602961601.2090','-6.3706','0.006593','-0.00003169'),
        om=qs('450160.398036','-6962890.5431','7.4722','0.007702','-0.00005939'))
FV=qs('3.176146697','1021.3285546211'); FE=qs('1.753470314','628.3075849991'); FP=qs('0','0.024381750','0.00000538691')
CY=F(36525)
def sec(a): return a.c(1)*a.pi/648000 if a is not NUM else mp.pi/648000
def asx(a,cs,t):
    """polynomial in arcseconds, as radians"""
    k=(PI if a is not NUM else mp.pi)/648000
    r=a.c(0)
    for c in reversed(cs): r=r*t+a.c(c)
    return r*k
def rad(a,cs,t):
    r=a.c(0)
    for c in reversed(cs): r=r*t+a.c(c)
    return r

def fundargs_ref(a,t):
    return [asx(a,FA[k],t) for k in('l','lp','f','d','om')]+[rad(a,FV,t),rad(a,FE,t),rad(a,FP,t)]

# ------------------------------------------------------------------ G01
FN=('mean anomaly of the Moon','mean anomaly of the Sun','argument of latitude','elongation','node','Venus','Earth','general precession')
G01T=100
def g01_oracle(f,i,r):
    t=f[0]
    if not abs(t)<=G01T: return None
    tols=(1e-10,1e-15) if abs(t)<=10 else (1e-8,1e-12)
    if r[0]=='panic': return 'fundamental arguments at %r panic'%t
    ref=fundargs_ref(NUM,NUM.c(F(t)))
    for k in range(8):
        v=r[1][k]
        if not abs(v)<1e300: return '%s at %r is %r'%(FN[k],t,v)
        d=mp.mpf(v)-ref[k]
        if k<7:
            d-=2*mp.pi*mp.nint(d/(2*mp.pi))
            if abs(v)>=2*math.pi*2: return '%s at %r is %r, two turns or more'%(FN[k],t,v)
        if abs(d)>tols[k==7]: return '%s at t=%r is %r, off by %s rad'%(FN[k],t,v,mp.nstr(d,5))
def g01_corpus(rng):
    for t in(0.0,-0.0,1.0,-1.0,10.0,-10.0,0.5,1e-300,1.0*G01T,-1.0*G01T): yield dict(t=t)
    for _ in range(2000): yield dict(t=rng.choice([rng.uniform(-10,10),rng.uniform(-1,1)]))
def G01(ck):
    en=Entry('h_fundargs',[var('t','f')])
    ck.bounds.append('every double t in [-10,10] centuries (tolerance 1e-10), and in [-%d,%d] centuries (tolerance 1e-8)'%(G01T,G01T))
    tasks=[]
    far=lambda ctx: ctx.input('t',-G01T,G01T)
    ps=ck.explore(en,IvFeas(far))
    for setup,tag,ta,tb in((far,'far: ',F(1,10**8),F(1,10**12)),(lambda ctx: ctx.input('t',-10,10),'',F(1,10**10),F(1,10**15))):
      for k,p in enumerate(ps):
          def fn(ctx,p,k=k,ta=ta,tb=tb):
              if p.outcome=='panic': return [('path %d cannot panic'%k,None,None,0)]
              ref=fundargs_ref(Sym(ctx),ctx.inp['t'].p); out=[]
              for j in range(8):
                  v=ctx.lower(p.out[0][j]); d=v.p-ref[j]; e=v.err()
                  if j<7:
                      d,e2=ctx.strip(d); e+=e2
                      out.append(('path %d: %s is below two turns'%(k,FN[j]),Poly(),max(abs(v.lo),abs(v.hi)),F(2)*poly.TWOPI-F(1,10**12)))
                  out.append(('path %d: %s'%(k,FN[j]),d,e,ta if j<7 else tb))
              return out
          for ctx,lab,d,e,tol in cases(setup,p,fn):
              def run(tag=tag,ctx=ctx,lab=lab,d=d,e=e,tol=tol):
                  if d is None: return [Verdict(tag+lab,'sat')]
                  return [Verdict(tag+lab,ctx.residual(d,e,tol),note='rounding %.1e'%e)]
              tasks.append((tag+lab,run))
    ck.target(en,g01_oracle,g01_corpus)
    vs=ck.run(tasks); ck.settle(en,vs,g01_oracle,g01_corpus)
    envs=list(g01_corpus(ck.rng)); ck.validate(en,ps,envs[:200],oracle=g01_oracle); ck.samples+=envs[:3]

# ------------------------------------------------------------------ F03
def nutation_ref(a,T):
    t=T/36525 if a is NUM else T.scale(1/CY)
    n=load('nut00b')
    fa=[asx(a,cs[:2],t) for cs in(FA['l'],qs('1287104.79305','129596581.0481'),FA['f'],qs('1072260.70369','1602961601.2090'),FA['om'])]
    dp=a.c(0); de=a.c(0)
    for m,c in zip(n['arg'],n['coef']):
        ar=a.c(0)
        for k,x in zip(m,fa):
            if k: ar=ar+x*k
        s,co=a.sin(ar),a.cos(ar); c=[F(x) for x in c]
        dp=dp+(t*a.c(c[1])+a.c(c[0]))*s+co*a.c(c[2])
        de=de+(t*a.c(c[4])+a.c(c[3]))*co+s*a.c(c[5])
    u=(PI if a is not NUM else mp.pi)/648000
    return dp*(u/10**7)+u*a.c(F('-0.000135')), de*(u/10**7)+u*a.c(F('0.000388'))
def near_oracle(fn,n,names,tol,dom,what):
    """oracle for functions of one date: n outputs against the high-precision reference"""
    def oracle(f,i,r):
        if not dom.inside(f[0],f[1]): return None
        call='%s at (%r,%r)'%(what,f[0],f[1])
        if r[0]=='panic': return call+' panics'
        ref=fn(NUM,NUM.c(dom.T(f)))
        for k in range(n):
            v=r[1][k]
            if not abs(v)<1e300 or abs(mp.mpf(v)-ref[k])>(tol(f) if callable(tol) else tol): return '%s: %s = %r, expected %s'%(call,names[k],v,mp.nstr(ref[k],20))
    return oracle
D1000=Dates(1000); D100=Dates(100); D10K=Dates(10000)
def en2(name,*more): return Entry(name,[var('d1','f'),var('d2','f')]+[var(x,'f') for x in more])
DB='every pair of doubles of magnitude <= 4e6 days whose exact sum is within %s Julian years of J2000'
LIB='sin and cos of the platform are within 2^-52 of the exact value'
def grad(near,far): 
    """tolerance by the distance of the date from J2000"""
    return lambda f: near if D1000.inside(f[0],f[1]) else far
def mixed(rng):
    import itertools
    return itertools.chain.from_iterable(zip(D1000.corpus(rng,400),D10K.corpus(rng,400)))
def wide(ck,en,setup,ref,near,far,oracle,corpus,narrow,tag='',**kw):
    """the claim within 10000 years of J2000 to the tolerance far, and within 1000 years to the tolerance near"""
    ps=polycheck(ck,en,setup,ref,far,oracle,corpus,tag=tag+'10000 years, ',**kw)
    if not ck.violations: polycheck(ck,en,narrow,ref,near,oracle,corpus,tag=tag,paths=ps,validate=False,**{k:v for k,v in kw.items() if k!='validate'})
    return ps
def F03(ck):
    ck.bounds.append(DB%1000+', tolerance 1e-13 rad; '+DB%10000+', tolerance 1e-11 rad'); ck.assumptions.append(LIB)
    def ref(a,ctx):
        x,y=nutation_ref(a,ctx.T['d1']); return [('nutation in longitude',0,x),('nutation in obliquity',1,y)]
    wide(ck,en2('h_nutation'),D10K,ref,F(1,10**13),F(1,10**11),near_oracle(nutation_ref,2,('dpsi','deps'),grad(1e-13,1e-11),D10K,'nutation'),mixed,D1000)

# ------------------------------------------------------------------ L01
SP=qs('94e-6','3808.35e-6','-119.94e-6','-72574.09e-6','27.70e-6','15.61e-6')
def cio_series(a,T):
    """s + XY/2"""
    t=T/36525 if a is NUM else T.scale(1/CY)
    c=load('s00'); fa=fundargs_ref(a,t); r=a.c(0)
    for k in range(5,-1,-1):
        w=a.c(SP[k])
        if k<5:
            for m,(s,co) in zip(c['arg'][k],c['coef'][k]):
                ar=a.c(0)
                for n,x in zip(m,fa):
                    if n: ar=ar+x*n
                s,co=[F(v)*F(10)**e for v,e in(s,co)]
                if s: w=w+a.sin(ar)*a.c(s)
                if co: w=w+a.cos(ar)*a.c(co)
        r=r*t+w
    return r*((PI if a is not NUM else mp.pi)/648000)
def l01_oracle(f,i,r):
    if not D10K.inside(f[0],f[1]) or not(abs(f[2])<=1 and abs(f[3])<=1): return None
    call='cio at (%r,%r), X=%r Y=%r'%tuple(f[:4])
    if r[0]=='panic': return call+' panics'
    e=cio_series(NUM,NUM.c(D10K.T(f)))-NUM.c(F(f[2])*F(f[3])/2); v=r[1][0]
    if not abs(v)<1e300 or abs(mp.mpf(v)-e)>grad(1e-14,1e-12)(f): return '%s = %r, expected %s'%(call,v,mp.nstr(e,20))
def l01_corpus(rng):
    for e in mixed(rng): yield dict(e,x=rng.choice([0.0,1.0,-1.0,rng.uniform(-1,1),rng.uniform(-1e-3,1e-3)]),y=rng.choice([0.0,1.0,rng.uniform(-1,1)]))
def L01(ck):
    ck.bounds.append(DB%1000+', tolerance 1e-14 rad; '+DB%10000+', tolerance 1e-12 rad; X and Y any doubles in [-1,1]'); ck.assumptions.append(LIB)
    def dates(D):
        def setup(ctx): D(ctx); ctx.input('x',-1,1); ctx.input('y',-1,1)
        return setup
    def ref(a,ctx): return [('s',0,cio_series(a,ctx.T['d1'])-(ctx.inp['x'].p*ctx.inp['y'].p).scale(F(1,2)))]
    wide(ck,en2('h_cio','x','y'),dates(D10K),ref,F(1,10**14),F(1,10**12),l01_oracle,l01_corpus,dates(D1000))

# ------------------------------------------------------------------ E01, E02, E03
AM=[qs('1','0.000000211284','-0.000000091603'),qs('-0.000000230286','0.917482137087','-0.397776982902'),qs('0','0.397776982902','0.917482137087')]
def epv_series(a,T):
    """heliocentric and barycentric positions, ecliptic then ICRF, as polynomials of the days T since J2000"""
    t=T.scale(F(4,1461)); tab=load('epv00'); out=[]
    def series(n,k):
        r=a.c(0)
        for j in range(3):
            w={}
            acc=a.c(0)
            for A,B,C in tab[n+str(j)][k]:
                A,B,C=F(A),F(B),F(C)
                acc.iadd(a.cos(t.scale(C)+a.c(B)).scale(A))
            for _ in range(j): acc=acc*t
            r=r+acc
        return r
    h=[series('E',k) for k in range(3)]; b=[h[k]+series('S',k) for k in range(3)]
    for v in(h,b): out.append([sum((v[j].scale(AM[i][j]) for j in range(3)),a.c(0)) for i in range(3)])
    return out
LD=np.longdouble
def ld(x):
    """Fraction -> longdouble"""
    h=float(x); l=float(x-F(h)); return LD(h)+LD(l)
_EP={}
def epv_num(T):
    """positions and velocities in extended precision; T a Fraction, days since J2000"""
    if not _EP:
        tab=load('epv00')
        for n,rows in tab.items(): _EP[n]=[[np.array([ld(F(r[c])) for r in rows[k]]) for c in range(3)] for k in range(3)]
    t=ld(T*F(4,1461)); res=[]
    def series(n,k):
        p=v=LD(0)
        for j in range(3):
            A,B,C=_EP[n+str(j)][k]; ar=B+C*t; c,s=np.cos(ar),np.sin(ar)
            x=(A*c).sum(); d=-(A*C*s).sum()
            p+=x*t**j; v+=d*t**j+(x*j*t**(j-1) if j else 0)
        return p,v*4/LD(1461)
    h=[series('E',k) for k in range(3)]; s=[series('S',k) for k in range(3)]
    am=[[ld(x) for x in r] for r in AM]
    b=[(h[k][0]+s[k][0],h[k][1]+s[k][1]) for k in range(3)]
    for w in(h,b):
        for q in(0,1): res+=[sum(am[i][j]*w[j][q] for j in range(3)) for i in range(3)]
    return res
ENAMES=[x+' '+y+' '+z for x in('heliocentric','barycentric') for y in('position','velocity') for z in 'XYZ']
ETOL=F(1,10**11)
def tol1(f): return 1e-9 if not D100.inside(f[0],f[1]) else 1e-12 if abs(f[0]-2451545.0)<=36525 else 1e-11
def e01_oracle(f,i,r):
    if not D1000.inside(f[0],f[1]): return None
    call='Earth ephemeris at (%r,%r)'%(f[0],f[1])
    if r[0]=='panic': return call+' panics'
    ref=epv_num(D1000.T(f))
    for k in range(12):
        if k%6>=3: continue
        v=r[1][k]
        if not abs(v)<1e300 or abs(LD(v)-ref[k])>tol1(f): return '%s: %s = %r, expected %.17g'%(call,ENAMES[k],v,float(ref[k]))
FD8=((1,F(4,5)),(2,F(-1,5)),(3,F(4,105)),(4,F(-1,280)))
def e02_oracle_for(ck):
    """velocity against the eighth-order difference quotient of the returned positions (instants exact doubles)"""
    def oracle(f,i,r):
        if not D1000.inside(f[0],f[1]): return None
        tol=1.3e-12 if D100.inside(f[0],f[1]) else 1.1e-10
        call='Earth ephemeris at (%r,%r)'%(f[0],f[1])
        if r[0]=='panic': return call+' panics'
        T=float(D1000.T(f)); T=round(T*2**36)/2**36; h=0.25
        if abs(T)>365250-2: return None
        rs=ck.rel.batch([('h_epv',[2451545.0,T+s*k*h],[]) for k,_ in FD8 for s in(1,-1)])
        if any(x[0]!='ok' for x in rs): return call+' panics nearby'
        for k in range(12):
            if k%6<3: continue
            d=sum(float(c)*(rs[2*n][1][k-3]-rs[2*n+1][1][k-3]) for n,(_,c) in enumerate(FD8))/h
            v=r[1][k]
            if not abs(v)<1e300 or abs(v-d)>tol: return '%s: %s = %r, the positions around move at %.17g'%(call,ENAMES[k],v,d)
    return oracle
def epv_corpus(rng,n=300):
    yield from D100.corpus(rng,n)
def E01(ck):
    ck.bounds.append(DB%1000+', tolerance 1e-9 au; '+DB%100+', tolerance 1e-11 au, 1e-12 au when the first part is within 36525 days of J2000'); ck.assumptions.append(LIB)
    def ref(a,ctx):
        h,b=epv_series(a,ctx.T['d1'])
        return [(ENAMES[k+6*j],k+6*j,(h,b)[j][k]) for j in(0,1) for k in range(3)]
    def near(ctx): D100(ctx); ctx.inp['d1'].lo=2451545.0-36525; ctx.inp['d1'].hi=2451545.0+36525
    en=en2('h_epv')
    both=lambda rng: (e for p in zip(D100.corpus(rng,300),D1000.corpus(rng,300)) for e in p)
    ps=polycheck(ck,en,D1000,ref,F(1,10**9),e01_oracle,both,tag='1000 years, ',timeout=60000,nval=8)
    if ck.violations: return
    polycheck(ck,en,D100,ref,ETOL,e01_oracle,both,paths=ps,timeout=60000,validate=False)
    if ck.violations: return
    polycheck(ck,en,near,ref,F(1,10**12),e01_oracle,epv_corpus,tag='first part near J2000, ',paths=ps,timeout=60000,validate=False)
def E02(ck):
    ck.bounds.append(DB%1000+', tolerance 1e-10 au/day; '+DB%100+', tolerance 1e-12 au/day'); ck.assumptions.append(LIB)
    ck.assumptions.append('the position is differentiated as the real-valued function that the code computes up to rounding (the polynomial obtained from the code itself)')
    en=en2('h_epv'); orc=e02_oracle_for(ck); both=lambda rng: (e for p in zip(D100.corpus(rng,200),D1000.corpus(rng,200)) for e in p)
    ck.target(en,orc,both)
    for dom,tag,tol in((D100,'',F(1,10**12)),(D1000,'1000 years, ',F(1,10**10))):
        ps=ck.explore(en,IvFeas(dom)); tasks=[]
        for k,p in enumerate(ps):
            def fn(ctx,p,k=k):
                if p.outcome=='panic': return [('path %d cannot panic'%k,None,0)]
                out=[]
                for j in(0,1):
                    for q in range(3):
                        pos=ctx.lower(p.out[0][q+6*j]); vel=ctx.lower(p.out[0][q+3+6*j])
                        out.append(('path %d: %s is the derivative'%(k,ENAMES[q+3+6*j]),vel.p-ctx.diff(pos.p,ctx.Tid['d1']),vel.err()))
                return out
            for ctx,lab,d,e in cases(dom,p,fn):
                def run(ctx=ctx,lab=tag+lab,d=d,e=e,tol=tol):
                    if d is None: return [Verdict(lab,'sat')]
                    return [Verdict(lab,ctx.residual(d,e,tol,timeout=60000),note='residual terms %d, rounding %.1e'%(len(d.d),e))]
                tasks.append((tag+lab,run))
        vs=ck.run(tasks); ck.settle(en,vs,orc,both)
        if ck.violations: return
    ck.validate(en,ps,list(itertools.islice(both(ck.rng),8)),oracle=orc)

def e03_oracle(f,i,r):
    if not D10K.inside(f[0],f[1]): return None
    call='Earth ephemeris at (%r,%r)'%(f[0],f[1])
    if r[0]=='panic': return call+' panics'
    for k in range(12):
        if not abs(r[1][k])<1e300: return '%s: %s = %r'%(call,ENAMES[k],r[1][k])
    T=abs(D10K.T(f)); w=r[2][0]
    if T>36525+F(1,10**8) and w!=1: return call+' carries no warning'
    if T<36525-F(1,10**8) and w!=0: return call+' carries a warning'
    if f[0]==2451545.0 and T==36525 and w!=1: return call+' carries no warning at exactly 100 years'
def e03_corpus(rng):
    for s in(1,-1):
        yield dict(d1=2451545.0,d2=s*36525.0)
        for k in range(-3,9):
            for q in(1,-1): yield dict(d1=2451545.0,d2=s*(36525.0+q*10.0**-k)); yield dict(d1=2400000.5,d2=51544.5+s*(36525.0+q*10.0**-k)); yield dict(d2=2451545.0,d1=s*(36525.0+q*10.0**-k))
    yield from D10K.corpus(rng,300)
    yield from D100.corpus(rng,100)
def E03(ck):
    from vt.relax import Relax, AND
    from vt.check import prove
    ck.bounds.append(DB%10000+'; the threshold holds to 1e-8 days, and exactly at (J2000, +-36525)')
    en=en2('h_epv'); ck.target(en,e03_oracle,e03_corpus)
    ps=ck.explore(en,IvFeas(D10K)); tasks=[]
    eps=F(1,10**8)
    for k,p in enumerate(ps):
        def fin(ctx,p,k=k):
            if p.outcome=='panic': return [('path %d cannot panic'%k,None)]
            return [('path %d: %s is finite'%(k,ENAMES[j]),ctx.lower(p.out[0][j])) for j in range(12)]
        for ctx,lab,v in cases(D10K,p,fin):
            def run(ctx=ctx,lab=lab,v=v):
                if v is None: return [Verdict(lab,'sat')]
                return [Verdict(lab,ctx.residual(poly.Poly(),max(abs(v.lo),abs(v.hi)),F(10)**300))]
            tasks.append((lab,run))
        def warn(k=k,p=p):
            R=Relax(dict(d1=(-4000000,4000000),d2=(-4000000,4000000)),timeout=60000); out=[]
            pre=R.conds(p.cond); T=R.low(en.f[0])+R.low(en.f[1])-2451545; w=R.li(p.out[1][0],64); tag='path %d: '%k
            pre+=[R.cmp(T,'<=',3652500),R.cmp(T,'>=',-3652500)]
            out.append(prove(R,tag+'warning from 100 years on',pre+[R.cmp(T,'>=',36525+eps)],R.cmp(w,'==',1)))
            out.append(prove(R,tag+'warning from 100 years back',pre+[R.cmp(T,'<=',-36525-eps)],R.cmp(w,'==',1)))
            out.append(prove(R,tag+'no warning within 100 years',pre+[R.cmp(T,'<=',36525-eps),R.cmp(T,'>=',-36525+eps)],R.cmp(w,'==',0)))
            return out
        if p.outcome!='panic': tasks.append(('warning %d'%k,warn))
    def edge():
        out=[]
        for x in(36525.0,-36525.0):
            e=Entry('h_epv',[2451545.0,x]); R=Relax({})
            for p in ck.explore(e,IvFeas(lambda c:None)):
                w=R.li(p.out[1][0],64) if p.outcome!='panic' else relax.LF(-1)
                out.append(prove(R,'warning at exactly %d days'%x,R.conds(p.cond),R.cmp(w,'==',1)))
        return out
    tasks.append(('edge',edge))
    vs=ck.run(tasks); ck.settle(en,vs,e03_oracle,e03_corpus)
    if not ck.violations: ck.validate(en,ps,list(D10K.corpus(ck.rng,8)),oracle=e03_oracle)
