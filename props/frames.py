"""Frame matrices."""
import math, itertools, time
from fractions import Fraction as F
import z3
from vt import symex, term, relax, poly, polycheck
from vt.term import var, N
from vt.ll import Unsupported
from vt.check import Entry, Verdict
from vt.polycheck import *
from vt.poly import Poly, Ctx, Split
from .series import *
from .series import en2
from .lin import mm, m9, rot_ref, query

def R3(a,ax,ang):
    """elementary rotation by a reference angle"""
    return rot_ref(ax,a.cos(ang),a.sin(ang),a.c(1),a.c(0))
def prod(*ms):
    r=ms[0]
    for m in ms[1:]: r=mm(r,m)
    return r
def flat(m): return sum(m,[])
def tr(m): return [[m[j][i] for j in range(3)] for i in range(3)]

# ------------------------------------------------------------------ F01
def mcheck(m):
    """largest deviation of a matrix of doubles from a proper rotation"""
    if not all(abs(x)<2 for x in m): return math.inf
    M=m9([F(x) for x in m]); d=F(0)
    for i in range(3):
        for j in range(i,3): d=max(d,abs(sum(M[i][k]*M[j][k] for k in range(3))-(i==j)))
    for j in range(3): d=max(d,abs(M[0][(j+1)%3]*M[1][(j+2)%3]-M[0][(j+2)%3]*M[1][(j+1)%3]-M[2][j]))
    return float(d)
def ortho(ctx,m,lab):
    """claims that a lowered matrix is a proper rotation"""
    P=m9([v.p for v in m]); e=max(v.err() for v in m); out=[]; tol=F(1,10**12)
    for i in range(3):
        for j in range(i,3): out.append(('%s: rows %d and %d'%(lab,i,j),sum((P[i][q]*P[j][q] for q in range(3)),Poly())-(1 if i==j else 0),7*e,tol))
    for j in range(3): out.append(('%s: right-handed, column %d'%(lab,j),P[0][(j+1)%3]*P[1][(j+2)%3]-P[0][(j+2)%3]*P[1][(j+1)%3]-P[2][j],7*e,tol))
    return out
def rotcheck(ck,en,dom,mats,inside,gen,what,slices=None,depth=9):
    """every matrix among the outputs is a proper rotation"""
    def oracle(f,i,r):
        if not inside(f): return None
        call='%s at %r'%(what,f[:len(en.f)])
        if r[0]=='panic': return call+' panics'
        for o,name in mats:
            d=mcheck(r[1][o:o+9])
            if d>1e-12: return '%s: the %s matrix is off a rotation by %.2g'%(call,name,d)
    def setup(ctx):
        ctx.opaque=True; ctx.cap=60; dom(ctx)
    ck.target(en,oracle,gen)
    class Free:
        def __call__(s,*a): return True
        def value(s,*a): raise Unsupported('symbolic index')
    ps=ck.explore(en,Free()); tasks=[]
    work=slices or [None]
    for sl in work:
        def run(sl=sl):
            out=[]; todo=[(sl,0)]; n=0; left=0.0; tot=0.0
            while todo:
                s,d=todo.pop(); tag='' if s is None else 'T in [%.0f,%.0f] days, '%s; part=[]
                def setup2(ctx):
                    setup(ctx)
                    if s is not None:
                        for k,(l,h) in zip(dom.tn,[s]*9): narrow(ctx,k,l,h)
                try:
                    for k,p in enumerate(ps):
                        def fn(ctx,p,k=k):
                            if p.outcome=='panic': return [('%spath %d cannot panic'%(tag,k),None,None,0)]
                            r=[]
                            for o,name in mats: r+=ortho(ctx,[ctx.lower(x) for x in p.out[0][o:o+9]],'%spath %d, %s'%(tag,k,name))
                            return r
                        for ctx,lab,df,e,tol in cases(setup2,p,fn):
                            Ctx.cur=ctx
                            if df is None: part.append(Verdict(lab,'sat')); continue
                            part.append(Verdict(lab,ctx.residual(df,e,tol),note='rounding %.1e'%e))
                except Unsupported:
                    if s is None or d>=depth: raise
                    m=(s[0]+s[1])/2; todo+=[((s[0],m),d+1),((m,s[1]),d+1)]; continue
                out+=part
            return out
        tasks.append((what,run))
    vs=ck.run(tasks); ck.settle(en,vs,oracle,gen)
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(gen(ck.rng),20)),oracle=oracle)
def narrow(ctx,name,lo,hi):
    a=ctx.atoms[ctx.Tid[name]]; a.lo=F(lo); a.hi=F(hi); a.sample=F((lo+hi)/2)
class Doms:
    def __init__(s,*ds): s.ds=ds; s.tn=[ds[0].n[0]] if isinstance(ds[0],Dates) else []
    def __call__(s,ctx):
        for d in s.ds:
            if isinstance(d,tuple): ctx.input(d[0],-F(d[1]),F(d[1]))
            else: d(ctx)
    def inside(s,f):
        k=0
        for d in s.ds:
            if isinstance(d,tuple):
                if not abs(f[k])<=d[1]: return False
                k+=1
            else:
                if not d.inside(f[k],f[k+1]): return False
                k+=2
        return True
    def gen(s,n):
        def g(rng):
            for _ in range(n):
                e={}
                for d in s.ds:
                    if isinstance(d,tuple): e[d[0]]=rng.choice([1.0,angle(rng,float(d[1])),angle(rng,float(d[1])),rng.choice([-1,1])*10.0**rng.uniform(-20,min(math.log10(float(d[1])),60))])
                    else: e[d.n[0]],e[d.n[1]]=d.gen(rng)
                if s.inside(s.flat(e)): yield e
        return g
    def flat(s,e): return [e[x] for d in s.ds for x in ([d[0]] if isinstance(d,tuple) else d.n)]
ANG=10**300
def F01(ck):
    ck.bounds.append(DB%10000+' (TT and UT1 separately), angle arguments of magnitude up to 1e300 rad; tolerance 1e-12')
    ck.assumptions.append(LIB)
    D=Dates(10000); D2=Dates(10000,'u1','u2')
    f=lambda *a: [var(x,'f') for x in a]
    d=Doms(D); rotcheck(ck,Entry('h_bias_precession',f('d1','d2')),d,[(0,'frame-bias'),(9,'precession'),(18,'bias-precession')],d.inside,d.gen(300),'bias and precession')
    if ck.violations: return
    d=Doms(('eps',ANG),('dpsi',ANG),('deps',ANG)); rotcheck(ck,Entry('h_nutation_matrix',f('eps','dpsi','deps')),d,[(0,'nutation')],d.inside,d.gen(500),'nutation matrix')
    if ck.violations: return
    d=Doms(('x',ANG),('y',ANG),('s',ANG)); rotcheck(ck,Entry('h_polar_motion',f('x','y','s')),d,[(0,'polar motion')],d.inside,d.gen(500),'polar motion matrix')
    if ck.violations: return
    d=Doms(D); rotcheck(ck,Entry('h_precession_nutation',f('d1','d2')),d,[(0,'precession-nutation')],d.inside,d.gen(300),'precession-nutation')
    if ck.violations: return
    days=3652500; n=16; sl=[(-days+2*days*k/n,-days+2*days*(k+1)/n) for k in range(n)]
    rotcheck(ck,Entry('h_c2i',f('d1','d2')),d,[(0,'celestial-to-intermediate')],d.inside,d.gen(300),'celestial to intermediate',slices=sl)
    if ck.violations: return
    d=Doms(D,D2,('x',ANG),('y',ANG)); rotcheck(ck,Entry('h_c2t',f('d1','d2','u1','u2','x','y')),d,[(0,'celestial-to-terrestrial')],d.inside,d.gen(300),'celestial to terrestrial',slices=sl)

# ------------------------------------------------------------------ F02
RMAX=F(99,100); TINYP=F(1,10**160)
def c2i_ref(a,e,z,r,s):
    """(e: cos and sin of the azimuth of the pole, r and z its equatorial and polar part, s: sin and cos)"""
    (ce,se),(ss,cs)=e,s; o,n=a.c(1),a.c(0)
    M0=prod([[ce,-se,n],[se,ce,n],[n,n,o]],[[z,n,-r],[n,o,n],[r,n,z]],[[ce,se,n],[-se,ce,n],[n,n,o]])
    return M0,prod([[cs,-ss,n],[ss,cs,n],[n,n,o]],M0)
def c2i_num(x,y,s):
    X,Y,S=mp.mpf(x),mp.mpf(y),mp.mpf(s); Z=mp.sqrt(1-X*X-Y*Y); a=1/(1+Z); c,s=mp.cos(S),mp.sin(S)
    return prod([[c,-s,0],[s,c,0],[0,0,1]],[[1-a*X*X,-a*X*Y,-X],[-a*X*Y,1-a*Y*Y,-Y],[X,Y,Z]])
def inr(x,y): return abs(x)<=1 and abs(y)<=1 and F(x)**2+F(y)**2<=RMAX
def cmpm(call,v,ref,tol):
    for k in range(9):
        if not abs(v[k])<=2 or abs(mp.mpf(v[k])-ref[k])>tol: return '%s: element (%d,%d) is %r, expected %s'%(call,k//3,k%3,v[k],mp.nstr(ref[k],20))
def f02_oracle(f,i,r):
    x,y,s=f[:3]
    if not(inr(x,y) and abs(s)<=100): return None
    call='celestial_to_intermediate_from_xys(%r,%r,%r)'%(x,y,s)
    if r[0]=='panic': return call+' panics'
    return cmpm(call,r[1],flat(c2i_num(x,y,s)),1e-12)
def poles(rng):
    for _ in range(1000):
        k=rng.randrange(8)
        if k==0: x,y=rng.choice([0.0,-0.0]),rng.choice([0.0,-0.0,rng.uniform(-0.99,0.99)])
        elif k==1: x,y=rng.uniform(-0.99,0.99),0.0
        elif k==2: m=10.0**rng.uniform(-200,-1); x,y=m*rng.uniform(-1,1),m*rng.uniform(-1,1)
        elif k==3: t=rng.uniform(-4,4); m=math.sqrt(0.99)*(1-10.0**rng.uniform(-15,-2)); x,y=m*math.cos(t),m*math.sin(t)
        elif k==4: x,y=rng.uniform(-1e-2,1e-2),rng.uniform(-1e-2,1e-2)
        else: x,y=rng.uniform(-1,1),rng.uniform(-1,1)
        if inr(x,y): yield x,y
def f02_corpus(rng):
    for x,y in poles(rng): yield dict(x=x,y=y,s=rng.choice([angle(rng,100),rng.uniform(-1e-7,1e-7)]))
def pole(ctx):
    x,y=ctx.input('x',-1,1),ctx.input('y',-1,1); r2=x*x+y*y
    ctx.assume+=[(r2,F(0),RMAX),(1-r2,1-RMAX,F(1))]
    for v in(ctx.inp['x'],ctx.inp['y']):
        for at in v.p.vars(): ctx.atoms[at].lo=F(-995,1000); ctx.atoms[at].hi=F(995,1000)
        v.lo=-0.995; v.hi=0.995
def c2i_claims(ck,en,setup,sref,oracle,corpus,tag,third=True):
    """the matrix is R3(-s) times the s=0 matrix of the pole (X,Y)"""
    ck.target(en,oracle,corpus); tol=F(1,10**12)
    ps=ck.explore(en,IvFeas(setup)); tasks=[]
    for k,p in enumerate(ps):
        def fn(ctx,p,k=k):
            t='%spath %d: '%(tag,k)
            if p.outcome=='panic': return [(t+'cannot panic',None,0,())]
            a=Sym(ctx); x,y=ctx.inp['x'].p,ctx.inp['y'].p
            fs=ctx.facts(p.cond); near0=any(h is not None and h<TINYP and f.d==(x*x+y*y).d for f,l,h in fs)
            if near0:
                # x^2+y^2 so small that both vanish to 1e-150
                for q in('x','y'):
                    for at in ctx.inp[q].p.vars(): ctx.atoms[at].lo=-F(1,10**150); ctx.atoms[at].hi=F(1,10**150); ctx.atoms[at].sample=F(0)
                    ctx.inp[q].lo=-1e-150; ctx.inp[q].hi=1e-150
                ctx.memo.clear(); ctx.algs.clear()
                s=sref(ctx,x,y); o,n=a.c(1),a.c(0)
                R=flat([[a.cos(s),-a.sin(s),n],[a.sin(s),a.cos(s),n],[n,n,o]]); 
            else:
                r=ctx.sqrtp(x*x+y*y); i=ctx.invp2(r); s=sref(ctx,x,y)
                R=flat(c2i_ref(a,(x*i,y*i),ctx.sqrtp(1-x*x-y*y),r,(a.sin(s),a.cos(s)))[1])
                R[6]=x; R[7]=y; R[8]=ctx.sqrtp(1-x*x-y*y)
            return [('%selement (%d,%d)'%(t,j//3,j%3),ctx.lower(p.out[0][j]),R[j],[] if not near0 else fs) for j in range(9)]
        for ctx,lab,v,R,fs in cases(setup,p,fn):
            def run(ctx=ctx,lab=lab,v=v,R=R,fs=fs,p=p):
                if v is None: return [Verdict(lab,'sat')]
                Ctx.cur=ctx; e=v.err()+ctx.referr
                if not fs: return [Verdict(lab,ctx.residual(v.p-R,e,tol),note='rounding %.1e'%e)]
                # the reference at the exact origin differs from the one at (x,y) by less than 1e-150 times small factors
                d,e2=ctx.collapse(v.p-R)
                return [Verdict(lab,ctx.residual(d,e+e2+1e-100,tol)),query(lab+': the pole is within 1e-150 of the origin on this path',zbound(fs,ctx))]
            tasks.append((lab,run))
    vs=ck.run(tasks); ck.settle(en,vs,oracle,corpus,tag)
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(corpus(ck.rng),60)),oracle=oracle)
def zbound(fs,ctx):
    x,y=z3.Reals('x y'); h=min(h for _,_,h in fs if h is not None)
    return [x*x+y*y<=relax.q(F(h)),z3.Or(x*x>relax.q(F(1,10**300)),y*y>relax.q(F(1,10**300)))]
def f02bpn(i,bpn):
    """oracle for the forms that take the CIO locator from the date: against the library's own locator"""
    def oracle(f,i_,r):
        x,y=(f[8],f[9]) if bpn else (f[2],f[3])
        if not(inr(x,y) and D1000.inside(f[0],f[1])): return None
        if bpn and not all(abs(v)<=1 for v in f[2:11]): return None
        call='celestial_to_intermediate at (%r,%r) with X=%r Y=%r'%(f[0],f[1],x,y)
        if r[0]=='panic': return call+' panics'
        s=cio_series(NUM,NUM.c(D1000.T(f)))-NUM.c(F(x)*F(y)/2)
        return cmpm(call,r[1],flat(c2i_num(x,y,s)),1e-12)
    return oracle
def F02(ck):
    ck.bounds.append('X^2+Y^2 <= 0.99, |s| <= 100 rad; for the dated forms '+DB%1000+'; other matrix entries in [-1,1]; tolerance 1e-12')
    ck.assumptions.append(LIB)
    def setup(ctx): pole(ctx); ctx.input('s',-100,100)
    c2i_claims(ck,Entry('h_c2i_xys',[var('x','f'),var('y','f'),var('s','f')]),setup,lambda ctx,x,y:ctx.inp['s'].p,f02_oracle,f02_corpus,'from X, Y, s, ')
    if ck.violations: return
    sref=lambda ctx,x,y: cio_series(Sym(ctx),ctx.T['d1'])-(x*y).scale(F(1,2))
    def setup(ctx): D1000(ctx); pole(ctx); ctx.slack=1e-9
    def corpus(rng):
        for d,(x,y) in zip(D1000.corpus(rng,300),poles(rng)): yield dict(d,x=x,y=y)
    c2i_claims(ck,en2('h_c2i_xy','x','y'),setup,sref,f02bpn(0,False),corpus,'from date, X, Y, ')
    if ck.violations: return
    M=['m%d'%k for k in range(9)]; nm=lambda k: 'x' if k==6 else 'y' if k==7 else M[k]
    def setup(ctx):
        D1000(ctx); pole(ctx); ctx.slack=1e-9
        for k in range(9):
            if k not in(6,7): ctx.input(M[k],-1,1)
    def corpus2(rng):
        for e in corpus(rng): yield dict(e,**{M[k]:rng.uniform(-1,1) for k in range(9) if k not in(6,7)})
    c2i_claims(ck,Entry('h_c2i_bpn',[var('d1','f'),var('d2','f')]+[var(nm(k),'f') for k in range(9)]),setup,sref,f02bpn(0,True),corpus2,'from date and matrix, ')
    if ck.violations: return
    en=Entry('h_xy_from_bpn',[var(m,'f') for m in M])
    def orc(f,i,r):
        if r[0]=='panic' or not all(a==b for a,b in zip(r[1][:2],f[6:8])): return 'xy_from_bpn(%r) is %r'%(f[:9],r[1][:2])
    c=lambda rng:({m:rng.uniform(-1,1) for m in M} for _ in range(100))
    def st(ctx):
        for m in M: ctx.input(m,-1,1)
    polycheck(ck,en,st,lambda a,ctx:[('X',0,ctx.inp['m6'].p),('Y',1,ctx.inp['m7'].p)],0,orc,c,tag='pole of a matrix, ')
    if ck.violations: return
    def closed():
        x,y,z,r,i=z3.Reals('x y z r i'); H=[r>0,r*r==x*x+y*y,i*r==1,z>=0,z*z==1-x*x-y*y]
        a=1/(1+z)
        return [query('the s=0 matrix is the closed form with a=1/(1+Z): '+n,H+[p!=q]) for n,p,q in(
            ('(0,0)',(x*i*x*i*z+y*i*y*i)*(1+z),1+z-x*x),('(0,1)',(x*i*y*i*z-x*i*y*i)*(1+z),-x*y),('(1,1)',(y*i*y*i*z+x*i*x*i)*(1+z),1+z-y*y))]
    vs=ck.run([('closed form',closed)]); ck.settle(en,vs,orc,c)

# ------------------------------------------------------------------ F04
EPS0='84381.448'
def t_of(a,T): return T/36525 if a is NUM else T.scale(1/CY)
def obl(a,t): return asx(a,qs(EPS0,'-46.8150','-0.00059','0.001813'),t)
def rates(a,t): return asx(a,qs('0','-0.29965'),t),asx(a,qs('0','-0.02524'),t)
def bias(a): 
    k=(PI if a is not NUM else mp.pi)/648000
    return [a.c(F(x))*k for x in('-0.041775','-0.0068192','-0.0146')]
def bp_ref(a,T):
    """bias, precession, bias-precession matrices"""
    t=t_of(a,T); db,de,dr=bias(a); pr,er=rates(a,t); e0=asx(a,qs(EPS0),t)
    psi=asx(a,qs('0','5038.7784','-1.07259','-0.001147'),t)+pr
    om=asx(a,qs(EPS0,'0','0.05127','-0.007726'),t)+er
    chi=asx(a,qs('0','10.5526','-2.38064','-0.001125'),t)
    if a is NUM: se=mp.sin(e0)
    else: se=a.c(F(str(mp.sin(NUM.c(F(EPS0))*mp.pi/648000))))    # a constant: 40 digits
    rb=prod(R3(a,0,-de),R3(a,1,db*se),R3(a,2,dr))
    rp=prod(R3(a,2,chi),R3(a,0,-om),R3(a,2,-psi),R3(a,0,e0))
    return rb,rp,mm(rp,rb)
def vec_oracle(fn,names,tol,dom,what):
    return near_oracle(fn,len(names),names,tol,dom,what)
EL=['(%d,%d)'%(i,j) for i in range(3) for j in range(3)]
def fine(dom):
    def s(ctx): ctx.slack=1e-10; dom(ctx)
    return s
def F04(ck):
    ck.bounds.append(DB%1000+', tolerance 1e-12; '+DB%10000+', tolerance 1e-10'); ck.assumptions.append(LIB); tol=F(1,10**12); co=mixed; far=F(1,10**10); g=grad(1e-12,1e-10)
    D=fine(D10K); ND=fine(D1000); T=lambda ctx: ctx.T['d1']
    en=Entry('h_frame_bias'); ref=[float(x) for x in bias(NUM)]
    def orc(f,i,r):
        if r[0]=='panic' or any(not abs(v-e)<=1e-20 for v,e in zip(r[1],ref)): return 'frame_bias is %r, expected %r'%(r[1][:3],ref)
    none=lambda rng: iter([{}])
    polycheck(ck,en,lambda c:None,lambda a,ctx:[('bias %d'%k,k,p) for k,p in enumerate(bias(a))],F(1,10**20),orc,none,tag='frame bias, ')
    if ck.violations: return
    fn=lambda a,T:[obl(a,t_of(a,T))]
    wide(ck,en2('h_mean_obliquity'),D,lambda a,ctx:[('mean obliquity',0,fn(a,T(ctx))[0])],tol,far,vec_oracle(fn,['value'],g,D10K,'mean obliquity'),co,ND)
    if ck.violations: return
    fr=lambda a,T:list(rates(a,t_of(a,T)))
    wide(ck,en2('h_precession_rate'),D,lambda a,ctx:[('rate %d'%k,k,p) for k,p in enumerate(fr(a,T(ctx)))],tol,far,vec_oracle(fr,['dpsipr','depspr'],g,D10K,'precession rate'),co,ND,tag='precession ')
    if ck.violations: return
    fm=lambda a,T: sum([flat(m) for m in bp_ref(a,T)],[])
    nm=[n+' '+e for n in('bias','precession','bias-precession') for e in EL]
    wide(ck,en2('h_bias_precession'),D,lambda a,ctx:[(nm[k],k,p) for k,p in enumerate(fm(a,T(ctx)))],tol,far,vec_oracle(fm,nm,g,D10K,'bias and precession'),co,ND)

# ------------------------------------------------------------------ F05
def numat(a,eps,dpsi,deps): return prod(R3(a,0,-(eps+deps)),R3(a,2,-dpsi),R3(a,0,eps))
def pn_ref(a,T):
    t=t_of(a,T); dpsi,deps=nutation_ref(a,T)
    return mm(numat(a,obl(a,t)+rates(a,t)[1],dpsi,deps),bp_ref(a,T)[2])
def F05(ck):
    ck.bounds.append(DB%1000+'; nutation matrix for angles of magnitude up to 100 rad; tolerance 1e-12'); ck.assumptions.append(LIB); tol=F(1,10**12)
    ns=('eps','dpsi','deps')
    def orc(f,i,r):
        if not all(abs(x)<=100 for x in f[:3]): return None
        call='nutation_matrix(%r,%r,%r)'%tuple(f[:3])
        return call+' panics' if r[0]=='panic' else cmpm(call,r[1],flat(numat(NUM,*[mp.mpf(x) for x in f[:3]])),1e-12)
    def co(rng):
        for _ in range(500): yield {n:angle(rng,100) for n in ns}
    def st(ctx):
        for n in ns: ctx.input(n,-100,100)
    polycheck(ck,Entry('h_nutation_matrix',[var(n,'f') for n in ns]),st,lambda a,ctx:[('element '+EL[k],k,p) for k,p in enumerate(flat(numat(a,*[ctx.inp[n].p for n in ns])))],tol,orc,co,tag='nutation matrix, ')
    if ck.violations: return
    def st(ctx): ctx.slack=1e-10; D1000(ctx); ctx.input('p',-100,100); ctx.input('e',-100,100)
    def orc(f,i,r):
        if not D1000.inside(f[0],f[1]) or not all(abs(x)<=100 for x in f[2:4]): return None
        call='precession-nutation at (%r,%r)'%(f[0],f[1])
        if r[0]=='panic': return call+' panics'
        d=nutation_ref(NUM,NUM.c(D1000.T(f)))[0]
        if not abs(mp.mpf(r[1][0])-d)<=1e-12: return call+': dpsi is %r, expected %s'%(r[1][0],mp.nstr(d,20))
        if r[1][1]!=f[2]: return call+': with nutation angles (%r,%r) dpsi is %r'%(f[2],f[3],r[1][1])
    def co(rng):
        for e in D1000.corpus(rng): yield dict(e,p=rng.uniform(-1e-3,1e-3),e=rng.uniform(-1e-3,1e-3))
    polycheck(ck,en2('h_pn_dpsi','p','e'),st,lambda a,ctx:[('computed nutation in longitude',0,nutation_ref(a,ctx.T['d1'])[0]),('given nutation in longitude',1,ctx.inp['p'].p)],tol,orc,co)
    if ck.violations: return
    fm=lambda a,T: flat(pn_ref(a,T))
    polycheck(ck,en2('h_precession_nutation'),fine(D1000),lambda a,ctx:[('element '+EL[k],k,p) for k,p in enumerate(fm(a,ctx.T['d1']))],tol,vec_oracle(fm,EL,1e-12,D1000,'precession-nutation'),lambda rng:D1000.corpus(rng,100),tag='precession-nutation, ',timeout=60000)

# ------------------------------------------------------------------ F06
def F06(ck):
    ck.bounds.append('TT and UT1 separately: '+DB%1000+'; pole coordinates and angles up to 100 rad; matrix entries in [-10,10] for the component form; tolerance 1e-12')
    ck.assumptions.append(LIB); tol=F(1,10**12)
    pom=lambda a,x,y,s: prod(R3(a,0,-y),R3(a,1,-x),R3(a,2,s))
    def box(ns,b):
        def st(ctx):
            for n in ns: ctx.input(n,-b,b)
        return st
    ns=('x','y','s')
    def orc(f,i,r):
        if not all(abs(v)<=100 for v in f[:3]): return None
        call='polar_motion_matrix(%r,%r,%r)'%tuple(f[:3])
        return call+' panics' if r[0]=='panic' else cmpm(call,r[1],flat(pom(NUM,*[mp.mpf(v) for v in f[:3]])),1e-12)
    def co(rng):
        for _ in range(500): yield {n:angle(rng,100) for n in ns}
    polycheck(ck,Entry('h_polar_motion',[var(n,'f') for n in ns]),box(ns,100),lambda a,ctx:[('element '+EL[k],k,p) for k,p in enumerate(flat(pom(a,*[ctx.inp[n].p for n in ns])))],tol,orc,co,tag='polar motion, ')
    if ck.violations: return
    # component form
    A=['a%d'%k for k in range(9)]; B=['b%d'%k for k in range(9)]; al=A+['t']+B
    def orc(f,i,r):
        if not all(abs(v)<=10 for v in f[:9]+f[10:19]) or not abs(f[9])<=100: return None
        call='celestial_to_terrestrial_from_cio_components(%r,%r,%r)'%(f[:9],f[9],f[10:19])
        if r[0]=='panic': return call+' panics'
        q=[[mp.mpf(x) for x in w] for w in m9(f[:9])]; w=[[mp.mpf(x) for x in w] for w in m9(f[10:19])]
        for k,e in enumerate(flat(prod(w,R3(NUM,2,mp.mpf(f[9])),q))):
            if not abs(mp.mpf(r[1][k])-e)<=1e-12: return call+': element %s is %r, expected %s'%(EL[k],r[1][k],mp.nstr(e,20))
    def co(rng):
        for _ in range(500): yield {n:angle(rng,100) if n=='t' else rng.choice([rng.uniform(-1,1),rng.uniform(-10,10),float(rng.randint(-2,2))]) for n in al}
    def st(ctx): box(A+B,10)(ctx); ctx.input('t',-100,100)
    def ref(a,ctx):
        g=lambda ns: m9([ctx.inp[n].p for n in ns])
        return [('element '+EL[k],k,p) for k,p in enumerate(flat(prod(g(B),R3(a,2,ctx.inp['t'].p),g(A))))]
    polycheck(ck,Entry('h_c2t_cio',[var(n,'f') for n in al]),st,ref,tol,orc,co,tag='component form, ')
    if ck.violations: return
    # the full transformation: product of the library's own intermediate matrix and Earth rotation angle
    U=Dates(1000,'u1','u2'); f=lambda *a: [var(x,'f') for x in a]
    en=Entry('h_c2t',f('d1','d2','u1','u2','x','y')); ei=Entry('h_c2i',f('d1','d2')); er=Entry('h_era',f('u1','u2'))
    dom=Doms(D1000,U,('x',100),('y',100))
    def orc(f,i,r):
        if not dom.inside(f): return None
        call='celestial_to_terrestrial(%r)'%(f[:6],)
        if r[0]=='panic': return call+' panics'
        c=ck.rel.call('h_c2i',f[:2],[]); e=ck.rel.call('h_era',f[2:4],[])
        if c[0]!='ok' or e[0]!='ok': return call+': its parts panic'
        ref=prod(pom(NUM,mp.mpf(f[4]),mp.mpf(f[5]),mp.mpf(0)),R3(NUM,2,mp.mpf(e[1][0])),[[mp.mpf(x) for x in w] for w in m9(c[1])])
        return cmpm(call,r[1],flat(ref),1e-12)
    def co(rng):
        g=dom.gen(400)
        for e in g(rng):
            yield dict(e,x=rng.choice([0.0,rng.uniform(-3e-6,3e-6),rng.uniform(-1,1)]),y=rng.choice([0.0,rng.uniform(-3e-6,3e-6),rng.uniform(-1,1)]))
    def setup(ctx): ctx.opaque=True; ctx.cap=60; dom(ctx)
    class Free:
        def __call__(s,*a): return True
        def value(s,*a): raise Unsupported('symbolic index')
    ck.target(en,orc,co)
    ps=ck.explore(en,Free()); pi=ck.explore(ei,Free()); pe=ck.explore(er,Free()); tasks=[]
    days=365250; n=2; sl=[(-days,0),(0,days)]
    for s in sl:
        def run(s=s):
            out=[]
            def st(ctx): setup(ctx); narrow(ctx,'d1',*s)
            for k,p in enumerate(ps):
                def fn(ctx,p,k=k):
                    t='path %d: '%k
                    if p.outcome=='panic': return [(t+'cannot panic',None,None,None)]
                    def pick(qs):
                        c=[q for q in qs if q.outcome!='panic' and agree(ctx,p,q)]
                        if len(c)!=1: raise Unsupported('%d matching paths of a part'%len(c))
                        return c[0]
                    ci=[ctx.lower(x) for x in pick(pi).out[0][:9]]; eo=pick(pe).out[0][0]
                    def rot(ax,n,neg):
                        c,sn=ctx.lower(tnode('cos',n,neg)),ctx.lower(tnode('sin',n,neg)); return rot_ref(ax,c.p,sn.p,Poly({():F(1)}),Poly())
                    R=prod(rot(0,var('y','f'),True),rot(1,var('x','f'),True),rot(2,eo,False),m9([v.p for v in ci]))
                    e=sum(v.err() for v in ci)+1e-15
                    return [(t+'element '+EL[j],ctx.lower(p.out[0][j]),flat(R)[j],3*e) for j in range(9)]
                for ctx,lab,v,R,e in cases(st,p,fn):
                    Ctx.cur=ctx
                    out.append(Verdict(lab,'sat') if v is None else Verdict(lab,ctx.residual(v.p-R,v.err()+e,tol),note='rounding %.1e'%(v.err()+e)))
            return out
        tasks.append(('full transformation, days %d to %d'%s,run))
    vs=ck.run(tasks); ck.settle(en,vs,orc,co)
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(co(ck.rng),20)),oracle=orc)
def tnode(op,n,neg):
    g=term.fneg(n) if neg else n
    return term.fun(op,g) if hasattr(term,'fun') else term.N(op,'f',(g,))
def agree(ctx,p,q):
    """a path of a part lies on the path of the whole"""
    have={c.id:b for c,b in p.cond}
    return all(have.get(c.id)==b for c,b in q.cond)
