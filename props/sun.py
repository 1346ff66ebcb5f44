"""The Sun angle calculator of tofas_extras."""
import math, itertools, time
from fractions import Fraction as F
import z3
from vt import symex, term, relax, poly, polycheck
from vt.term import var, N, topo
from vt.ll import Unsupported
from vt.check import Entry, Verdict, feq
from vt.polycheck import *
from vt.poly import Poly, Ctx, Split, V
from .cal import valid, mlen
from .series import LIB, en2, D10K
from .lin import query, NORM2
from .ell import k02_ref

FN=('s','lo','la','h','de'); INn=('y','m','d','hh','mm')
DOM=(('s',0,60),('lo',-1000,1000),('la',-90,90),('h',-100000,10**8),('de',-864000,864000))
Y0,Y1=-4799,7000
AUM=149597870700; DUT=F(-0.072073685); RAD=poly.PI/180
WA,WF=6378137.0,1/298.257223563
CHUNKS=[(Y0,-401),(-400,-1),(0,1959),(1960,1961),(1962,1964),(1965,1965),(1966,1968),(1969,1972),(1973,1975),(1976,1979),(1980,1983),(1984,1990),(1991,1993),(1994,1996),(1997,2005),(2006,2011),(2012,2016),(2017,Y1)]
def entry(): return Entry('h_sun',[var(n,'f') for n in FN],[var(n,32) for n in INn])
def ints(ctx,y0,y1): ctx.iin.update(y=(y0,y1),m=(1,12),d=(1,31),hh=(0,23),mm=(0,59))
def setup(y0,y1):
    def st(ctx):
        ctx.opaque=True; ctx.cap=60; ints(ctx,y0,y1)
        for n,l,h in DOM: ctx.input(n,l,h)
    return st
def tj(y0,y1):
    """tolerance of the second date part by the years: the part is below 9e4 days until 2100"""
    return 6e-11 if y0>=1960 and y1<=2100 else 2e-9
def inside(f,i):
    return valid(*i[:3]) and i[0]<=Y1 and 0<=i[3]<24 and 0<=i[4]<60 and all(l<=x<=h for x,(_,l,h) in zip(f,DOM))
TOL=[(0,1,0.0,'jd0'),(1,1,2e-9,'jd1'),(2,1,0.0,'delta_s'),(3,3,1e-6,'p'),(6,1,0.0,'utc.0'),(7,1,2e-9,'utc.1'),(8,1,1e-9,'dat'),(9,2,2e-9,'tai'),(11,2,2e-9,'tt'),(13,2,2e-9,'ut1'),(15,1,2e-8,'era'),(16,3,1e-9,'earth'),(19,3,3000.0,'sun_e')]
def describe(f,i): return 'Sun angle at %d-%02d-%02d %02d:%02d:%r, longitude %r, latitude %r, height %r, offset %r s'%(tuple(i[:5])+tuple(f[:5]))
def s01_oracle(ck):
    # the chain is run natively, with the conversions of the library
    def o(f,i,r):
        if not inside(f,i): return None
        c=describe(f,i)
        if r[0]=='panic': return c+' panics'
        q=ck.rel.call('h_sun_ref',f,i)
        if q[0]!='ok': return None
        for k,n,t,w in TOL:
            for j in range(k,k+n):
                a,b=r[1][j],q[1][j]
                if w=='era': d=abs(a-b); d=min(d,2*math.pi-d)
                elif w in('p',): d=abs(a-b); t=1e-6+abs(b)*1e-15
                else: d=abs(a-b); t=tj(i[0],i[0]) if t==2e-9 else t
                if not d<=t: return '%s: %s is %r, the documented chain of conversions gives %r'%(c,w,a,b)
    return o
def s02_oracle(ck):
    def o(f,i,r):
        if not inside(f,i): return None
        c=describe(f,i)
        if r[0]=='panic': return c+' panics'
        z=r[1][22]
        if not 0<=z<=math.pi: return c+': zenith angle is %r'%z
        lo,la=NUM.c(f[1])*mp.pi/180,NUM.c(f[2])*mp.pi/180
        v=[mp.cos(la)*mp.cos(lo),mp.cos(la)*mp.sin(lo),mp.sin(la)]; s=[mp.mpf(x) for x in r[1][19:22]]
        e=mp.acos(max(-1,min(1,sum(a*b for a,b in zip(v,s))/mp.sqrt(sum(x*x for x in s)))))
        if not abs(mp.cos(e)-mp.cos(mp.mpf(z)))<=1e-13: return '%s: zenith angle is %r, the angle between the vertical and the reported Sun is %s'%(c,z,mp.nstr(e,18))
        p=k02_ref(NUM,lo,la,mp.mpf(f[3]),mp.mpf(WA),mp.mpf(WF),NUM.sqrt,NUM.inv)
        for k in range(3):
            if not abs(p[k]-mp.mpf(r[1][3+k]))<=1e-6: return '%s: position %s is %r, expected %s'%(c,'XYZ'[k],r[1][3+k],mp.nstr(p[k],18))
    return o
def corpus(y0=Y0,y1=Y1,n=500):
    def co(rng):
        for y,m in[(y,m) for y in range(max(y0,1960),min(y1,2030)+1) for m in(6,12)]:
            for sec in(60.0,math.nextafter(60,0),60-1e-6):
                yield dict(y=y,m=m,d=mlen(y,m),hh=23,mm=59,s=sec,lo=rng.uniform(-180,180),la=rng.uniform(-90,90),h=0.0,de=0.0)
        for k in range(n):
            a,b=(1960,2030) if k%2 and y0<1960 else (y0,y1); a=max(a,y0)
            y=rng.randint(a,min(b,y1)); m=rng.randint(1,12); d=rng.choice([1,mlen(y,m),rng.randint(1,mlen(y,m))])
            yield dict(y=y,m=m,d=d,hh=rng.choice([0,23,rng.randint(0,23)]),mm=rng.randint(0,59),s=rng.choice([0.0,rng.uniform(0,60),math.nextafter(60,0)]),
                lo=rng.choice([0.0,180.0,-180.0,rng.uniform(-180,180),rng.uniform(-1000,1000),rng.randint(-12,12)*90+rng.choice([-1,1])*10.0**rng.uniform(-13,0)]),la=rng.choice([0.0,90.0,-90.0,rng.uniform(-90,90),rng.uniform(-90,90),rng.choice([-1,1])*10.0**rng.uniform(-13,1),rng.choice([-1,1])*(90-10.0**rng.uniform(-13,1))]),
                h=rng.choice([0.0,rng.uniform(-500,9000),rng.uniform(-1e5,1e8)]),de=rng.choice([0.0,rng.uniform(-90000,90000),86400.0,-86400.0,rng.uniform(-864000,864000)]))
    return co
def parts(o,en):
    """the conversions of the library on the calculator's own intermediate results"""
    y=en.i[:3]; hm=en.i[3:]
    def make(r):
        c=lambda name,f=(),i=(): symex.call_entry(r,name,list(f),list(i)); q={}
        q['jd']=c('h_cal_to_julian',(),y)[0]; q['fr']=c('h_hms_to_fraction',[en.f[0]],hm)[0][0]
        d=c('h_delta_at',[q['fr']],y); q['dk']=d[1][0]; q['dat']=d[0][0]
        q['tai']=c('h_tai_from_utc',o[6:9])[0]; q['tt']=c('h_tt_from_tai',o[9:11])[0]
        q['era']=c('h_era',o[13:15])[0][0]
        q['tdb']=c('h_tdb_from_tt',list(o[11:13])+[0.0])[0][:2]; q['earth']=c('h_epv',q['tdb'])[0][:3]
        q['c2t']=c('h_c2t',list(o[11:15])+XP)[0][:9]
        return q
    return make
AS2R=4.848136811095359935899141e-6
XP=[0.0349282*AS2R,0.4833163*AS2R]
def explore_parts(ck,p,en,st):
    iv=IvFeas(st); ks=[{c.id:b for c,b in q.cond if type(c) is N} for q in getattr(p,'paths',[p])]
    class Members:
        """a branch none of the grouped paths agrees with is not taken"""
        def __call__(s,cond,c,val):
            if type(c) is N and not any(k.get(c.id,val)==val and all(k.get(d.id,b)==b for d,b in cond if type(d) is N) for k in ks): return False
            return iv(cond,c,val)
        def value(s,*a): return iv.value(*a)
    ps=symex.explore(ck.eng,parts(p.out[0],en),Members(),pathcond=p.cond)
    ck.paths+=len(ps); ck.transitions+=sum(x.steps for x in ps)
    return ps
def chunked(ck,en,one,oracle,label,idx):
    def task(y0,y1):
        def run():
            st=setup(y0,y1); st.tj=tj(y0,y1); out=[]; t0=time.time(); ps=ck.explore(en,IvFeas(st))
            if not ps: raise Unsupported('no path for years %d to %d'%(y0,y1))
            for k,p in enumerate(grouped(ps,idx)):
                tag='years %d to %d, path %d: '%(y0,y1,k); v=one(p,tag,st)
                if len(p.paths)>1 and any(x.res!='unsat' for x in v):
                    # the conditions the paths share may not be enough: each path on its own
                    v=[]
                    for j,q in enumerate(p.paths):
                        v+=one(q,tag+'member %d: '%j,st)
                        if any(x.res!='unsat' for x in v): break
                out+=v
                if any(x.res!='unsat' for x in v) and time.time()-t0>90: break   # enough to look for a witness
            if not out: out.append(Verdict('years %d to %d: a feasible path'%(y0,y1),'unknown'))
            return out
        return run
    vs=ck.run([(label+' %d-%d'%c,task(*c)) for c in CHUNKS])
    ck.settle(en,vs,oracle,corpus())
    if not ck.violations:
        ps=ck.explore(en,IvFeas(setup(2017,2100))); ck.validate(en,ps,list(corpus(2017,2100)(ck.rng))[::24],oracle=oracle)
BD='dates from %d to %d (date, month and day symbolic), times of day up to 23:59:60, longitude in [-1000,1000], latitude in [-90,90] degrees, height in [-1e5,1e8] m, offset within 10 days'%(Y0,Y1)

class Group:
    """paths with the same outputs; the conditions all of them share"""
    def __init__(s,p): s.out=p.out; s.outcome=p.outcome; s.cond=list(p.cond); s.paths=[p]
    def add(s,p):
        s.paths.append(p)
        k={(c.id,b) for c,b in p.cond}; s.cond=[(c,b) for c,b in s.cond if (c.id,b) in k]
def grouped(ps,idx):
    g={}
    for p in ps:
        k=(p.outcome,)+(tuple(getattr(p.out[0][j],'id',None) or repr(p.out[0][j]) for j in idx) if p.outcome!='panic' else (id(p),))
        if k in g: g[k].add(p)
        else: g[k]=Group(p)
    return list(g.values())
def same(a,b): return a is b if type(a) is N or type(b) is N else feq(a,b)

def S01(ck):
    ck.bounds.append(BD+'; tolerances 2e-9 day (6e-11 day from 1960 to 2016), 1e-9 s, 2e-8 rad, 1e-9 au, 0.1 m')
    ck.assumptions+=[LIB,'trigonometric functions are uninterpreted apart from their range; the conversions themselves are decided by C02 C05 D01 T01 A02 E01 F06 K02',
        'entries of the celestial-to-terrestrial matrix and of the Earth position are at most 4 in size (F01, E02)']
    en=entry(); orc=s01_oracle(ck); ck.target(en,orc,corpus())
    def one(p,tag,st):
        if p.outcome=='panic': return [Verdict(tag+'cannot panic (%s)'%p.out,'sat')]
        out=[]; o=p.out[0]
        for j,q in enumerate(explore_parts(ck,p,en,st)):
            if q.outcome=='panic': out.append(Verdict(tag+'a part cannot panic (%s)'%q.out,'sat')); continue
            r=q.out; t=tag+('part path %d: '%j if j else '')
            pre={c.id:b for c,b in q.cond}
            base=Ctx(); st(base); base.sel=dict(pre)
            if r['dk']==1: out.append(Verdict(t+'the fraction of day is accepted','sat')); continue
            def claim(lab,a,ref,tol,cuts=()):
                """|a-ref|<=tol with the given doubles replaced by symbols of the same interval"""
                if not callable(ref):
                    if same(a,ref):
                        Ctx.cur=base; out.append(Verdict(t+lab,base.residual(Poly(),0.0,tol),note='the same term')); return
                    rn=ref; ref=lambda ctx,C: ctx.lower(rn)
                Ctx.cur=base; iv=[]
                for n,b in cuts:
                    if type(n) is N: iv.append((n,)+(b or (lambda v: (v.lo,v.hi))(base.lower(n))))
                def st2(ctx):
                    st(ctx)
                    for n,l,h in iv: ctx.memo[n.id]=V(ctx.A(ctx.atom('var',F(l),F(h))),0.0,0.0,l,h)
                def fn(ctx,_):
                    ctx.sel={**pre,**ctx.sel}
                    v=ctx.lower(a); w=ref(ctx,lambda n: ctx.lower(n).p); wp,we=(w.p,w.err()) if isinstance(w,V) else (w,0.0)
                    return [(lab,v.p-wp,v.err()+we)]
                class Q: cond=[]
                for ctx,l,d,e in cases(st2,Q,fn):
                    Ctx.cur=ctx; out.append(Verdict(t+lab,ctx.residual(d,e,tol),note='residual terms %d, rounding %.1e'%(len(d.d),e)))
            jd0,jd1,fr=r['jd'][0],r['jd'][1],r['fr']; own=lambda a,b: [(o[k],None) for k in range(a,b)]
            claim('jd0',o[0],jd0,0); claim('jd1',o[1],lambda ctx,C: C(jd1)+C(fr)+ctx.inp['de'].p/86400,st.tj,[(jd1,None),(fr,None)])
            claim('delta_s',o[2],en.f[4],0)
            claim('utc.0',o[6],o[0],0); claim('utc.1',o[7],o[1],st.tj,own(1,2))
            claim('dat',o[8],r['dat'] if r['dk']==0 else 0.0,1e-9)
            for k in(0,1): claim('tai.%d'%k,o[9+k],r['tai'][k],st.tj,own(6,9))
            for k in(0,1): claim('tt.%d'%k,o[11+k],r['tt'][k],st.tj,own(9,11))
            claim('ut1.0',o[13],o[0],st.tj,own(0,1)); claim('ut1.1',o[14],lambda ctx,C: C(o[1])+DUT/86400,st.tj,own(0,2))
            claim('era',o[15],r['era'],2e-8,own(13,15))
            for k in range(3): claim('earth.%d'%k,o[16+k],r['earth'][k],1e-9,own(11,13))
            B=(-4.0,4.0); M=r['c2t']
            for k in range(3):
                claim('sun_e.%d'%k,o[19+k],lambda ctx,C: (C(M[3*k])*C(o[16])+C(M[3*k+1])*C(o[17])+C(M[3*k+2])*C(o[18])).scale(-AUM),F(1,10),[(n,B) for n in list(M)+o[16:19]])
        return out
    chunked(ck,en,one,orc,'years',range(22))

# ------------------------------------------------------------------ S02
def earth_away(ck):
    """the heliocentric Earth stays away from the Sun: first harmonic against the sum of all others"""
    en=en2('h_epv'); D=Dates(7000)
    def run():
        out=[]
        for k,p in enumerate(ck.explore(en,IvFeas(D))):
            if p.outcome=='panic': out.append(Verdict('ephemeris cannot panic','sat')); continue
            def fn(ctx,p): return [(ctx.lower(x),) for x in p.out[0][:3]]
            cs=cases(D,p,fn); by={}
            for ctx,v in cs: by.setdefault(id(ctx),(ctx,[]))[1].append(v)
            for ctx,v in by.values():
                Ctx.cur=ctx
                y=v[1].p.scale(F(917482,10**6))+v[2].p.scale(F(397777,10**6)); x=v[0].p
                def main(q): m=max((m for m in q.d if m),key=lambda m: abs(q.d[m])*max(map(abs,map(F,ctx.mrange(m))))); return m,q.d[m]
                (mx,cx),(my,cy)=main(x),main(y)
                rest=lambda q,m: F(ctx.pmag(Poly({k:c for k,c in q.d.items() if k!=m})))
                rx,ry=rest(x,mx)+F(v[0].err()),rest(y,my)+F(v[1].err()+v[2].err())
                ax,ay=ctx.atoms[mx[0]],ctx.atoms[my[0]]
                if len(mx)>1 or len(my)>1: raise Unsupported('shape of the ephemeris')
                # relation of the two harmonics: arguments differ by an almost constant angle
                dl=(ay.arg-ax.arg); w=dl.const()+(0 if ay.kind=='cos' else -poly.PI/2)-(0 if ax.kind=='cos' else -poly.PI/2)
                sl=F(ctx.pmag(dl-dl.const()))
                C,S_,a,b,X,Y=z3.Reals('c s a b X Y'); cw,sw=[F(str(g(NUM.c(w)))) for g in(mp.cos,mp.sin)]
                cs=[C*C+S_*S_==1,a-relax.q(cw)*C+relax.q(sw)*S_<=relax.q(sl),a-relax.q(cw)*C+relax.q(sw)*S_>=relax.q(-sl),
                    X-relax.q(cx)*C<=relax.q(rx),X-relax.q(cx)*C>=relax.q(-rx),Y-relax.q(cy)*a<=relax.q(ry),Y-relax.q(cy)*a>=relax.q(-ry),X*X+Y*Y<relax.q(F(1,4))]
                out.append(query('path %d: the Earth is at least half an astronomical unit from the Sun (others: %.3f, %.3f)'%(k,float(rx),float(ry)),cs))
        return out
    return ('distance of the Earth',run)
def S02(ck):
    ck.bounds.append(BD+'; cosine of the angle to 1e-13, position to 1e-6 m')
    ck.assumptions+=[LIB,'the Sun vector is minus the Earth position, rotated by a matrix orthogonal to 1e-12 and scaled (S01, F01), so its length is between 1e10 and 1e13 m',
        'the platform acos maps [-1,1] into [0, pi] and acos(x) has cosine x to 2e-15']
    en=entry(); orc=s02_oracle(ck); ck.target(en,orc,corpus()); seen={}
    def st2(ctx):
        for n,l,h in DOM: ctx.input(n,l,h)
        ctx.S=[ctx.A(ctx.atom('var',F(-10**13),F(10**13),'S%d'%k)) for k in range(3)]
        ctx.n2=sum((x*x for x in ctx.S),Poly()); ctx.assume.append((ctx.n2,F(10**20),F(10**26)))
    def one(p,tag,st):
        if p.outcome=='panic': return [Verdict(tag+'cannot panic (%s)'%p.out,'sat')]
        o=p.out[0]
        key=tuple(x.id if type(x) is N else x for x in o[3:6]); out=[]
        a=o[22]
        if type(a) is N and a.op!='acos': raise Unsupported('the zenith angle is not an arc cosine')
        # the position and the angle as functions of the Sun vector
        vs=[var('S%d'%k,'f') for k in range(3)]
        roots=[x for x in [a]+[c for c,_ in p.cond] if type(x) is N]
        sub=dict(zip([x.id for x in roots],term.substitute(roots,{n.id:v for n,v in zip(o[19:22],vs) if type(n) is N})))
        g=lambda n: sub.get(n.id,n) if type(n) is N else n
        a2=g(a); rel=[(g(c),b) for c,b in p.cond]; rel=[(c,b) for c,b in rel if type(c) is N and any(x.op=='var' and x.args[0][0]=='S' for x in topo([c]))]
        if any(type(c) is int and bool(c)!=b for c,b in [(g(c),b) for c,b in p.cond]): raise Unsupported('cut')
        key=(key,getattr(a2,'id',a2),tuple((c.id,b) for c,b in rel))
        if key in seen: return [Verdict(tag+'as before',seen[key])]
        class Q: pass
        q=Q(); q.cond=rel; q.out=p.out; q.outcome='ok'
        def st3(ctx):
            st2(ctx)
            for k in range(3): ctx.inp['S%d'%k]=V(ctx.S[k],0.0,0.0,-1e13,1e13)
        def fn(ctx,_):
            lo,la=ctx.inp['lo'].p.scale(RAD),ctx.inp['la'].p.scale(RAD); y=Sym(ctx)
            ref=k02_ref(y,lo,la,ctx.inp['h'].p,y.c(WA),y.c(WF),ctx.sqrtp,ctx.invp); X=[]
            for k in range(3): v=ctx.lower(o[3+k]); X.append(('p.%d'%k,v.p-ref[k],v.err()+ctx.referr,F(1,10**6),None,()))
            ctx.referr=0.0
            zen=[y.cos(la)*y.cos(lo),y.cos(la)*y.sin(lo),y.sin(la)]
            c=sum((z*s for z,s in zip(zen,ctx.S)),Poly())*ctx.invp(ctx.sqrtp(ctx.n2)); re=ctx.referr
            if type(a2) is float:
                v=V(ctx.const(F(str(mp.cos(mp.mpf(a2))))),0.0,1e-30,-1.0,1.0); ids={}
                if not 0<=a2<=math.pi: X.append(('zenith angle %r'%a2,Poly(),1.0,F(0),None,()))
            else: v=ctx.lower(a2.args[0]); ids={n.id:n for n in topo([a2]) if n.op=='fcmp'}
            fs=ctx.facts([(ids[k],b) for k,b in ctx.sel.items() if k in ids]+rel)+[(c,F(-1),F(1))]
            X.append(('cosine of the zenith angle',v.p-c,v.err()+re,F(1,10**13),(v.lo,v.hi),fs))
            return X
        for ctx,lab,d,e,tol,rng,fs in cases(st3,q,fn):
            Ctx.cur=ctx; out.append(Verdict(tag+lab,ctx.residual(d,e,tol,facts=fs),note='residual terms %d, rounding %.1e'%(len(d.d),e)))
            if rng:
                x=z3.Real('x'); out.append(query(tag+'argument of acos within [-1,1]',[x>=relax.q(F(rng[0])),x<=relax.q(F(rng[1])),z3.Or(x>1,x<-1)]))
        seen[key]='unsat' if all(v.res=='unsat' for v in out) else 'unknown'   # nothing to claim: no case of the path is possible
        return out
    vs=ck.run([earth_away(ck),('Cauchy-Schwarz',lambda: cauchy())]); ck.settle(en,vs,orc,corpus())
    if not ck.violations: chunked(ck,en,one,orc,'years',range(23))
def cauchy():
    a=z3.Reals('a0 a1 a2'); b=z3.Reals('b0 b1 b2')
    p=(a[1]*b[2]-a[2]*b[1]); q=a[2]*b[0]-a[0]*b[2]; r=a[0]*b[1]-a[1]*b[0]
    l=sum(x*x for x in a)*sum(x*x for x in b)-sum(x*y for x,y in zip(a,b))*sum(x*y for x,y in zip(a,b))-(p*p+q*q+r*r)
    x,y,z=z3.Reals('p q r'); t,n=z3.Reals('t n')
    return [query('the normalised dot product is within [-1,1]: Lagrange identity',[z3.simplify(l,som=True)!=0]),query('hence its square is at most 1',[n>0,n-t*t==x*x+y*y+z*z,t*t>n])]
