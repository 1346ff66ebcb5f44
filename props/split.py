"""Two-part dates: any two splits of an instant give the same results."""
import math, itertools, time
from fractions import Fraction as F
from vt import symex, term, poly
from vt.term import var, N
from vt.ll import Unsupported
from vt.check import Entry, Verdict
from vt.polycheck import *
from vt.poly import Poly, Ctx, V
from .series import DB, LIB
from .frames import pole
from .sun import same

class Both:
    """two splits of the same instant"""
    def __init__(s,years,part=4000000,slack=1e-10,more=None): s.d=Dates(years,part=part); s.part=part; s.slack=slack; s.more=more
    def __call__(s,ctx):
        ctx.slack=s.slack; s.d(ctx); T=ctx.T['d1']
        e2=ctx.input('e2',-s.part,s.part); ctx.input('e1',-s.part,s.part,T+J2000-e2)
        if s.more: s.more(ctx)
# entry, outputs, tolerance, further arguments, on the circle
ITEMS=[('h_era',range(1),F(1,10**8),(),True,'Earth rotation angle'),
 ('h_precession_rate',range(2),F(1,10**15),(),False,'precession rate'),
 ('h_mean_obliquity',range(1),F(2,10**12),(),False,'mean obliquity'),
 ('h_bias_precession',range(27),F(2,10**12),(),False,'bias and precession'),
 ('h_nutation',range(2),F(2,10**13),(),False,'nutation'),
 ('h_pn_dpsi',range(2),F(2,10**12),('p','q'),False,'nutation of precession-nutation'),
 ('h_precession_nutation',range(9),F(2,10**12),(),False,'precession-nutation'),
 ('h_cio',range(1),F(2,10**14),('p','q'),False,'CIO locator'),
 ('h_c2i_xy',range(9),F(2,10**12),('x','y'),False,'celestial-to-intermediate of a pole'),
 ('h_c2i_bpn',range(9),F(2,10**12),('m0','m1','m2','m3','m4','m5','x','y','m8'),False,'celestial-to-intermediate of a matrix'),
 ('h_epv',range(12),F(2,10**11),(),False,'Earth ephemeris')]
def splits(d1,d2):
    s=F(d1)+F(d2); S=float(s)
    for a in(d2,2451545.0,2400000.5,0.0,math.floor(S)+0.5,float(round(S)),S-2451545.0,1000000.25,-3000000.0):
        b=float(s-F(a))
        if abs(a)<=4e6 and abs(b)<=4e6 and F(a)+F(b)==s and(a,b)!=(d1,d2): yield a,b
def make_oracle(ck,name,outs,tol,more,circ,what,years):
    D=Dates(years)
    def oracle(f,i,r):
        if not D.inside(f[0],f[1]): return None
        if 'x' in more:
            k=2+more.index('x')
            if F(f[k])**2+F(f[k+1])**2>F(99,100): return None
        qs=list(splits(f[0],f[1])); rs=ck.rel.batch([(name,[a,b]+list(f[2:]),[]) for a,b in qs])
        for (a,b),q in zip(qs,rs):
            c='%s at (%r,%r)'%(what,f[0],f[1])
            if r[0]!=q[0]: return c+' and at (%r,%r): one of them panics'%(a,b)
            if r[0]=='panic': continue
            for k in outs:
                d=abs(r[1][k]-q[1][k]); d=min(d,abs(2*math.pi-d)) if circ else d
                if not d<=float(tol): return '%s: output %d is %r, with the same instant split as (%r,%r) it is %r'%(c,k,r[1][k],a,b,q[1][k])
    return oracle
def make_corpus(years,more):
    def corpus(rng):
        for k in range(400):
            d=years*365.25; T=rng.choice([rng.uniform(-d,d),float(rng.randint(-int(d),int(d))),rng.randint(-int(d),int(d))+0.5,rng.uniform(-40000,40000)]); T=round(T*2**20)/2**20
            S=2451545.0+T; a=rng.choice([2451545.0,2400000.5,0.0,T,S,math.floor(S)+0.5,float(round(S)),rng.randint(-1500000,3999999)+0.25])
            e=dict(d1=a,d2=S-a)
            for n in more: e[n]=rng.uniform(-0.01,0.01) if n in 'xy' else rng.uniform(-1,1)
            yield e
    return corpus
def snapped(ctx,path):
    """a quantity that the conditions of the path confine to next to nothing, where the result is a constant"""
    fs={}
    for p,l,h in ctx.facts(path.cond):
        c=p.d.get((),F(0)); k=tuple(sorted((m,v) for m,v in p.d.items() if m)); a,b,c0=fs.get(k,(None,None,c))
        if l is not None and(a is None or l-c+c0>a): a=l-c+c0
        if h is not None and(b is None or h-c+c0<b): b=h-c+c0
        fs[k]=(a,b,c0)
    for k,(a,b,c0) in fs.items():
        if k and a is not None and b is not None and max(abs(a),abs(b))<F(1,10**8): return Poly(dict(k))+Poly({():c0}),float(max(abs(a),abs(b)))*(1+1e-9)
    return None,0.0
class Joint:
    def __init__(s,p,q): s.cond=p.cond+[c for c in q.cond if not any(c[0] is d[0] and c[1]==d[1] for d in p.cond)]; s.outcome='panic' if 'panic' in(p.outcome,q.outcome) else 'ok'; s.p=p; s.q=q; s.out=p.out
def X02(ck):
    years=1000 if not ck.quick else 100
    ck.bounds.append('two pairs of doubles of magnitude <= 4e6 days with the same exact sum, within %d Julian years of J2000; pole with X^2+Y^2 <= 0.99; other arguments in [-1,1]'%years)
    ck.assumptions+=[LIB,'celestial_to_intermediate and celestial_to_terrestrial are the dated forms applied to the precession-nutation matrix, the CIO locator and the Earth rotation angle of the same dates; a difference of the matrix within its tolerance passes on without growing (F02, F06)']
    jobs=[]
    for name,outs,tol,more,circ,what in ITEMS:
        if not ck.quick and not circ: tol*=5 # for the longer span
        orc=make_oracle(ck,name,outs,tol,more,circ,what,years); co=make_corpus(years,more)
        A=Entry(name,[var('d1','f'),var('d2','f')]+[var(n,'f') for n in more]); B=Entry(name,[var('e1','f'),var('e2','f')]+[var(n,'f') for n in more])
        ck.target(A,orc,co)
        def extra(ctx,more=more):
            if 'x' in more: pole(ctx)
            for n in more:
                if n not in 'xy': ctx.input(n,-1,1)
        st=Both(years,more=extra,slack=1e-8 if circ else 1e-10)
        def run(A=A,B=B,st=st,outs=outs,tol=tol,circ=circ,what=what):
            fe=IvFeas(st); ps=ck.explore(A,fe); qs=ck.explore(B,fe); out=[]
            for a,p in enumerate(ps):
                for b,q in enumerate(qs):
                    t='%s, paths %d and %d: '%(what,a,b)
                    def fn(ctx,j):
                        if j.outcome=='panic': return [(t+'cannot panic',None,0)]
                        r=[]
                        for k in outs:
                            v,w=ctx.lower(j.p.out[0][k]),ctx.lower(j.q.out[0][k]); d=v.p-w.p; e=v.err()+w.err()
                            if circ:
                                for s,x,z in((1,v,j.p),(-1,w,j.q)):
                                    if x.p.isconst():
                                        y,ey=snapped(ctx,z)
                                        if y is not None: d=d+y*s; e+=ey
                                d,e2=ctx.strip(d); e+=e2
                            r.append((t+'output %d'%k,d,e))
                        return r
                    for ctx,lab,d,e in cases(st,Joint(p,q),fn):
                        Ctx.cur=ctx
                        out.append(Verdict(lab,'sat') if d is None else Verdict(lab,ctx.residual(d,e,tol,timeout=60000),note='residual terms %d, rounding %.1e'%(len(d.d),e)))
            if not out: raise Unsupported(what+': no feasible pair of paths')
            return out
        jobs.append((A,orc,co,what,run))
    def parts():
        """celestial_to_intermediate is the form that takes the matrix, at the same date"""
        f=[var('d1','f'),var('d2','f')]; D=Dates(years); out=[]
        def make(r):
            o=symex.call_entry(r,'h_c2i',f,[])[0]; m=symex.call_entry(r,'h_precession_nutation',f,[])[0][:9]
            return o,m,symex.call_entry(r,'h_c2i_bpn',f+m,[])[0]
        ps=symex.explore(ck.eng,make,None); ck.paths+=len(ps); ck.transitions+=sum(p.steps for p in ps)
        for k,p in enumerate(ps):
            if p.outcome=='panic': out.append(Verdict('celestial to intermediate cannot panic','sat')); continue
            o,m,c=p.out
            for j in range(9):
                l='celestial to intermediate, path %d: element %d is that of the precession-nutation matrix'%(k,j)
                if same(o[j],c[j]): Ctx.cur=x=Ctx(); out.append(Verdict(l,x.residual(Poly(),0.0,F(1,10**12)),note='the same term')); continue
                def st(ctx):
                    ctx.opaque=True; ctx.cap=60; D(ctx)
                    for n in m:
                        if type(n) is N: ctx.memo[n.id]=V(ctx.A(ctx.atom('var',F(-2),F(2))),0.0,0.0,-2.0,2.0)
                def fn(ctx,p): v,w=ctx.lower(o[j]),ctx.lower(c[j]); return [(l,v.p-w.p,v.err()+w.err())]
                for ctx,lab,d,e in cases(st,p,fn): Ctx.cur=ctx; out.append(Verdict(lab,ctx.residual(d,e,F(1,10**12))))
        return out
    order=sorted(range(len(jobs)),key=lambda k: ITEMS[k][0] not in('h_epv','h_precession_nutation','h_c2i_bpn','h_c2i_xy'))
    res=ck.run([(jobs[k][3],jobs[k][4]) for k in order]+[('composition',parts)])
    def c2i_orc(f,i,r):
        if r[0]=='panic' or not Dates(years).inside(f[0],f[1]): return None
        m=ck.rel.call('h_precession_nutation',f[:2]); 
        if m[0]!='ok': return None
        c=ck.rel.call('h_c2i_bpn',list(f[:2])+m[1][:9])
        if c[0]=='ok' and not max(abs(a-b) for a,b in zip(r[1][:9],c[1][:9]))<=1e-12: 
            for a,b in splits(f[0],f[1]):
                q=ck.rel.call('h_c2i',[a,b])
                if q[0]=='ok' and not max(abs(u-v) for u,v in zip(r[1][:9],q[1][:9]))<=1e-11: return 'celestial_to_intermediate at (%r,%r) and at (%r,%r) differ: %r, %r'%(f[0],f[1],a,b,r[1][:9],q[1][:9])
    for A,orc,co,what,_ in jobs:
        vs=[v for v in res if v.label.startswith(what+',')]
        ck.settle(A,vs,orc,co)
        if ck.violations: return
        ck.validate(A,ck.explore(A,IvFeas(Both(years,more=lambda ctx,m=A.f[2:]: [ctx.input(x.args[0],-1,1) for x in m]))),list(itertools.islice(co(ck.rng),8)),oracle=orc)
    en=Entry('h_c2i',[var('d1','f'),var('d2','f')])
    ck.settle(en,[v for v in res if v.label.startswith('celestial to intermediate')],c2i_orc,make_corpus(years,()))
