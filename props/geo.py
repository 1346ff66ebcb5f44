"""Geocentric to geodetic: the exact inverse and its symmetries (K03, K04)."""
import math, itertools
import z3
from fractions import Fraction as F
from vt import symex, term, graded
from vt.graded import G, Val, Ratio, Angle, boxes
from vt.term import var, N, topo
from vt.ll import Unsupported
from vt.check import Entry, Verdict
from vt.polycheck import *
from .series import LIB
from .sun import same
from .ell import k02_ref

class Ell:
    """an ellipsoid and the accuracy claimed for it: latitude and height, near and far"""
    def __init__(s,name,a,f,ta,th):
        s.name=name; s.a=a; s.f=f; k=F(a)/6378137; q=float(k)
        s.bands=((-1e4*q,2e6*q,ta,th*k,F(5,10**8)*k),(-1e6*q,1e9*q,ta*10,th*k*200,F(5,10**6)*k)); s.lo,s.hi=max(1e5,0 if f<.004 else 4*f*(2-f)*6378137)*q,1e12*q
    def use(s):
        global A,FL,BANDS,K3LO,K3HI
        A,FL,BANDS,K3LO,K3HI=s.a,s.f,s.bands,s.lo,s.hi
    def task(s,label,fn):
        def run():
            s.use(); out=fn()
            for v in out: v.label=s.name+': '+v.label
            return out
        return (label,run)
    def corpus(s,c):
        def g(rng):
            s.use(); yield from c(rng)
        return g
ELLS=[Ell('WGS84',6378137.0,1/298.257223563,F(1,10**11),F(1,10**6)),Ell('sphere',6371000.0,0.0,F(1,10**11),F(1,10**6)),
    Ell('Mars',3396190.0,1/169.89,F(1,10**10),F(1,10**6)),Ell('WGS84 in kilometres',6378.137,1/298.257223563,F(1,10**11),F(1,10**6))]
INT=[Ell('GRS80',6378137.0,1/298.257222101,F(1,10**11),F(1,10**6)),Ell('International 1924',6378388.0,1/297.0,F(1,10**11),F(1,10**6))]
MORE=INT+[Ell('Moon',1737400.0,0.0012,F(1,10**11),F(1,10**6)),Ell('Jupiter',71492000.0,0.06487,F(2,10**6),F(2,10**6))]
def which(f):
    for e in ELLS+MORE:
        if f[3]==e.a and f[4]==e.f: e.use(); return True
    return False
XYZ=[var('x','f'),var('y','f'),var('z','f')]
TINY=3e-16   # below this (radians from the pole) the near-axis branch may be taken
ATLIB='atan and atan2 of the platform are within 2^-52 rad of the exact value'

# ------------------------------------------------------------------ reference
def geodetic(x,y,z):
    """exact geodetic coordinates of a point well outside the evolute (40 digits)"""
    x,y,z=mp.mpf(x),mp.mpf(y),mp.mpf(z); f=mp.mpf(FL); a=mp.mpf(A); e2=f*(2-f); r=mp.sqrt(x*x+y*y)
    lon=mp.atan2(y,x) if r else mp.mpf(0)
    s=mp.atan2(z,r*(1-e2)) if r or z else mp.mpf(0)
    for _ in range(60):
        n=a/mp.sqrt(1-e2*mp.sin(s)**2); t=mp.atan2(z+e2*n*mp.sin(s),r)
        if abs(t-s)<mp.mpf(10)**-36: s=t; break
        s=t
    n=a/mp.sqrt(1-e2*mp.sin(s)**2)
    # height along the normal
    return lon,s,r*mp.cos(s)+z*mp.sin(s)-n*(1-e2*mp.sin(s)**2)
def turn(d):
    d=abs(d)%(2*mp.pi); return min(d,2*mp.pi-d)
ELLS[0].use()
def k04_oracle(f,i,r):
    if not which(f): return None
    p=math.hypot(f[0],f[1]); d=math.hypot(p,f[2])
    if not 0.83*A<=d<=172*A: return None
    lon,lat,h=geodetic(*f[:3])
    for lo,hi,ta,th,_ in BANDS:
        if lo<=h<=hi: break
    else: return None
    c='geocentric_to_geodetic(%r,%r,%r)'%tuple(f[:3])
    if r[0]=='panic': return c+' panics'
    g=r[1]
    if not abs(g[1]-lat)<=float(ta)*1.001: return '%s: latitude %r, exact %s'%(c,g[1],mp.nstr(lat,20))
    if not abs(g[2]-h)<=float(th)*1.001: return '%s: height %r, exact %s'%(c,g[2],mp.nstr(h,20))
    if p>=1e-17*d and p>0 and not turn(g[0]-lon)<=1e-15: return '%s: longitude %r, exact %s'%(c,g[0],mp.nstr(lon,20))
def k04_corpus(rng):
    for k in range(3000):
        if k%3==0: h=rng.uniform(-1e4,2e6)
        elif k%3==1: h=10**rng.uniform(0,9)
        else: h=rng.choice([0.0,-1e4,2e6,rng.uniform(-1e6,0),1e9*0.999])
        h*=A/6378137.0
        lat=rng.choice([rng.uniform(-math.pi/2,math.pi/2)]*6+[0.0,math.pi/2,-math.pi/2,math.pi/2-10**rng.uniform(-17,-3),-math.pi/2+10**rng.uniform(-17,-3),10**rng.uniform(-17,-3)]); lon=rng.choice([rng.uniform(-math.pi,math.pi),0.0,math.pi,math.pi/2])
        p=k02_ref(NUM,mp.mpf(lon),mp.mpf(lat),mp.mpf(h),mp.mpf(A),mp.mpf(FL),NUM.sqrt,NUM.inv)
        yield dict(zip('xyz',map(float,p)))
def fwd_oracle(f,i,r):
    if not which(f) or not abs(f[1])<=math.nextafter(math.pi/2,2) or not abs(f[0])<=1e6: return None
    for lo,hi,_,_,tp in BANDS:
        if lo<=f[2]<=hi: break
    else: return None
    c='geodetic_to_geocentric(longitude %r, latitude %r, height %r)'%tuple(f[:3])
    if r[0]=='panic' or r[2][0]: return c+' fails'
    e=k02_ref(NUM,*[mp.mpf(v) for v in f[:5]],NUM.sqrt,NUM.inv)
    for k in range(3):
        if not abs(mp.mpf(r[1][k])-e[k])<=float(tp): return '%s: %s = %r, expected %s'%(c,'XYZ'[k],r[1][k],mp.nstr(e[k],18))
def fwd_corpus(rng):
    for k in range(1500):
        h=A/6378137.0*rng.choice([rng.uniform(-1e4,2e6),0.0,rng.uniform(-1e6,1e9)]); yield dict(l=angle(rng,7),p=rng.choice([rng.uniform(-1.57,1.57),angle(rng,math.pi/2)]),h=h)

# ------------------------------------------------------------------ the plane by geodetic latitude and height
def geodetic_plane(h0,h1,c0,c1,sg):
    """x,y,z of the point at height a(R-1), latitude with cosine c and sine sg*s, longitude (C,S)"""
    r0,r1=1+F(h0)/F(A),1+F(h1)/F(A)
    g=G({'u':(1/r1,1/r0),'c':(F(c0),F(c1)),'s':(0,1),'S':(-1,1),'C':(-1,1)},
        {'R':(float(r0),float(r1),'max','u'),'c':(c0,c1,'min','c'),'s':(1e-60,1.0,'min','s')},[('s','c'),('S','C')])
    f=F(FL); w=(1-f)**2; q=(1-w)/w; cc=g.mul(g.v('c'),g.v('c')); n=t=g.const(1); co=F(1)
    for j in range(1,60):   # 1/sqrt(w+(1-w)c^2) as a series in c^2
        co=co*(F(-1,2)-(j-1))/j; t=g.mul(t,cc); n=g.add(n,g.scale(t,co*q**j))
        if float(q)**(j+1)<1e-24: break
    n=g.scale(n,1/(1-f)); e=1e-23*A; u=g.v('u'); one=g.const(1); a=F(A)
    rho=g.add(one,g.mul(g.add(n,one,-1),u)); zz=g.add(one,g.mul(g.add(g.scale(n,w),one,-1),u))
    g.inp['x']=Val((1,1,0),g.scale(g.mul(rho,g.v('C')),a),e); g.inp['y']=Val((1,1,0),g.scale(g.mul(rho,g.v('S')),a),e)
    g.inp['z']=Val((1,0,1),g.scale(zz,a*sg),e,2*sg)
    return g
def feasible(g,p): 
    """not excluded by the values of the conditions"""
    for c,b in p.cond:
        r=g.decide(c)
        if r is not None and r!=b: return False
    return True
def verdict(g,lab,p,e,tol,splits,rel='below',low=0):
    """a claim on a polynomial, box by box"""
    res='unsat'
    bs=boxes(g,splits)
    for b in bs:
        q,t=b.shift(p); r=b.g.below(q,e+t,tol) if rel=='below' else b.g.above(q,e+t,low)
        if r!='unsat': res=r; break
    return Verdict(lab,res,note='%d boxes, %d monomials, rounding %.1e'%(len(bs),len(p),e))
def direction(g,lab,ang,c,s,tol,splits,axis=False):
    """the angle is that of the direction (c,s), to within tol"""
    if isinstance(ang,Val): ang=const_angle(g,ang)
    if not isinstance(ang,Angle): raise Unsupported(lab+': not an angle')
    k=g.common(ang.x,ang.y); (px,ex),(py,ey)=g.to(ang.x,k),g.to(ang.y,k); e=(ex+ey)*(1+1e-9)
    n2=g.add(g.mul(px,px),g.mul(py,py)); lo=math.sqrt(max(g.range(n2)[0]*0.98,1e-9))
    cr=g.add(g.mul(py,c),g.mul(px,s),-1); dot=g.add(g.mul(px,c),g.mul(py,s))
    out=[verdict(g,lab+': size of the vector',n2,3*e+e*e,None,splits,'above',lo*lo),verdict(g,lab+': not opposite',dot,e,None,splits,'above',0)]
    m=(F(tol)*F(999999,10**6)-F(ang.e))*F(lo)
    out.append(verdict(g,lab,cr,e,m,splits)); return out
def const_angle(g,v):
    """a constant latitude of a quarter turn (the branch near the axis)"""
    if len(v.p)==1 and g.z in v.p:
        x=F(v.p[g.z],graded.ONE); d=abs(abs(x)-F(PI)/2) if not hasattr(PI,'p') else abs(float(abs(x))-math.pi/2)
        if d<1e-15: return Angle(g.val({}),g.val(g.const(1 if x>0 else -1)),float(d)+2e-16,False)
    raise Unsupported('constant angle')
def k04_claims(ck,ps,band,c0,c1,sg):
    lo,hi,ta,th,_=band; out=[]; tag='height %g to %g m, %s, %s: '%(lo,hi,'north' if sg>0 else 'south','near the axis' if c1<1 else 'all latitudes')
    sp={'c':4,'u':1 if hi<2*A else 8} if c1==1 else {'u':1,'s':1}
    n=0
    for k,p in enumerate(ps):
        g=geodetic_plane(lo,hi,c0,c1,sg)
        if c1<1:   # the sine is 1 to all digits
            i=g.ix['s']; g.rng[i]=(1-F(c1)**2,F(1)); g._mr={}
        if not feasible(g,p): continue
        n+=1; t=tag+'path %d: '%k
        if p.outcome=='panic': out.append(Verdict(t+'cannot panic','sat')); continue
        o=p.out[0]; c,s=g.v('c'),g.scale(g.v('s'),sg)
        out+=direction(g,t+'latitude',g.lower(o[1]),c,s,ta,sp)
        h=g.value(o[2])
        d=g.add(g.const(F(A)),g.scale(g.v('u'),F(A)),-1)   # (R-1)a on the grade R
        x=g.plus(h,Val((1,0,0),d,0.0),-1)
        if x.k!=(1,0,0): raise Unsupported('height of grade %r'%(x.k,))
        out.append(verdict(g,t+'height',x.p,x.e,th*g.rng[g.ix['u']][0],sp))
        out+=direction(g,t+'longitude',g.lower(o[0]),g.v('C'),g.v('S'),F(1,10**15),{})
    if not n: out.append(Verdict(tag+'a feasible path','unknown'))
    return out
def K04(ck):
    ck.bounds.append('ellipsoids: '+', '.join('%s (a=%r, f=%.12g, latitude to %.0e)'%(e.name,e.a,e.f,e.bands[0][2]) for e in (ELLS if ck.quick else ELLS+INT))+'; every point with a geodetic height of -10 km to 2000 km (latitude to 1e-11 rad or as listed, height to 1e-6 m) and of -1000 km to 1e9 m (ten times that, 2e-4 m), lengths in proportion to the radius, longitude to 1e-15 rad, off the axis by a cosine of latitude of at least 1e-17 (what geodetic_to_geocentric can give) and off the equator by a sine of at least 1e-60 (the equator itself: K03); the forward conversion to 5e-8 m and 5e-6 m in the two bands')
    ck.assumptions+=[LIB,ATLIB,'a point displaced by d metres at height h has its geodetic latitude changed by at most d/(M+h), its longitude by at most d over the distance from the axis, its height by at most d (the Jacobian of geodetic coordinates outside the evolute)']
    tasks=[]; es=ELLS if ck.quick else ELLS+INT; en={}; ef={}; paths={}
    for el in es:
        el.use()
        en[el]=Entry('h_gc2gd',XYZ+[A,FL]); ck.target(en[el],k04_oracle,el.corpus(k04_corpus))
        ef[el]=Entry('h_gd2gc',[var('l','f'),var('p','f'),var('h','f'),A,FL]); ck.target(ef[el],fwd_oracle,el.corpus(fwd_corpus))
        ps=paths[el]=ck.explore(en[el],None)
        for band in BANDS:
            for sg in(1,-1):
                for c0,c1 in((TINY,1),(1e-17,TINY)):
                    tasks.append(el.task('inverse',lambda b=band,c0=c0,c1=c1,sg=sg,ps=ps: k04_claims(ck,ps,b,c0,c1,sg)))
        for lo,hi,_,_,tp in BANDS:
            def st(ctx,lo=lo,hi=hi):
                ctx.input('l',-10**6,10**6); ctx.input('p',-F(math.nextafter(math.pi/2,2)),F(math.nextafter(math.pi/2,2))); ctx.input('h',F(lo),F(hi))
            def fwd(st=st,lo=lo,hi=hi,tp=tp,e=ef[el]):
                qs=ck.explore(e,IvFeas(st)); out=[]
                for k,p in enumerate(qs):
                    def fn(ctx,p,k=k):
                        t='forward, height %g to %g m, path %d: '%(lo,hi,k); fs=ctx.facts(p.cond)
                        if p.outcome=='panic' or p.out[1][0]!=0: return [(t+'succeeds',None,None,0,fs)]
                        ref=k02_ref(Sym(ctx),*[ctx.inp[n].p for n in 'lph'],ctx.const(F(A)),ctx.const(F(FL)),ctx.sqrtp,ctx.invp)
                        return [(t+'XYZ'[j],ctx.lower(p.out[0][j]),ref[j],ctx.referr,fs) for j in range(3)]
                    for ctx,lab,v,R,re,fs in cases(st,p,fn):
                        Ctx.cur=ctx
                        if v is None: out.append(Verdict(lab,ctx.residual(Poly({():F(1)}),0,0,facts=fs))); continue
                        out.append(Verdict(lab,ctx.residual(v.p-R,v.err()+re,tp),note='rounding %.1e'%(v.err()+re)))
                return out
            tasks.append(el.task('forward',fwd))
    vs=ck.run(tasks)
    for el in es:
        n=el.name+': '; el.use()
        ck.settle(en[el],[v for v in vs if v.label.startswith(n) and 'forward' not in v.label],k04_oracle,el.corpus(k04_corpus))
        if not ck.violations: ck.settle(ef[el],[v for v in vs if v.label.startswith(n+'forward')],fwd_oracle,el.corpus(fwd_corpus))
        if ck.violations: return
        ck.validate(en[el],paths[el],list(itertools.islice(el.corpus(k04_corpus)(ck.rng),30)),oracle=k04_oracle)

# ------------------------------------------------------------------ the plane by reduced latitude and distance
def reduced_plane(lo,hi,c0,s0,sg):
    """x,y,z of a point with (ec*rho, |z|) = a*D*(c, s): any point whatever"""
    D0,D1=lo/A*0.99,hi/A*1.01
    g=G({'u':(F(1/D1),F(1/D0)),'c':(F(c0),1),'s':(F(s0),1),'S':(-1,1),'C':(-1,1)},
        {'D':(D0,D1,'max','u'),'c':(c0,1.0,'min','c'),'s':(s0,1.0,'min','s')},[('s','c'),('S','C')])
    f=F(FL); a=F(A)
    g.inp['x']=Val((1,1,0),g.scale(g.v('C'),a/(1-f)),1e-50); g.inp['y']=Val((1,1,0),g.scale(g.v('S'),a/(1-f)),1e-50)
    g.inp['z']=Val((1,0,1),g.const(a*sg),1e-50)
    return g
def equator(lo,hi):
    g=G({'u':(F(A/hi),F(A/lo)),'S':(-1,1),'C':(-1,1)},{'D':(lo/A,hi/A,'max','u')},[('S','C')])
    g.inp['x']=Val((1,),g.scale(g.v('C'),F(A)),0.0); g.inp['y']=Val((1,),g.scale(g.v('S'),F(A)),0.0)
    return g
SMALL=1e-25
def k03_oracle(ck):
    def oracle(f,i,r):
        if not which(f): return None
        x,y,z=f[:3]
        if z and all(math.isfinite(v) for v in f[:3]) and r[0]=='ok':
            m=ck.rel.call('h_gc2gd',[x,y,-z,A,FL]); eq=lambda a,b: a==b or(a!=a and b!=b)
            if m[0]!='ok' or not(eq(m[1][0],r[1][0]) and eq(m[1][2],r[1][2]) and eq(m[1][1],-r[1][1])): return 'geocentric_to_geodetic(%r,%r,%r) = %r, mirrored %r'%(x,y,z,r[1][:3],m[1][:3])
        p=mp.sqrt(mp.mpf(x)**2+mp.mpf(y)**2); d=mp.sqrt(p*p+mp.mpf(z)**2)
        if not K3LO<=d<=K3HI or 0<p<1e-9*A/6378137 or 0<abs(z)<1e-9*A/6378137: return None
        c='geocentric_to_geodetic(%r,%r,%r)'%(x,y,z)
        if r[0]=='panic': return c+' panics'
        lon,lat,h=r[1][:3]
        if not abs(lat)<=math.pi/2*(1+1e-15): return '%s: latitude %r is beyond a quarter turn'%(c,lat)
        if (z>0 and not lat>0) or(z<0 and not lat<0) or(z==0 and p and lat!=0): return '%s: latitude %r'%(c,lat)
        e=mp.atan2(mp.mpf(y),mp.mpf(x)) if p else 0
        if not turn(lon-e)<=1e-15: return '%s: longitude %r, expected %s'%(c,lon,mp.nstr(e,18))
        if not p:
            b=mp.mpf(A)*(1-mp.mpf(FL))
            if not abs(abs(lat)-math.pi/2)<=1e-15 or not abs(h-(abs(mp.mpf(z))-b))<=3.01e-14*float(d): return '%s on the axis: latitude %r, height %r'%(c,lat,h)
        if not z and p>=A/6 and not abs(h-(p-A))<=1e-12*float(p): return '%s on the equator: height %r, expected %s'%(c,h,mp.nstr(p-A,18))
        m=ck.rel.call('h_gc2gd',[x,y,-z,A,FL])
        if m[0]!='ok' or m[1][0]!=lon or m[1][2]!=h or m[1][1]!=-lat: return '%s = %r, mirrored %r'%(c,(lon,lat,h),m[1][:3])
        if p:
            m=ck.rel.call('h_gc2gd',[-x,y,z,A,FL]); n=ck.rel.call('h_gc2gd',[x,-y,z,A,FL])
            for w,m in(('x',m),('y',n)):
                if m[0]!='ok' or m[1][1]!=lat or m[1][2]!=h: return '%s = %r, with the sign of %s changed %r'%(c,(lon,lat,h),w,m[1][:3])
        q=float(p)
        m=ck.rel.call('h_gc2gd',[q,0.0,z,A,FL])
        if m[0]!='ok' or not abs(m[1][1]-lat)<=1e-12 or not abs(m[1][2]-h)<=1e-12*float(d)+1e-7*A/6378137: return '%s = %r, turned to the meridian of Greenwich %r'%(c,(lon,lat,h),m[1][:3])
    return oracle
def k03_corpus(rng):
    for k in range(3000):
        d=A/6378137.0*(10**rng.uniform(5.1,11.9) if k%2 else rng.uniform(6.2e6,8e6)); b=rng.choice([rng.uniform(-math.pi/2,math.pi/2)]*4+[10**rng.uniform(-16,-2)*rng.choice([1,-1]),(math.pi/2-10**rng.uniform(-16,-2))*rng.choice([1,-1])])
        l=rng.choice([rng.uniform(-math.pi,math.pi)]*3+[0.0,math.pi/2,math.pi])
        x,y,z=d*math.cos(b)*math.cos(l),d*math.cos(b)*math.sin(l),d*math.sin(b); j=rng.randrange(8)
        if j==0: x=rng.choice([0.0,-0.0]); y=rng.choice([0.0,-0.0]); z=d*rng.choice([1,-1])
        if j==1: z=rng.choice([0.0,-0.0]); x=d*math.cos(l); y=d*math.sin(l)
        if j==2: z=rng.choice([1,-1])*10.0**rng.uniform(-320,-9); x=d*math.cos(l); y=d*math.sin(l)
        if j==3: z=rng.choice([1,-1])*10.0**rng.uniform(9,160)
        yield dict(x=x,y=y,z=z)
def depends(root,front):
    """variables a term depends on other than through the nodes of front"""
    seen=set(); work=[root]; vs=set()
    while work:
        n=work.pop()
        if type(n) is not N or n.id in seen or n.id in front: continue
        seen.add(n.id)
        if n.op=='var': vs.add(n.args[0])
        work+=[a for a in n.args if type(a) is N]
    return vs
def rotational(g,roots):
    """nodes of the terms that do not change when the point is turned about the axis (up to rounding)"""
    i,j=g.ix['S'],g.ix['C']; out={}
    for n in topo([r for r in roots if type(r) is N]):
        if type(n) is not N or not depends(n,())&{'x','y'} : continue
        try: v=g.lower(n)
        except Unsupported: continue
        if isinstance(v,Val) and n.op!='var' and not any(m[i] or m[j] for m in v.p) and v.p: out[n.id]=(n,v)
    return out
class FpEuf:
    """doubles with negation, absolute value and comparison interpreted, every other operation a function of its operands"""
    def __init__(s): s.m={}; s.S=z3.Float64(); s.u={}
    def fn(s,name,*sorts):
        k=(name,len(sorts),str(sorts[-1]))
        if k not in s.u: s.u[k]=z3.Function('%s_%d'%(name,len(s.u)),*sorts)
        return s.u[k]
    def f(s,t):
        if type(t) is not N: return z3.fpBVToFP(z3.BitVecVal(term.d2bits(t),64),s.S)
        for n in topo([t]):
            if type(n) is not N or n.id in s.m: continue
            s.m[n.id]=s.node(n)
        return s.m[t.id]
    def g(s,a): return s.m[a.id] if type(a) is N else s.f(a)
    def node(s,n):
        o,A=n.op,n.args
        if n.ty!='f':
            if o=='fcmp': return s.cmp(n)
            if n.ty==1 and o in('and','or','xor') : return None
            return None
        if o=='var': return z3.FP('v_'+A[0],s.S)
        if o=='fneg': return z3.fpNeg(s.g(A[0]))
        if o=='fabs': return z3.fpAbs(s.g(A[0]))
        if o=='copysign': x,y=z3.fpAbs(s.g(A[0])),s.g(A[1]); return z3.If(z3.fpIsNegative(y),z3.fpNeg(x),x)
        if o=='fmul' and A[0] in(1.0,-1.0): return s.g(A[1]) if A[0]>0 else z3.fpNeg(s.g(A[1]))
        if o=='fmul' and A[1] in(1.0,-1.0): return s.g(A[0]) if A[1]>0 else z3.fpNeg(s.g(A[0]))
        if all(type(x) is float or(type(x) is N and x.ty=='f') for x in A):
            xs=[s.g(x) for x in A]
            if o in('fadd','fmul'): xs.sort(key=lambda x: x.get_id())
            return s.fn(o,*([s.S]*(len(xs)+1)))(*xs)
        return z3.FP('t_%d'%n.id,s.S)
    def cmp(s,n):
        p,x,y=n.args; x,y=s.g(x),s.g(y); nan=z3.Or(z3.fpIsNaN(x),z3.fpIsNaN(y)); k=p[1:]
        if p=='ord': return z3.Not(nan)
        if p=='uno': return nan
        r={'lt':z3.fpLT,'le':z3.fpLEQ,'gt':z3.fpGT,'ge':z3.fpGEQ,'eq':z3.fpEQ,'ne':lambda a,b:z3.Not(z3.fpEQ(a,b))}[k](x,y)
        return z3.And(r,z3.Not(nan)) if p[0]=='o' else z3.Or(r,nan)
    def cond(s,c,b):
        if c.op=='fcmp': s.f(c); v=s.m[c.id]; return v if b else z3.Not(v)
        return z3.BoolVal(True)   # forgotten: only adds cases
def fpquery(label,p,q,pairs,zz):
    import time
    from vt import relax
    t0=time.time(); S=relax.STATS; e=FpEuf(); s=z3.Solver(); s.set('timeout',60000)
    for c,b in p.cond+q.cond:
        if type(c) is N: s.add(e.cond(c,b))
    for v in XYZ: s.add(z3.Not(z3.fpIsNaN(e.f(v))))
    s.add(z3.Not(z3.fpIsZero(e.f(zz))))
    if pairs: s.add(z3.Or(*[e.f(a)!=e.f(b) for a,b in pairs]))
    r=str(s.check()); S.queries+=1; S.time+=time.time()-t0; setattr(S,r,getattr(S,r)+1)
    return Verdict(label,r)
def K03(ck):
    ck.bounds.append('ellipsoids: '+', '.join('%s (a=%r, f=%.12g)'%(e.name,e.a,e.f) for e in (ELLS if ck.quick else ELLS+MORE))+'; points 100 km (four times the square of the eccentricity times the radius where that is more and the flattening above 0.004) to 1e12 m from the centre (on the equator itself: 0.16 radii from the centre and out); distance from the axis and from the equator either zero or at least 1 nm (in proportion to the radius); the mirror claim: any doubles')
    ck.assumptions+=[ATLIB]
    orc=k03_oracle(ck); en={}; paths={}; tasks=[]; es=ELLS if ck.quick else ELLS+MORE
    for el in es:
        el.use(); en[el]=Entry('h_gc2gd',XYZ+[A,FL]); ck.target(en[el],orc,el.corpus(k03_corpus)); paths[el]=ck.explore(en[el],None)
        tasks+=[el.task(a,b) for a,b in k03_tasks(ck,paths[el])]
    vs=ck.run(tasks)
    for el in es:
        el.use(); ck.settle(en[el],[v for v in vs if v.label.startswith(el.name+': ')],orc,el.corpus(k03_corpus))
        if ck.violations: return
        ck.validate(en[el],paths[el],list(itertools.islice(el.corpus(k03_corpus)(ck.rng),30)),oracle=orc)
def k03_tasks(ck,ps):
    tasks=[]; x,y,z=XYZ
    def mirror():
        out=[]; mz=term.mkraw('fneg','f',z)
        qs=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_gc2gd',[x,y,mz,A,FL],[]),None)
        n=0
        for a,p in enumerate(ps):
            for b,q in enumerate(qs):
                t='mirrored, paths %d and %d: '%(a,b)
                if p.outcome=='panic' or q.outcome=='panic': out.append(fpquery(t+'no panic',p,q,[],z)); continue
                P,Q=p.out[0],q.out[0]
                out.append(fpquery(t+'same longitude and height, opposite latitude',p,q,[(P[0],Q[0]),(P[2],Q[2]),(P[1],term.fneg(Q[1]))],z)); n+=1
        if not n: out.append(Verdict('mirrored: compatible paths','unknown'))
        return out
    tasks.append(('mirror',mirror))
    for sg in(1,-1):
        def away(sg=sg):
            out=[]; n=0; t0='north: ' if sg>0 else 'south: '; live=[]
            for k,p in enumerate(ps):
                g=reduced_plane(K3LO,K3HI,SMALL,SMALL,sg)
                if not feasible(g,p): continue
                live.append((k,p,g))
                n+=1; t=t0+'path %d: '%k
                if p.outcome=='panic': out.append(Verdict(t+'cannot panic','sat')); continue
                o=p.out[0]; phi=g.lower(o[1])
                if isinstance(phi,Val): phi=const_angle(g,phi)
                if not isinstance(phi,Angle): raise Unsupported('latitude is not an angle')
                sp={'u':8,'c':4}
                out.append(verdict(g,t+'the latitude is within a quarter turn',phi.x.p if phi.x.p else g.const(1),phi.x.e,None,sp,'above',0))
                out.append(verdict(g,t+'the latitude has the sign of z',g.scale(phi.y.p,sg),phi.y.e,None,sp,'above',0))
                out+=direction(g,t+'longitude',g.lower(o[0]),g.v('C'),g.v('S'),F(1,10**15),{})
                fr=rotational(g,[o[1],o[2]])
                for j,what in((1,'latitude'),(2,'height')):
                    d=depends(o[j],fr)&{'x','y'} if type(o[j]) is N else set()
                    out.append(Verdict(t+what+' depends on x and y through their distance from the axis only','sat') if d else Verdict(t+what+' depends on x and y through their distance from the axis only',g.query([(g.const(1),None,0)]),note='%d rotationally symmetric terms'%len(fr)))
                for nid,(nd,v) in fr.items():
                    if any(type(a) is N and a.id in fr for a in nd.args): continue
                    out.append(verdict(g,t+'the distance term %s is symmetric to rounding'%nd.op,{},v.e,F(g.low(v.p))*F(4,2**52),{}))
            # paths with different latitudes or heights are told apart by something that turning the point does not change
            for (j,p,_),(k,q,g) in itertools.combinations(live,2):
                if 'panic' in(p.outcome,q.outcome) or all(same(p.out[0][i],q.out[0][i]) for i in(1,2)): continue
                d={c.id:b for c,b in p.cond if type(c) is N}
                sep=[c for c,b in q.cond if type(c) is N and d.get(c.id,b)!=b]
                ok=any(not depends(c,rotational(g,[c]))&{'x','y'} for c in sep)
                out.append(Verdict(t0+'paths %d and %d: the choice between them depends on x and y through their distance from the axis only'%(j,k),g.query([(g.const(1),None,0)]) if ok else 'sat'))
            if not n: out.append(Verdict(t0+'a feasible path','unknown'))
            return out
        tasks.append(('plane',away))
    def axis():
        out=[]
        for sx,sy,sg in itertools.product((0.0,-0.0),(0.0,-0.0),(1,-1)):
            qs=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_gc2gd',[sx,sy,z,A,FL],[]),None); n=0
            for k,p in enumerate(qs):
                g=G({'u':(F(A)/F(K3HI),F(A)/F(K3LO))},{'D':(K3LO/A,K3HI/A,'max','u')},()); g.inp['z']=Val((1,),g.const(F(A)*sg),0.0,2*sg)
                if not feasible(g,p): continue
                n+=1; t='axis (%r,%r), %s, path %d: '%(sx,sy,'north' if sg>0 else 'south',k)
                if p.outcome=='panic': out.append(Verdict(t+'cannot panic','sat')); continue
                o=p.out[0]
                out+=direction(g,t+'latitude',g.lower(o[1]),{},g.const(sg),F(1,10**15),{})
                out.append(verdict(g,t+"longitude zero",g.value(o[0]).p,0,F(1,10**25),{}))
                h=g.plus(g.value(o[2]),Val((1,),g.add(g.const(F(A)),g.scale(g.v('u'),F(A)*(1-F(FL))),-1),0.0),-1)
                out.append(verdict(g,t+'height',h.p,h.e,F(A)*3/10**14,{}))
            if not n: out.append(Verdict('axis: a feasible path','unknown'))
        return out
    def equat():
        out=[]
        bands=[b for b in(A/6.378137*v for v in(1,2,6,30,1000,1e6)) if b>K3LO]; bands=(bands if K3LO<=A/6.378137 else [K3LO]+bands)
        for sz in(0.0,-0.0):
            qs=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_gc2gd',[x,y,sz,A,FL],[]),None); n=0
            for (k,p),(lo,hi) in itertools.product(enumerate(qs),zip(bands,bands[1:])):
                g=equator(lo,hi)
                if not feasible(g,p): continue
                n+=1; t='equator (%r), %g to %g m, path %d: '%(sz,lo,hi,k)
                if p.outcome=='panic': out.append(Verdict(t+'cannot panic','sat')); continue
                o=p.out[0]; phi=g.lower(o[1])
                if isinstance(phi,Val): out.append(verdict(g,t+'latitude zero',phi.p,phi.e,F(1,10**25),{}))
                else:
                    out.append(verdict(g,t+'latitude zero',phi.y.p,phi.y.e,F(1,10**25),{})); out.append(verdict(g,t+'latitude not opposite',phi.x.p,phi.x.e,None,{'u':8},'above',0))
                h=g.plus(g.value(o[2]),Val((1,),g.add(g.const(F(A)),g.scale(g.v('u'),F(A)),-1),0.0),-1)
                out.append(verdict(g,t+'height',h.p,h.e,F(A)/10**12,{}))
            if not n: out.append(Verdict('equator: a feasible path','unknown'))
        return out
    tasks+=[('axis',axis),('equator',equat)]
    return tasks
