"""TAI-UTC, time scales, angle normalisation, Earth rotation angle, ellipsoid acceptance, degrees."""
import math, itertools, time
import z3
from fractions import Fraction as F
from vt import symex, term, relax
from vt.term import var, N
from vt.relax import Relax, B, AND, OR, TRUE, FALSE, LF
from vt.ll import Unsupported
from vt.check import Entry, Verdict, prove
from .cal import *

# TAI-UTC as published (USNO tai-utc.dat / IERS Bulletin C): first day, offset, drift origin (MJD), drift rate
_D='1.4178180 1.4228180 1.3728180 1.8458580 1.9458580 3.2401300 3.3401300 3.4401300 3.5401300 3.6401300 3.7401300 3.8401300 4.3131700 4.2131700'.split()
_DM=[(1960,1),(1961,1),(1961,8),(1962,1),(1963,11),(1964,1),(1964,4),(1964,9),(1965,1),(1965,3),(1965,7),(1965,9),(1966,1),(1968,2)]
_DR=[(37300,'0.001296')]*3+[(37665,'0.0011232')]*2+[(38761,'0.001296')]*7+[(39126,'0.002592')]*2
_LS=[(1972,1),(1972,7),(1973,1),(1974,1),(1975,1),(1976,1),(1977,1),(1978,1),(1979,1),(1980,1),(1981,7),(1982,7),(1983,7),(1985,7),(1988,1),(1990,1),(1991,1),
     (1992,7),(1993,7),(1994,7),(1996,1),(1997,7),(1999,1),(2006,1),(2009,1),(2012,7),(2015,7),(2017,1)]
LEAP=[(ym,F(a),o,F(r)) for ym,a,(o,r) in zip(_DM,_D,_DR)]+[(ym,F(10+k),None,None) for k,ym in enumerate(_LS)]
DTOL=F(1,10**10)
def leap_ref(y,m,d,fd):
    e=[x for x in LEAP if x[0]<=(y,m)][-1]
    return e[1] if e[2] is None else e[1]+(mjd(y,m,d)+F(fd)-e[2])*e[3]
YEARD=2147483647

def dat_oracle(f,i,r):
    y,m,d=i[:3]; x=f[0]
    if not(valid(y,m,d) and y<=YEARD): return None
    call='delta_at(%d-%02d-%02d, %r)'%(y,m,d,x)
    if r[0]=='panic': return call+' panics'
    t=r[2][0]; v=r[1][0]
    if not 0<=x<=1: return None if t==1 else call+' has status %d, expected a bad fraction'%t
    if y<1960: return None if t==2 else call+' has status %d (value %r), expected no value'%(t,v)
    if t!=0: return call+' has status %d, expected a value'%t
    e=leap_ref(y,m,d,x)
    if not abs(v)<1e9 or abs(F(v)-e)>DTOL: return '%s = %r, published value %r'%(call,v,float(e))
def dat_corpus(rng):
    ys=list(range(1958,1975))+list(range(1975,2030))
    for y in ys:
        for m in range(1,13):
            for d in(1,15,mlen(y,m)): yield dict(y=y,m=m,d=d,f=rng.choice([0.0,1.0,rng.random()]))
    for y,m in[x[0] for x in LEAP]:
        for f in(0.0,0.5,1.0,-0.0,NAN,INF,-1e-300,1+2**-52): yield dict(y=y,m=m,d=1,f=f)
        for dy in range(-3,4):
            for m in range(1,13): yield dict(y=y+dy,m=m,d=rng.randint(1,28),f=rng.random())
    for _ in range(4000):
        y,m,d=rdate(rng,-4799,rng.choice([2100,YEARD])); yield dict(y=y,m=m,d=d,f=rng.choice([0.0,1.0,rng.random(),-rng.random(),1+rng.random(),NAN,INF,-INF,-5e-324]))

def D01(ck):
    en=Entry('h_delta_at',[var('f','f')],[var('y',32),var('m',32),var('d',32)])
    ck.target(en,dat_oracle,dat_corpus)
    ck.bounds.append('every valid date from 1960-01-01 to year %d (the largest that can be represented), fraction any double in [0,1]; tolerance 1e-10 s'%YEARD)
    tasks=[]; allp=[]
    # the drift era month by month (day count exact), the leap-second era with the month symbolic
    for mo in range(1,13):
        dom=dict(y=(1960,1972),m=(mo,mo),d=(1,31),f=(0,1))
        R=Relax(dom,timeout=60000); ps=ck.explore(en,R); allp+=ps if mo==1 else []
        for k,p in enumerate(ps):
            def run(k=k,p=p,R=R,mo=mo):
                y,m,d=[R.low(v) for v in en.i]; f=R.low(en.f[0]); pre=R.conds(p.cond)+[R.cmp(d,'<=',zmlen(R,y,mo))]
                tag='month %d path %d: '%(mo,k)
                if p.outcome=='panic': return [prove(R,tag+'cannot panic',pre,FALSE)]
                out=[prove(R,tag+'gives a value',pre,R.cmp(R.li(p.out[1][0],64),'=='))]
                v=R.low(p.out[0][0]); n=zmjd(R,y,mo,d); cl=[]
                ks=[max(range(len(LEAP)),key=lambda j:(LEAP[j][0]<=(yy,mo),j if LEAP[j][0]<=(yy,mo) else 0)) for yy in range(1960,1973)]
                for yy,j in zip(range(1960,1973),ks):
                    _,a,o,r=LEAP[j]
                    e=LF(a) if o is None else (n+f-o)*r+a
                    cl.append((yy,e))
                for yy,e in cl: out.append(prove(R,tag+'year %d: published value'%yy,pre+[R.cmp(y,'==',yy)],lambda mm,e=e:R.absle(v-e,DTOL*mm)))
                return out
            tasks.append(('m%d'%mo,run))
    R2=Relax(dict(y=(1972,YEARD),m=(1,12),d=(1,31),f=(0,1)),timeout=60000); ps2=ck.explore(en,R2)
    for k,p in enumerate(ps2):
        def run2(k=k,p=p):
            R=R2; y,m,d=[R.low(v) for v in en.i]; pre=R.conds(p.cond)
            tag='from 1972, path %d: '%k
            if p.outcome=='panic': return [prove(R,tag+'cannot panic',pre,FALSE)]
            out=[prove(R,tag+'gives a value',pre,R.cmp(R.li(p.out[1][0],64),'=='))]
            v=R.low(p.out[0][0]); L=LEAP[14:]
            for j,(ym,a,_,_) in enumerate(L):
                t=y*12+m; c=[R.cmp(t,'>=',ym[0]*12+ym[1])]
                if j+1<len(L): c.append(R.cmp(t,'<',L[j+1][0][0]*12+L[j+1][0][1]))
                out.append(prove(R,tag+'%d s from %d-%02d'%(a,*ym),pre+c,R.cmp(v,'==',a)))
            return out
        tasks.append(('ls',run2))
    vs=ck.run(tasks)
    ck.settle(en,vs,dat_oracle,dat_corpus)
    envs=[e for e in dat_corpus(ck.rng) if e['y']>=1972 and 0<=e['f']<=1]
    ck.validate(en,ps2,ck.rng.sample(envs,200),oracle=dat_oracle)
    envs=[e for e in dat_corpus(ck.rng) if 1960<=e['y']<=1972 and e['m']==1 and 0<=e['f']<=1]
    ck.validate(en,allp,ck.rng.sample(envs,min(60,len(envs))),oracle=dat_oracle)
    ck.samples+=envs[:3]

def D02(ck):
    en=Entry('h_delta_at',[var('f','f')],[var('y',32),var('m',32),var('d',32)])
    ck.target(en,dat_oracle,dat_corpus)
    ck.bounds.append('year -4799..%d, month 1..12, day 1..31 valid in the month; fraction any finite double, NaN and infinities as classes'%YEARD)
    z=F(1,2**1074)
    for tag,lo,hi,ok in(('f<0',-MAXD,-z,0),('0<=f<=1',0,1,1),('f>1',1+F(1,2**52),MAXD,0)):
        R=Relax(dict(y=(-4799,YEARD),m=(1,12),d=(1,31),f=(lo,hi)),timeout=60000); ps=ck.explore(en,R)
        def cl(k,p):
            t=R.li(p.out[1][0],64); y=R.low(en.i[0])
            if not ok: return [('bad fraction reported',R.cmp(t,'==',1))]
            return [('value from 1960 on, none before',AND(R.cmp(y,'<',1960).implies(R.cmp(t,'==',2)),R.cmp(y,'>=',1960).implies(R.cmp(t,'=='))))]
        check_paths(ck,en,R,ps,cl,dat_oracle,dat_corpus,tag+' ')
        if ok:
            envs=[e for e in dat_corpus(ck.rng) if 0<=e['f']<=1]; ck.validate(en,ps,ck.rng.sample(envs,150),oracle=dat_oracle)
    for x in(NAN,INF,-INF):
        concrete_class(ck,en.name,[x],en.i,lambda p:p.outcome=='ok' and p.out[1][0]==1,dat_oracle,dat_corpus,'fraction %r is reported'%x,en,dict(y=(-4799,YEARD),m=(1,12),d=(1,31)))
    ck.samples.append('rejection independent of the date, symbolic date')

# ============================================================ T01, T02
TS=[('h_tt_from_ut1','UT1 to TT',1,None),('h_tai_from_utc','UTC to TAI',1,None),('h_tt_from_tai','TAI to TT',0,F('32.184')),('h_tdb_from_tt','TT to TDB',1,None),('h_ut1_from_tt','TT to UT1',-1,None)]
PM=F(10)**12
def ts_tol(a,b,d): return F(2)**-51*(abs(F(a))+abs(F(b))+abs(F(d))/86400)+F(2)**-1070
def ts_oracle(name,lab,sg,c,what):
    def oracle(f,i,r):
        a,b=f[:2]; d=f[2] if c is None else float(c)
        if any(x!=x or abs(x)>1e12 for x in(a,b,d)): return None
        call='%s of (%r,%r) offset %r'%(lab,a,b,d)
        if r[0]=='panic': return call+' panics'
        x,y=r[1][:2]
        if what=='T01':
            D=(F(d) if c is None else c)*(sg or 1)/86400
            if not(abs(x)<1e300 and abs(y)<1e300) or abs(F(x)+F(y)-F(a)-F(b)-D)>ts_tol(a,b,d): return '%s gives (%r,%r)'%(call,x,y)
        else:
            ka,kb=x==a,y==b
            if not(ka or kb): return '%s gives (%r,%r): both parts change'%(call,x,y)
            if a!=b:
                if not(kb if a<b else ka): return '%s gives (%r,%r): the larger part changes'%(call,x,y)
    return oracle
def ts_corpus(rng):
    for _ in range(6000):
        x=rng.choice([2451545.0,2400000.5,rng.uniform(-1e7,1e7),float(rng.randint(0,3000000))+.5,1e12,-1e12,0.0,rng.uniform(-1e12,1e12)])
        y=rng.choice([0.0,rng.random(),-rng.random(),rng.uniform(-1e7,1e7),1e-9,x,-x,1e12,math.nextafter(x,1e18),rng.uniform(-1e12,1e12)])
        if rng.random()<.5: x,y=y,x
        yield dict(a=x,b=y,d=rng.choice([0.0,32.184,69.2,-69.2,1e-3,37.0,-1e-6,rng.uniform(-1e5,1e5),1e9,-1e12,1e12]))
def ts_run(ck,what):
    ck.bounds.append('date parts and offset: any doubles of magnitude <= 1e12; tolerance 2^-51*(|part1|+|part2|+|offset|/86400)')
    for name,lab,sg,c in TS:
        en=Entry(name,[var('a','f'),var('b','f')]+([var('d','f')] if c is None else []))
        oracle=ts_oracle(name,lab,sg,c,what); corpus=ts_corpus
        ck.target(en,oracle,corpus)
        dom=dict(a=(-PM,PM),b=(-PM,PM),d=(-PM,PM))
        R=Relax(dom,timeout=60000); ps=ck.explore(en,R)
        def cl(k,p):
            a,b=R.low(en.f[0]),R.low(en.f[1]); x,y=R.low(p.out[0][0]),R.low(p.out[0][1])
            if what=='T01':
                d=R.low(en.f[2]) if c is None else LF(c)
                D=d*(F(sg or 1)/86400)
                ab=lambda v:R.low(term.fun('fabs',v))
                T=ab(en.f[0])+ab(en.f[1])+(ab(en.f[2])/86400 if c is None else LF(c/86400))
                return[('instant moves by the offset',lambda mm: R.absle(x+y-a-b-D,T*(F(mm)*F(2)**-51)+F(mm)*F(2)**-1070))]
            return[('one part unchanged',OR(R.cmp(x,'==',a),R.cmp(y,'==',b))),
                   ('the smaller part changes',AND(R.cmp(a,'<',b).implies(R.cmp(y,'==',b)),R.cmp(a,'>',b).implies(R.cmp(x,'==',a))))]
        check_paths(ck,en,R,ps,cl,oracle,corpus,lab+', ')
        if what=='T02':
            # bit-for-bit: the unchanged part is the input itself, not merely an equal number
            for k,p in enumerate(ps):
                if p.outcome!='ok': continue
                same=p.out[0][0] is en.f[0] or p.out[0][1] is en.f[1]
                if not same: ck.notes.append('%s path %d: unchanged part is equal but recomputed'%(lab,k))
        ck.validate(en,ps,[e for e in itertools.islice(ts_corpus(ck.rng),150)],oracle=oracle)
def T01(ck):
    ts_run(ck,'T01')
    # UT1 -> TT -> UT1
    en=Entry('h_ut1_tt_ut1',[var('a','f'),var('b','f'),var('d','f')])
    def oracle(f,i,r):
        a,b,d=f[:3]
        if any(x!=x or abs(x)>1e12 for x in(a,b,d)): return None
        if r[0]=='panic': return 'UT1 to TT to UT1 of (%r,%r) panics'%(a,b)
        x,y=r[1][:2]
        if not(abs(x)<1e300 and abs(y)<1e300) or abs(F(x)+F(y)-F(a)-F(b))>2*ts_tol(a,b,d): return 'UT1 (%r,%r) to TT and back with dT %r gives (%r,%r)'%(a,b,d,x,y)
    ck.target(en,oracle,ts_corpus)
    R=Relax(dict(a=(-PM,PM),b=(-PM,PM),d=(-PM,PM)),timeout=60000); ps=ck.explore(en,R)
    ab=lambda v:R.low(term.fun('fabs',v))
    T=ab(en.f[0])+ab(en.f[1])+ab(en.f[2])/86400
    def cl(k,p):
        return[('instant restored',lambda mm:R.absle(R.low(p.out[0][0])+R.low(p.out[0][1])-R.low(en.f[0])-R.low(en.f[1]),T*(F(mm)*F(2)**-50)+F(mm)*F(2)**-1070))]
    check_paths(ck,en,R,ps,cl,oracle,ts_corpus,'UT1-TT-UT1 ')
    # totals
    e2=Entry('h_totals',[var('a','f'),var('b','f')])
    def o2(f,i,r):
        a,b=f[:2]
        if any(x!=x or abs(x)>1e12 for x in(a,b)): return None
        for k,n in enumerate(('TT','UTC','TAI','UT1')):
            if r[0]=='panic' or not abs(r[1][k])<1e300 or abs(F(r[1][k])-F(a)-F(b))>F(2)**-52*abs(F(a)+F(b)): return '%s((%r,%r)).total() = %r'%(n,a,b,r[1][k] if r[0]=='ok' else r)
    ck.target(e2,o2,ts_corpus)
    R2=Relax(dict(a=(-PM,PM),b=(-PM,PM)),timeout=60000); ps2=ck.explore(e2,R2)
    def cl2(k,p):
        s=R2.low(e2.f[0])+R2.low(e2.f[1]); sa=R2.low(term.fbin('fadd',*e2.f))
        tol=lambda mm:F(2)**-52*mm
        def c(k):
            x=R2.low(p.out[0][k])
            return lambda mm:OR(AND(R2.cmp(s,'>='),R2.absle(x-s,s*tol(mm))),AND(R2.cmp(s,'<='),R2.absle(x-s,-s*tol(mm))))
        return[('total of %s'%n,c(k)) for k,n in enumerate(('TT','UTC','TAI','UT1'))]
    check_paths(ck,e2,R2,ps2,cl2,o2,ts_corpus,'')
    ck.validate(e2,ps2,list(itertools.islice(ts_corpus(ck.rng),60)),oracle=o2)
    ck.samples.append('conversion of (a,b) with a,b in [-1e12,1e12]')
def T02(ck):
    ts_run(ck,'T02'); ck.samples.append('conversion of (a,b) with a,b in [-1e12,1e12]')

# ============================================================ A01
TWO_PI=6.283185307179586476925287
C2=F(TWO_PI)
def A01(ck):
    en=Entry('h_anp',[var('a','f')])
    tol=F(1,10**15)
    def oracle(f,i,r):
        a=f[0]
        if a!=a or math.isinf(a): return None
        if r[0]=='panic': return 'anp(%r) panics'%a
        w=r[1][0]
        if not 0<=w<TWO_PI: return 'anp(%r) = %r is outside [0,2*pi)'%(a,w)
        d=(F(a)-F(w))/C2; k=round(d)
        if abs(d-k)*C2>tol*2: return 'anp(%r) = %r differs by %.17g turns'%(a,w,float(d))
    def corpus(rng):
        for x in[0.0,-0.0,5e-324,-5e-324,TWO_PI,-TWO_PI,math.nextafter(TWO_PI,9),math.nextafter(TWO_PI,0),-math.nextafter(TWO_PI,0),1e308,-1e308,1e22,-1e22,-1e-16,-1e-17,-4e-16,1e-300,math.pi,-math.pi]: yield dict(a=x)
        for k in list(range(-400,400)):
            x=k*TWO_PI/4
            for v in near(x,3): yield dict(a=v)
        for _ in range(4000): yield dict(a=rng.choice([rng.uniform(-100,100),rng.uniform(-1e6,1e6),rng.choice([-1,1])*10**rng.uniform(-320,308)]))
    from vt.check import near
    ck.target(en,oracle,corpus)
    ck.bounds.append('every finite double; tolerance 2e-15 rad against a whole number of turns of the double constant TWO_PI')
    R=Relax(dict(a=(-MAXD,MAXD)),[C2,-C2],timeout=60000); ps=ck.explore(en,R)
    def cl(k,p):
        w=R.low(p.out[0][0]); a=R.low(en.f[0]); ref=a-R.divmod_trunc(a,C2)*C2
        return[('0 <= w',R.cmp(w,'>=')),('w < 2*pi',R.cmp(w,'<',C2)),('whole number of turns',lambda mm:OR(*[R.absle(w-ref-C2*j,tol*mm) for j in(-1,0,1)]))]
    check_paths(ck,en,R,ps,cl,oracle,corpus)
    ck.validate(en,ps,list(corpus(ck.rng))[::7],oracle=oracle)
    ck.samples.append('a in all finite doubles')

# ============================================================ A02
ERA0,ERA1=F('0.7790572732640'),F('1.00273781191135448')
TP=F('6.283185307179586476925286766559005768394338798750211641949889184615632812572417997256')
ERATOL=F(1,10**9)
def era_oracle_factory(ck):
    def oracle(f,i,r):
        a,b=f[:2]
        if any(x!=x or abs(x)>4e6 for x in(a,b)) or abs(F(a)+F(b)-2451545)>3652500: return None
        call='Earth rotation angle at (%r,%r)'%(a,b)
        if r[0]=='panic': return call+' panics'
        w=r[1][0]
        if not 0<=w<TWO_PI: return '%s is %r'%(call,w)
        x=TP*(ERA0+ERA1*(F(a)+F(b)-2451545)); d=(x-F(w))/TP
        if abs(d-round(d))*TP>ERATOL: return '%s is %r, the linear law gives %.15g (mod 2*pi)'%(call,w,float(x%TP))
        q=ck.dev.call('h_era',[b,a])
        if q[0]!='ok' or q[1][0]!=w: return '%s is %r, with the parts exchanged %r'%(call,w,q[1][0] if q[0]=='ok' else q)
    return oracle
def era_corpus(rng):
    for _ in range(5000):
        x=rng.choice([2451545.0,2400000.5,float(rng.randint(-1200000,4000000)),rng.uniform(-1200000,4000000),0.0])
        T=2451545+rng.choice([0,rng.uniform(-3652500,3652500),rng.uniform(-36525,36525),rng.randint(-36525,36525),rng.randint(-36525,36525)+.5])
        y=T-x
        if abs(x)<=4e6 and abs(y)<=4e6: yield dict(a=x,b=y); yield dict(a=y,b=x)
def A02(ck):
    en=Entry('h_era',[var('a','f'),var('b','f')]); oracle=era_oracle_factory(ck); corpus=era_corpus
    ck.target(en,oracle,corpus)
    P=4*10**6
    ck.bounds.append('parts: any doubles of magnitude <= 4e6 with sum within 3652500 days of J2000; tolerance 1e-9 rad; exchange: equal results')
    R=Relax(dict(a=(-P,P),b=(-P,P)),[C2],timeout=60000); ps=ck.explore(en,R)
    er=Entry('h_era',[en.f[1],en.f[0]]); pr=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_era',er.f,[]),R)
    a,b=R.low(en.f[0]),R.low(en.f[1]); D=a+b-2451545
    pre=[R.absle(D,3652500)]
    def cl(k,p):
        w=R.low(p.out[0][0]); x=(D*ERA1+ERA0)*TP
        # witness for the whole number of turns: the integer part carried by the code's own quotients
        t=(x-w)/TP; best=None
        for wr in[w]+[R.low(n) for n in term.topo([p.out[0][0]]+[c for c,_ in p.cond]) if n.op=='frem']:
            u=(x-wr)/TP; ip,l0,h0=R.intpart(u,F(1))
            if ip is not None and(best is None or h0-l0<best[0]): best=(h0-l0,u)
        u=best[1] if best else t
        kk=R.floordiv(u+F(1,2),F(1))
        out=[('in [0,2*pi)',AND(R.cmp(w,'>='),R.cmp(w,'<',C2)),pre),
             ('linear law',lambda mm:OR(*[R.absle(t-kk-j,ERATOL*mm/TP) for j in(-1,0,1)]),pre)]
        for j,q in enumerate(pr):
            if q.outcome=='ok': out.append(('exchanged parts (path %d) give the same angle'%j,R.cmp(w,'==',R.low(q.out[0][0])),pre+R.conds(q.cond)+[R.cmp(a,'!=',b)]))
        return out
    check_paths(ck,en,R,ps,cl,oracle,corpus)
    ck.validate(en,ps,list(itertools.islice(corpus(ck.rng),300)),oracle=oracle)
    ck.samples+=list(itertools.islice(corpus(ck.rng),2))

# ============================================================ K01
class FpExact:
    """doubles with their exact IEEE arithmetic, for terms over few inputs"""
    def __init__(s): s.S=z3.Float64(); s.m={}; s.rm=z3.RNE()
    def f(s,t):
        if type(t) is float: return z3.fpBVToFP(z3.BitVecVal(term.d2bits(t),64),s.S)
        for n in term.topo([t]):
            if type(n) is N and n.id not in s.m: s.m[n.id]=s.node(n)
        return s.m[t.id]
    def node(s,n):
        o=n.op
        if o=='var': return z3.FP('v_'+n.args[0],s.S)
        if o=='fcmp':
            p,x,y=n.args; x,y=s.f(x),s.f(y)
            if p in('ord','uno'): w=z3.Or(z3.fpIsNaN(x),z3.fpIsNaN(y)); return w if p=='uno' else z3.Not(w)
            r={'lt':z3.fpLT,'le':z3.fpLEQ,'gt':z3.fpGT,'ge':z3.fpGEQ,'eq':z3.fpEQ,'ne':lambda a,b:z3.Not(z3.fpEQ(a,b))}[p[1:]](x,y)
            w=z3.Or(z3.fpIsNaN(x),z3.fpIsNaN(y))
            return z3.And(r,z3.Not(w)) if p[0]=='o' else z3.Or(r,w)
        if n.ty!='f' or any(type(a) is not float and not(type(a) is N and a.ty=='f') for a in n.args): raise Unsupported('exact double '+o)
        a=[s.f(x) for x in n.args]
        if o in('fadd','fsub','fmul','fdiv'): return {'fadd':z3.fpAdd,'fsub':z3.fpSub,'fmul':z3.fpMul,'fdiv':z3.fpDiv}[o](s.rm,*a)
        if o=='fneg': return z3.fpNeg(a[0])
        if o=='fabs': return z3.fpAbs(a[0])
        if o=='sqrt': return z3.fpSqrt(s.rm,a[0])
        raise Unsupported('exact double '+o)
    def check(s,conds,extra,timeout=60000):
        t0=time.time(); S=relax.STATS; q=z3.Solver(); q.set('timeout',timeout)
        for c,b in conds:
            if type(c) is N: e=s.f(c); q.add(e if b else z3.Not(e))
        for e in extra: q.add(e)
        r=str(q.check()); S.queries+=1; S.time+=time.time()-t0; setattr(S,r,getattr(S,r)+1)
        return r,(q.model() if r=='sat' else None)
def over(n,cut):
    """does the term still contain a variable when the node cut is taken as given?"""
    seen=set(); st=[n]
    while st:
        x=st.pop()
        if type(x) is not N or x.id in seen or x is cut: continue
        seen.add(x.id)
        if x.op=='var': return True
        st+=x.args
    return False
def usable(ck):
    """with the flattening so near 1 that the squared eccentricity is a few steps of 2^-53 below 1:
    every converter that is created turns a point of the equatorial plane into finite coordinates"""
    lo=1-1e-7; hi=1-2.0**-53; f=var('f','f')
    en=Entry('h_gc2gd',[1.5,0.0,0.0,1.0,f])
    def oracle(g,i,r):
        if not(lo<=g[4]<=hi) or g[:4]!=[1.5,0.0,0.0,1.0]: return None
        call='EllipsoidConverter::new(a=1,f=%r)'%g[4]
        if r[0]=='panic': return call+' or its use panics'
        if r[2][0]==0 and not all(abs(v)<1e300 for v in r[1][:3]): return '%s is accepted, and turns (1.5,0,0) into longitude %r, latitude %r, height %r'%((call,)+tuple(r[1][:3]))
    def corpus(rng):
        for e in range(24,54):
            for k in(1,1.5,1.25,rng.uniform(1,2)): yield dict(f=1-k*2.0**-e)
        yield dict(f=1-1e-9); yield dict(f=1-1e-8)
        for _ in range(200): yield dict(f=1-10**rng.uniform(-16,-7))
    ck.target(en,oracle,corpus)
    R=Relax(dict(f=(F(lo),F(hi))),timeout=60000); ps=ck.explore(en,R); tasks=[]
    for k,p in enumerate(ps):
        if p.outcome=='ok' and type(p.out[1][0]) is int and p.out[1][0]!=0: continue
        def run(k=k,p=p):
            tag='flattening near 1, path %d: '%k
            if p.outcome=='panic':
                r,m=FpExact().check(p.cond,rng_(f)); return [Verdict(tag+'cannot panic',r)]
            outs=[o for o in p.out[0][:3] if type(o) is N]
            # the node through which every result depends on the flattening, taking the fewest values
            cuts=[n for n in term.topo(outs) if n.op!='var' and n.ty=='f' and not any(over(o,n) for o in outs)]
            X=FpExact(); vals=[1-j*2.0**-53 for j in range(0,129)]
            for n in cuts:
                try: e=X.f(n)
                except Unsupported: continue
                try: E=R.low(n); w=R.iv(E)
                except Unsupported: continue
                if w[0]<1-F(1,10**6) or w[1]>1+F(1,10**6): continue
                r=R.query(R.conds(p.cond)+[OR(R.cmp(E,'<',F(vals[-1])),R.cmp(E,'>',1))])[0]
                if r!='unsat': continue
                out=[Verdict(tag+'the squared eccentricity is within 128 steps of 1','unsat')]
                for j,v in enumerate(vals):
                    w=term.substitute(outs,{n.id:v})
                    if any(type(x) is not float for x in w): return []
                    if all(abs(x)<1e300 for x in w): continue
                    cs=[(c,b) for c,b in p.cond if type(c) is N]; sc=term.substitute([c for c,_ in cs],{n.id:v})
                    if any(type(c) is not N and bool(c)!=b for c,(_,b) in zip(sc,cs)): out.append(Verdict(tag+'finite coordinates: squared eccentricity %r is refused'%v,'unsat')); continue
                    r,_=X.check(p.cond,rng_(f)+[z3.fpEQ(e,X.f(v))]); out.append(Verdict(tag+'finite coordinates, squared eccentricity %r'%v,r))
                out.append(Verdict(tag+'finite coordinates for the other values','unsat'))
                return out
            return []
        tasks.append(('usable %d'%k,run))
    rng_=lambda v: [z3.fpGEQ(z3.FP('v_f',z3.Float64()),FpExact().f(lo)),z3.fpLEQ(z3.FP('v_f',z3.Float64()),FpExact().f(hi))]
    vs=ck.run(tasks); ck.settle(en,vs,oracle,corpus,'usable: ')
    if not ck.violations: ck.validate(en,ps,list(itertools.islice(corpus(ck.rng),60)),oracle=oracle)
def K01(ck):
    en=Entry('h_ell_new',[var('a','f'),var('f','f')])
    def oracle(f,i,r):
        a,x=f[:2]; call='EllipsoidConverter::new(a=%r,f=%r)'%(a,x)
        if math.isinf(a) and a>0 and 0<=x<1: return None
        if r[0]=='panic': return call+' panics'
        t=r[2][0]
        if not 0<=x<1: w=(2,)
        elif not a>0: w=(1,)
        elif x<=1-1e-7: w=(0,)
        else: w=(0,3)
        if t not in w: return '%s has status %d, expected %d'%(call,t,w[0])
        if t==0 and r[1][:2]!=[a,x]: return '%s reports %r back'%(call,r[1][:2])
    def corpus(rng):
        A=[0.0,-0.0,5e-324,-5e-324,1e-300,1.0,6378137.0,1e308,-1.0,-1e308,NAN,INF,-INF,2.2e-308,1e-162,1e155,6378.137,1e-160]
        X=[0.0,-0.0,5e-324,-5e-324,1/298.257223563,0.1,0.5,0.9,1-1e-7,1-1e-8,1-2**-53,1.0,1+2**-52,-1e-300,2.0,NAN,INF,-INF,-1.0,0.999999]
        for a in A:
            for x in X: yield dict(a=a,f=x)
        for _ in range(2000): yield dict(a=rng.choice(A+[10**rng.uniform(-320,308)]),f=rng.choice(X+[rng.random(),rng.uniform(-1,2)]))
    ck.target(en,oracle,corpus)
    ck.bounds.append('usable near flattening 1: every double f in [1-1e-7,1-2^-53], radius 1, the point (1.5,0,0)')
    ck.bounds.append('radius and flattening: every finite double; NaN and infinite values as classes with the other argument symbolic (an infinite radius is left open)')
    z=F(1,2**1074)
    for tag,fl,fh in(('f<0',-MAXD,-z),('0<=f<=1-1e-7',0,1-F(1,10**7)),('1-1e-7<f<1',1-F(1,10**7),1-F(1,2**53)),('f>=1',1,MAXD)):
        for atag,al,ah in(('a<=0',-MAXD,0),('a>0',z,MAXD)):
            R=Relax(dict(a=(al,ah),f=(fl,fh)),timeout=60000); ps=ck.explore(en,R)
            def cl(k,p):
                t=R.li(p.out[1][0],64); c=[]
                if tag in('f<0','f>=1'): c.append(('flattening refused',R.cmp(t,'==',2)))
                elif al<0: c.append(('radius refused',R.cmp(t,'==',1)))
                else:
                    c.append(('accepted',R.cmp(t,'==') if tag[0]=='0' else OR(R.cmp(t,'=='),R.cmp(t,'==',3))))
                    if R.iv(t)[0]<=0<=R.iv(t)[1]: c.append(('ellipsoid kept',AND(R.cmp(R.low(p.out[0][0]),'==',R.low(en.f[0])),R.cmp(R.low(p.out[0][1]),'==',R.low(en.f[1]))),[R.cmp(t,'==')]))
                return c
            check_paths(ck,en,R,ps,cl,oracle,corpus,'%s, %s: '%(tag,atag))
            if tag[0]=='0' and al>0: ck.validate(en,ps,[dict(a=10**ck.rng.uniform(-300,300),f=ck.rng.random()*.99) for _ in range(60)],oracle=oracle)
    st=lambda *w:(lambda p:p.outcome=='ok' and p.out[1][0] in w)
    for x in(NAN,INF,-INF):
        concrete_class(ck,en.name,[var('a','f'),x],[],st(2),oracle,corpus,'flattening %r, any radius'%x,en,dict(a=(-MAXD,MAXD)))
        if x!=INF: concrete_class(ck,en.name,[x,var('f','f')],[],st(1),oracle,corpus,'radius %r, flattening in range'%x,en,dict(f=(0,1-F(1,2**53))))
        concrete_class(ck,en.name,[x,var('f','f')],[],st(2),oracle,corpus,'radius %r, flattening above the range'%x,en,dict(f=(1,MAXD)))
        concrete_class(ck,en.name,[x,var('f','f')],[],st(2),oracle,corpus,'radius %r, flattening below the range'%x,en,dict(f=(-MAXD,-z)))
        for y in(NAN,INF,-INF): concrete_class(ck,en.name,[y,x],[],st(2),oracle,corpus,'radius %r, flattening %r'%(y,x))
    if not ck.violations: usable(ck)
    ck.samples.append('a in (0,MAX], f in [0,1)')

# ============================================================ K05
def K05(ck):
    e1=Entry('h_deg_to_rad',[var('x','f'),var('y','f'),var('h','f')]); e2=Entry('h_rad_to_deg',[var('x','f'),var('y','f'),var('h','f')])
    PI_=TP/2; DEG=PI_/180; tol=F(1,10**12)
    def o1(f,i,r):
        x,y,h=f[:3]
        if any(v!=v or abs(v)>1e9 for v in(x,y)): return None
        if r[0]=='panic': return 'degrees to radians of %r panics'%(f[:3],)
        for n,v,w in(('longitude',x,r[1][0]),('latitude',y,r[1][1])):
            if not abs(w)<1e300 or abs(F(w)-F(v)*DEG)>F(2)**-51*abs(F(v))*DEG+F(2)**-1070: return '%s of %r degrees becomes %r rad'%(n,v,w)
        if r[1][2]!=h and h==h: return 'height %r becomes %r'%(h,r[1][2])
    def o2(f,i,r):
        x,y,h=f[:3]
        if any(v!=v or math.isinf(v) for v in(x,y)): return None
        call='radians to degrees of lon %r lat %r'%(x,y)
        # beyond the largest double in degrees the input has no finite value in degrees
        if abs(x)>3e306 or abs(y)>3e306: return None
        if r[0]=='panic': return call+' panics'
        lo,la,hh=r[1][:3]
        if not(-180<=lo<=180 and -90<=la<=90): return '%s gives (%r,%r)'%(call,lo,la)
        if hh!=h and h==h: return '%s: height %r becomes %r'%(call,h,hh)
        X=F(x)/DEG; d=(F(lo)-X)/360
        if abs(d-round(d))*360>tol*(1+abs(X)/1000): return '%s: longitude %r is not congruent to %.17g degrees'%(call,lo,float(X))
        Y=F(y)/DEG
        if abs(F(y))<=F(math.pi/2) and abs(F(la)-Y)>tol*(1+abs(Y)/1000): return '%s: latitude %r, expected %.17g'%(call,la,float(Y))
    def c1(rng):
        for _ in range(4000): yield dict(x=rng.choice([rng.uniform(-180,180),rng.uniform(-1e6,1e6),0.0,180.0,-180.0,360.0,1e-300]),y=rng.choice([rng.uniform(-90,90),90.0,-90.0,0.0]),h=rng.uniform(-1e4,1e6))
    def c2(rng):
        P=math.pi; xs=[0.0,-0.0,P,-P,math.nextafter(P,9),math.nextafter(P,0),-math.nextafter(P,9),-math.nextafter(P,0),2*P,3*P,-3*P,5*P,-1e-17,1e-17,1e-300,1e16,-1e16,1e300,P/2,-P/2,math.nextafter(P/2,0),-math.nextafter(P/2,0),math.nextafter(P/2,9)]
        for x in xs:
            for y in xs: yield dict(x=x,y=y,h=1.0)
        for _ in range(6000): yield dict(x=rng.choice([rng.uniform(-P,P),rng.uniform(-100,100),rng.choice(xs),10**rng.uniform(-10,14)]),y=rng.choice([rng.uniform(-P/2,P/2),rng.uniform(-10,10),rng.choice(xs)]),h=rng.uniform(-1e4,1e6))
    ck.target(e2,o2,c2); ck.target(e1,o1,c1)
    ck.bounds+=['degrees to radians: |lon|,|lat| <= 1e9 degrees','radians to degrees: |lon|,|lat| <= 1e12 rad for values, any finite double up to 3e306 for the ranges','1e-12 degree plus 1e-15 relative']
    Q=10**9
    R=Relax(dict(x=(-Q,Q),y=(-Q,Q),h=(-MAXD,MAXD)),timeout=60000); ps=ck.explore(e1,R)
    def cl1(k,p):
        x,y,h=[R.low(v) for v in e1.f]; X,Y,H=[R.low(v) for v in p.out[0][:3]]
        ab=lambda v:R.low(term.fun('fabs',v))
        return[('longitude',lambda mm:R.absle(X-x*DEG,ab(e1.f[0])*(DEG*F(2)**-51*mm)+F(2)**-1070*mm)),('latitude',lambda mm:R.absle(Y-y*DEG,ab(e1.f[1])*(DEG*F(2)**-51*mm)+F(2)**-1070*mm)),('height',R.cmp(H,'==',h))]
    check_paths(ck,e1,R,ps,cl1,o1,c1,'to radians ')
    ck.validate(e1,ps,list(itertools.islice(c1(ck.rng),60)),oracle=o1)
    B6=F(3)*10**306
    D90=F(float(math.pi/2))
    for tag,X,Yl,Yh in(('any finite, ',B6,-B6,B6),('values, ',F(10)**12,-F(10)**12,F(10)**12),('latitude in range, ',F(10)**12,-D90,D90)):
        R=Relax(dict(x=(-X,X),y=(Yl,Yh),h=(-MAXD,MAXD)),[360,-360,180,-180,90,-90,F(1,2)],timeout=60000)
        if tag=='latitude in range, ':
            pass
        ps=ck.explore(e2,R)
        def cl2(k,p):
            x,y,h=[R.low(v) for v in e2.f]; lo,la,H=[R.low(v) for v in p.out[0][:3]]
            ab=lambda v:R.low(term.fun('fabs',v))
            if tag[0]=='a': return[('in range',AND(R.absle(lo,180),R.absle(la,90))),('height',R.cmp(H,'==',h))]
            out=[]
            if tag[0]=='v':
                t=(lo-x/DEG)/360; kk=R.floordiv(t+F(1,2),F(1))
                out.append(('longitude congruent modulo 360',lambda mm:R.absle(t-kk,(ab(e2.f[0])*(1/DEG/1000)+1)*(tol*mm/360))))
            else:
                out.append(('same latitude',lambda mm:R.absle(la-y/DEG,(ab(e2.f[1])*(1/DEG/1000)+1)*(tol*mm))))
            return out
        check_paths(ck,e2,R,ps,cl2,o2,c2,'to degrees, '+tag)
        if tag[0]=='v': ck.validate(e2,ps,[e for e in list(c2(ck.rng))[::25] if abs(e['x'])<=1e12 and abs(e['y'])<=1e12],oracle=o2)
    ck.samples.append('lon, lat in [-1e12,1e12] rad')
