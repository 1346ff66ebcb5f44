"""Calendar, time of day, TAI-UTC, time scales, angle normalisation."""
import math, random, itertools
from fractions import Fraction as F
from vt import symex, term, relax
from vt.term import var, N, topo
from vt.relax import Relax, B, AND, OR, TRUE, FALSE, LF
from vt.ll import Unsupported
from vt.check import Entry, Verdict, prove

I32=(-2**31,2**31-1)
NAN=float('nan'); INF=float('inf')
CUM=[0,31,59,90,120,151,181,212,243,273,304,334]
ML=[31,28,31,30,31,30,31,31,30,31,30,31]

# ------------------------------------------------------------ references (concrete)
def is_leap(y): return y%4==0 and (y%100!=0 or y%400==0)
def mlen(y,m): return 29 if m==2 and is_leap(y) else ML[m-1]
def valid(y,m,d): return y>=-4799 and 1<=m<=12 and 1<=d<=mlen(y,m)
def mjd(y,m,d):
    """days from 1858-11-17, proleptic Gregorian, by counting whole years, months and days"""
    y1=y-1
    return y1*365+y1//4-y1//100+y1//400+CUM[m-1]+(1 if m>2 and is_leap(y) else 0)+d-678576
def first_bad(y,m,d):
    if y<-4799: return 1
    if not 1<=m<=12: return 2
    if not 1<=d<=mlen(y,m): return 3
    return 0
# ------------------------------------------------------------ references (symbolic)
def zleap(R,y):
    z=lambda c: R.cmp(y-R.floordiv(y,F(c))*c,'==')
    return OR(z(400),AND(z(4),R.neg(z(100))))
def zmjd(R,y,mo,d):
    y1=y-1
    n=y1*365+R.floordiv(y1,F(4))-R.floordiv(y1,F(100))+R.floordiv(y1,F(400))+CUM[mo-1]+d-678576
    if mo>2: n=R.ite(zleap(R,y),n+1,n)
    return n
def zmlen(R,y,mo): return R.ite(zleap(R,y),LF(29),LF(28)) if mo==2 else LF(ML[mo-1])

def rdate(rng,lo=-4799,hi=100000):
    y=rng.choice([rng.randint(lo,hi),rng.randint(max(lo,1890),min(hi,2110)),100*rng.randint(-40,30),rng.choice([lo,hi,max(lo,0),1900,2000,2100])])
    y=min(max(y,lo),hi)
    m=rng.choice([rng.randint(1,12),2,2,1,12,3]); d=rng.choice([rng.randint(1,mlen(y,m)),1,mlen(y,m)])
    return y,m,d

# ============================================================ C01
def C01(ck):
    en=Entry('h_cal_new',[],[var('y',32),var('m',32),var('d',32)])
    dom=dict(y=I32,m=I32,d=I32)
    def oracle(f,i,r):
        y,m,d=i[:3]
        if r[0]=='panic': return 'GregorianDate::new(%d,%d,%d) panics'%(y,m,d)
        b=first_bad(y,m,d); o=r[2]
        if o[0]!=b: return 'GregorianDate::new(%d,%d,%d): status %d, expected %d'%(y,m,d,o[0],b)
        if b==0 and o[1:4]!=[y,m,d]: return 'GregorianDate::new(%d,%d,%d) yields %r'%(y,m,d,o[1:4])
    def corpus(rng):
        ex=[-2**31,-4801,-4800,-4799,-4400,-4,-1,0,1,4,100,400,1600,1700,1900,1999,2000,2001,2004,2100,2400,2**31-1]
        for y in ex+[rng.randint(*I32) for _ in range(30)]+[rng.randint(-4799,3000) for _ in range(200)]:
            for m in[-2**31,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,2**31-1]:
                for d in[-2**31,-1,0,1,2,15,27,28,29,30,31,32,33,2**31-1]: yield dict(y=y,m=m,d=d)
    ck.target(en,oracle,corpus)
    ck.bounds.append('year, month, day: every triple of 32-bit signed integers')
    R=Relax(dom); ps=ck.explore(en,R)
    def task(k,p):
        def run():
            y,m,d=[R.low(v) for v in en.i]
            cs=R.conds(p.cond)
            if p.outcome=='panic': return [prove(R,'path %d cannot panic'%k,cs,FALSE)]
            tag=p.out[1][0]
            yok=R.cmp(y,'>=',-4799); mok=AND(R.cmp(m,'>=',1),R.cmp(m,'<=',12))
            dok=AND(*[R.cmp(m,'==',j).implies(AND(R.cmp(d,'>=',1),R.cmp(d,'<=',zmlen(R,y,j)))) for j in range(1,13)])
            want=[AND(yok,mok,dok),R.neg(yok),AND(yok,R.neg(mok)),AND(yok,mok,R.neg(dok))]
            t=R.li(tag,64)
            out=[]
            cl=AND(*[R.cmp(t,'==',j).implies(want[j]) for j in range(4)],R.cmp(t,'>='),R.cmp(t,'<=',3))
            out.append(prove(R,'path %d: status matches the calendar rule'%k,cs,cl))
            if R.iv(t)[0]<=0<=R.iv(t)[1]:
                same=AND(*[R.cmp(R.li(p.out[1][j],64),'==',v) for j,v in((1,y),(2,m),(3,d))])
                out.append(prove(R,'path %d: fields carry the arguments'%k,cs+[R.cmp(t,'==')],same))
            return out
        return ('path %d'%k,run)
    vs=ck.run([task(k,p) for k,p in enumerate(ps)])
    ck.settle(en,vs,oracle,corpus)
    rng=ck.rng
    envs=[dict(zip('ymd',rdate(rng))) for _ in range(150)]+list(itertools.islice(corpus(rng),0,2000,17))
    ck.validate(en,ps,envs,oracle=oracle)
    ck.samples+=[envs[0],'path condition: '+str([(term.show(c,4),b) for c,b in ps[-1].cond][:6])]

# ============================================================ C02
def C02(ck):
    en=Entry('h_cal_to_julian',[],[var('y',32),var('m',32),var('d',32)])
    def oracle(f,i,r):
        y,m,d=i[:3]
        if not valid(y,m,d): return None
        if r[0]=='panic': return 'to_julian of %d-%d-%d panics'%(y,m,d)
        a,b=r[1][:2]
        if a!=2400000.5 or b!=mjd(y,m,d): return 'to_julian of %d-%d-%d gives (%r,%r), expected (2400000.5,%d)'%(y,m,d,a,b,mjd(y,m,d))
    def corpus(rng):
        for _ in range(30000):
            y,m,d=rdate(rng,-4799,rng.choice([3000,10**6,2**31-1])); yield dict(y=y,m=m,d=d)
        for y in[-4799,-4716,-4712,-1,0,1,1582,1858,1900,2000,2100,1465102,1465103,2**31-1]:
            for m in range(1,13):
                for d in range(1,mlen(y,m)+1): yield dict(y=y,m=m,d=d)
    ck.target(en,oracle,corpus)
    ck.bounds.append('year -4799..2147483647, month 1..12 (case split), day valid in the month')
    R0=Relax(dict(y=(-4799,2**31-1),m=(1,12),d=(1,31)))
    ps=ck.explore(en,R0)
    def task(mo):
        def run():
            R=Relax(dict(y=(-4799,2**31-1),m=(mo,mo),d=(1,31)),timeout=60000 if ck.quick else 300000)
            y,m,d=[R.low(v) for v in en.i]; out=[]
            pre=[R.cmp(d,'<=',zmlen(R,y,mo)),R.cmp(m,'==',mo)]
            for k,p in enumerate(ps):
                cs=R.conds(p.cond)+pre
                if p.outcome=='panic': out.append(prove(R,'month %d path %d cannot panic'%(mo,k),cs,FALSE)); continue
                n=zmjd(R,y,mo,d)
                out.append(prove(R,'month %d path %d: first part is 2400000.5'%(mo,k),cs,R.cmp(R.low(p.out[0][0]),'==',F('2400000.5'))))
                out.append(prove(R,'month %d path %d: second part is the day count'%(mo,k),cs,R.cmp(R.low(p.out[0][1]),'==',n)))
            return out
        return('month %d'%mo,run)
    def succ():
        # the reference itself advances by one from each valid date to the next (sanity of the oracle)
        out=[]
        for mo in range(1,13):
            R=Relax(dict(y=(-4799,2**31-2),d=(1,31)),timeout=30000)
            y,d=R.low(var('y',32)),R.low(var('d',32))
            L=zmlen(R,y,mo); n=zmjd(R,y,mo,d)
            out.append(prove(R,'reference: next day within month %d'%mo,[R.cmp(d,'<',L)],R.cmp(zmjd(R,y,mo,d+1),'==',n+1)))
            n2=zmjd(R,y,mo+1,LF(1)) if mo<12 else zmjd(R,y+1,1,LF(1))
            out.append(prove(R,'reference: month %d to next month'%mo,[R.cmp(d,'==',L)],R.cmp(n2,'==',n+1)))
        R=Relax({}); out.append(prove(R,'reference: 2000-01-01 is 51544',[],R.cmp(zmjd(R,LF(2000),1,LF(1)),'==',51544)))
        return out
    vs=ck.run([task(mo) for mo in range(1,13)]+[('reference',succ)])
    ck.settle(en,vs,oracle,corpus)
    envs=[dict(zip('ymd',rdate(ck.rng,-4799,ck.rng.choice([3000,2**31-1])))) for _ in range(300)]
    ck.validate(en,ps,envs,oracle=oracle); ck.samples+=envs[:3]

# ============================================================ C03
def jd_corpus(rng,lo=-32000,hi=10**9):
    def parts(x):
        yield x,0.0
        yield 0.0,x
        yield 2400000.5,x-2400000.5
        yield x-2400000.5,2400000.5
        yield 2451545.0,x-2451545.0
        yield math.floor(x),x-math.floor(x)
        yield math.floor(x)+1,x-math.floor(x)-1
        yield x*2,-x
        yield -x,x*2
    tiny=[0.0,1e-300,-1e-300,1e-17,-1e-17,2**-53,-2**-53,1e-9,-1e-9,0.25,-0.25,0.5,-0.5,0.4999999999,0.5000000001,-0.5000000001,0.9999999999999999,-0.9999999999999999]
    xs=[float(lo),float(hi),-31739.0,-31738.5,-0.5,0.0,0.5,1.0,2299160.5,2400000.5,2415020.0,2451545.0,2451544.5,2488069.5,536802342.0,536870912.0,999999999.5]
    for _ in range(2500):
        x=rng.choice([rng.uniform(lo,hi),rng.uniform(-32000,3e6),float(rng.randint(-32000,3000000)),rng.randint(-32000,3000000)+0.5,rng.choice(xs),mjd(*rdate(rng,-4799,9999))+2400000.5])
        t=rng.choice(tiny)
        for a,b in parts(x):
            yield a+0.0,b+t
            yield a+t,b
            if rng.random()<.3: yield b+t,a
def inst_oracle(name):
    def oracle(f,i,r):
        a,b=f[:2]
        call='%s(%r,%r)'%(name,a,b)
        if r[0]=='panic': return call+' panics'
        s=a+b
        if s!=s or s<-32000 or s>1e9:
            return None if r[2][0]==4 else '%s: sum %r is outside the supported range but the status is %d'%(call,s,r[2][0])
        if abs(a)>1e9 or abs(b)>1e9: return None
        if r[2][0]!=0: return call+' fails with status %d'%r[2][0]
        y,m,d=r[2][1:4]; fd=r[1][0]
        if not(1<=m<=12 and 1<=d<=mlen(y,m)): return '%s gives the impossible date %d-%d-%d'%(call,y,m,d)
        if not 0<=fd<1: return '%s gives the fraction %r'%(call,fd)
        e=abs(F('2400000.5')+mjd(y,m,d)+F(fd)-F(a)-F(b))
        if e>F(1,10**9)*0+tol_inst(a,b): return '%s gives %d-%d-%d + %r, off by %.3g day'%(call,y,m,d,fd,float(e))
    return oracle
def tol_inst(a,b):
    # fraction arithmetic in [0,1): the parts enter through exact remainders, apart from the half-day shift
    return F(2)**-51+max(abs(F(a)),abs(F(b)))*F(2)**-51
def zinst_tol(R,a,b):
    t=R.atom('tol',0,10**9); T=R.A(t)
    R.con(t,AND(*[R.cmp(T,'>=',x) for x in(a,-a,b,-b)],OR(*[R.cmp(T,'<=',x) for x in(a,-a,b,-b)])))
    return (T+1)*(F(2)**-51)
def C03(ck):
    en=Entry('h_cal_from_julian',[var('a','f'),var('b','f')],[])
    oracle=inst_oracle('from_julian')
    def corpus(rng):
        for a,b in jd_corpus(rng): yield dict(a=a,b=b)
        for a,b in itertools.product([NAN,INF,-INF,0.0,1e9,-1e9,1e308,-1e308,5e8,-32000.0,math.nextafter(1e9,INF),-32001.0],repeat=2): yield dict(a=a,b=b)
    ck.target(en,oracle,corpus)
    ck.bounds+=['accepted range: both parts any finite double with |part| <= 1e9','rejection: both parts any finite double (sum outside [-32000,1e9]); NaN and infinite parts as concrete classes combined with any finite other part',
                'instant error bound 2^-51*(1+max(|part1|,|part2|)) day']
    ck.assumptions.append('doubles are reals with a rounding-error variable per operation; the integer part (month, day, year arithmetic) is exact')
    instant_check(ck,en,oracle,corpus,lambda p:(p.out[1][1:4],p.out[0][0]))
    # non-finite classes
    vs=[]
    for x in(NAN,INF,-INF):
        for e2 in(Entry('h_cal_from_julian',[x,var('b','f')]),Entry('h_cal_from_julian',[var('b','f'),x])):
            R=Relax(dict(b=(-relax.FMAX,relax.FMAX)))
            if math.isinf(x):
                ps=ck.explore(Entry(e2.name,[v if type(v) is not N else 0.5 for v in e2.f]),R)
            else: ps=ck.explore(e2,R)
            ok=all(p.outcome=='ok' and p.out[1][0]==4 for p in ps)
            vs.append(prove(R,'part %r is refused'%x,[],TRUE if ok else FALSE))
            ck.claims.append((vs[-1].label,vs[-1].res,''))
            if not ok: ck.settle(en,[vs[-1]],oracle,corpus)
    for x,y in itertools.product((NAN,INF,-INF),repeat=2):
        ps=ck.explore(Entry('h_cal_from_julian',[x,y]),None)
        ok=all(p.outcome=='ok' and p.out[1][0]==4 for p in ps)
        ck.claims.append(('parts %r,%r are refused'%(x,y),'unsat' if ok else 'sat','concrete'))
        if not ok: ck.settle(en,[Verdict('non-finite parts','sat')],oracle,corpus)

def instant_check(ck,en,oracle,corpus,get,ftol=None):
    """shared by C03 and C06: date fields valid, day number and fraction equal the sum of the parts"""
    M=10**9
    R=Relax(dict(a=(-M,M),b=(-M,M)),[-32000,M,F(1,2)],timeout=60000)
    ps=ck.explore(en,R)
    def reject():
        # whatever finite parts: a sum outside the range gives BadJulian on every path
        RX=Relax(dict(a=(-relax.FMAX,relax.FMAX),b=(-relax.FMAX,relax.FMAX)),[-32000,M],timeout=60000)
        S=term.fbin('fadd',en.f[0],en.f[1]); out=[]
        for nm,c in(('below -32000',term.fcmp('olt',S,-32000.0)),('above 1e9',term.fcmp('ogt',S,1e9))):
            psx=symex.explore(ck.eng,lambda r: symex.call_entry(r,en.name,en.f,en.i),RX,pathcond=[(c,True)],max_paths=400)
            if not psx: raise Unsupported('no path for a sum '+nm)
            for k,p in enumerate(psx):
                isbad=p.outcome=='ok' and type(p.out[1][0]) is int and p.out[1][0]==4
                if isbad: out.append(Verdict('sum %s: path %d is refused'%(nm,k),'unsat',note='every explored path'))
                else: out.append(prove(RX,'sum %s: path %d (not refused) is infeasible'%(nm,k),RX.conds(p.cond),FALSE))
        return out
    tasks=[('rejection',reject)]
    ints={}
    for k,p in enumerate(ps):
        if p.outcome=='panic':
            tasks.append(('panic',lambda k=k,p=p:[prove(R,'path %d cannot panic'%k,R.conds(p.cond),FALSE)])); continue
        tag=p.out[1][0]
        if type(tag) is int and tag==4:
            s=term.fbin('fadd',en.f[0],en.f[1])
            tasks.append(('bad',lambda k=k,p=p,s=s:[prove(R,'path %d refuses only sums outside the range'%k,R.conds(p.cond),OR(R.cmp(R.low(s),'<',-32000),R.cmp(R.low(s),'>',M)))])); continue
        (yn,mn,dn),fd=get(p)
        cuts=[n for n in term.topo([yn,mn,dn]) if n.op in('fptosi',)]
        if len(cuts)==1:
            J=cuts[0]; jv=var('J#',J.ty)
            sub=term.substitute([yn,mn,dn],{J.id:jv})
            # integer path conditions that only speak about J
            ic=[]
            for n,v in p.cond:
                n2=term.substitute([n],{J.id:jv})[0]
                if type(n2) is N and not any(x.op=='var' and x.args[0] in('a','b') for x in term.topo([n2])): ic.append((n2,v))
            key=(tuple(term.key(x) for x in sub),tuple((n.id,v) for n,v in ic))
            ints.setdefault(key,(sub,ic,jv,k))
            def fl(k=k,p=p,J=J,fd=fd):
                cs=R.conds(p.cond); j=R.low(J); f=R.low(fd); a,b=R.low(en.f[0]),R.low(en.f[1])
                tol=zinst_tol(R,a,b) if ftol is None else ftol(R,a,b)
                # the date is proved to have Julian day number J + J0 by the integer part (see below)
                return [prove(R,'path %d: day number within the integer lemma range'%k,cs,AND(R.cmp(j,'>=',-33000),R.cmp(j,'<=',M+10))),
                        prove(R,'path %d: 0 <= f < 1'%k,cs,AND(R.cmp(f,'>='),R.cmp(f,'<',1))),
                        prove(R,'path %d: day number + f = part1 + part2'%k,cs,lambda m: R.absle(j+F(1,2)+f-a-b,tol*m))]
            tasks.append(('float %d'%k,fl))
        else:
            def direct(k=k,p=p,yn=yn,mn=mn,dn=dn,fd=fd):
                out=[]
                y,m,d=[R.li(x,64) for x in(yn,mn,dn)]; f=R.low(fd); a,b=R.low(en.f[0]),R.low(en.f[1]); cs=R.conds(p.cond)
                tol=zinst_tol(R,a,b) if ftol is None else ftol(R,a,b)
                out.append(prove(R,'path %d month'%k,cs,AND(R.cmp(m,'>=',1),R.cmp(m,'<=',12),R.cmp(f,'>='),R.cmp(f,'<',1))))
                for mo in range(1,13):
                    c2=cs+[R.cmp(m,'==',mo)]
                    out.append(prove(R,'path %d month %d valid day'%(k,mo),c2,AND(R.cmp(d,'>=',1),R.cmp(d,'<=',zmlen(R,y,mo)))))
                    out.append(prove(R,'path %d month %d instant'%(k,mo),c2,lambda mm: R.absle(zmjd(R,y,mo,d)+F('2400000.5')+f-a-b,tol*mm)))
                return out
            tasks.append(('direct %d'%k,direct))
    for key,(sub,ic,jv,k) in ints.items():
        for mo in range(0,13):
            def il(sub=sub,ic=ic,jv=jv,mo=mo,k=k):
                Q=Relax({'J#':(-33000,M+10)},timeout=120000 if ck.quick else 600000)
                y,m,d=[Q.li(x,64) for x in sub]; j=Q.low(jv); cs=Q.conds(ic)+[Q.cmp(j,'>=',-33000)]
                if mo==0: return [prove(Q,'date arithmetic (path %d): month in 1..12'%k,cs,AND(Q.cmp(m,'>=',1),Q.cmp(m,'<=',12)))]
                c2=cs+[Q.cmp(m,'==',mo)]
                return [prove(Q,'date arithmetic (path %d), month %d: day exists'%(k,mo),c2,AND(Q.cmp(d,'>=',1),Q.cmp(d,'<=',zmlen(Q,y,mo)))),
                        prove(Q,'date arithmetic (path %d), month %d: day number is J'%(k,mo),c2,Q.cmp(zmjd(Q,y,mo,d),'==',j-2400000))]
            tasks.append(('int %d'%mo,il))
    vs=ck.run(tasks)
    # integer counterexamples give a day number: turn it into parts
    for v in vs:
        if v.res!='unsat' and v.inputs and 'J#' in v.inputs:
            j=float(v.inputs['J#']); v.cands=[dict(a=j+x,b=y) for x in(0.0,.5,-.5,.25,-.25,-1.,1.) for y in(0.0,.25)]; v.inputs=None
    ck.settle(en,vs,oracle,corpus)
    envs=[dict(a=a,b=b) for a,b in itertools.islice(jd_corpus(ck.rng),400) if abs(a)<=M and abs(b)<=M]
    ck.validate(en,ps,envs,oracle=oracle); ck.samples+=envs[:3]+['path condition: '+str([(term.show(c,4),b) for c,b in ps[0].cond][:5])]
    return ps

# ------------------------------------------------------------ helpers
def check_paths(ck,en,R,ps,claims,oracle,corpus,tag=''):
    """claims(k,p) -> list of (label, claim[, extra conditions]); a panicking path must be infeasible"""
    tasks=[]
    for k,p in enumerate(ps):
        def run(k=k,p=p):
            cs=R.conds(p.cond)
            if p.outcome=='panic': return [prove(R,'%spath %d cannot panic'%(tag,k),cs,FALSE)]
            # a claim over its own encoding (fourth element) brings its own conditions
            return [prove(c[3],'%spath %d: %s'%(tag,k,c[0]),list(c[2]),c[1]) if len(c)>3 else prove(R,'%spath %d: %s'%(tag,k,c[0]),cs+list(c[2] if len(c)>2 else []),c[1]) for c in claims(k,p)]
        tasks.append(('%spath %d'%(tag,k),run))
    vs=ck.run(tasks)
    ck.settle(en,vs,oracle,corpus)
    return vs

def concrete_class(ck,name,f,i,ok,oracle,corpus,label,en=None,dom=None):
    """non-finite inputs: concrete execution of the IR (other inputs symbolic when dom is given)"""
    R=Relax(dom) if dom else None
    ps=symex.explore(ck.eng,lambda r: symex.call_entry(r,name,f,i),R)
    good=bool(ps) and all(ok(p) for p in ps)
    ck.paths+=len(ps)
    if dom: v=prove(R,label,[],TRUE) if good else Verdict(label,'sat')
    else: v=Verdict(label,'unsat' if good else 'sat',note='concrete class, executed in the IR')
    ck.claims.append((label,v.res,v.note))
    if not good: ck.settle(en,[Verdict(label,'sat')],oracle,corpus)
    return good
MAXD=relax.FMAX

def rfrac(rng):
    return rng.choice([rng.random(),rng.random(),rng.randint(0,86399)/86400,rng.randint(0,1439)/1440,0.0,0.5,1-2**-53,2**-1074,rng.random()*1e-6,1-rng.random()*1e-6,math.nextafter(rng.randint(0,86400)/86400,0),math.nextafter(rng.randint(0,86399)/86400,2)])

# ============================================================ C04
def C04(ck):
    YMAX=2700000
    en=Entry('h_cal_roundtrip',[var('f','f')],[var('y',32),var('m',32),var('d',32)])
    def oracle(f,i,r):
        y,m,d=i[:3]; x=f[0]
        if not(valid(y,m,d) and y<=YMAX and 0<=x<1): return None
        if r[0]=='panic': return 'round trip of %d-%d-%d + %r panics'%(y,m,d,x)
        if x==0 and (r[2][:4]!=[0,y,m,d] or r[1][0]!=0): return '%d-%d-%d comes back as %r with fraction %r'%(y,m,d,r[2][:4],r[1][0])
        if x<=1-1e-6 and (r[2][:4]!=[0,y,m,d] or not abs(r[1][0]-x)<=1e-6): return '%d-%d-%d + %r comes back as %r with fraction %r'%(y,m,d,x,r[2][:4],r[1][0])
    def corpus(rng):
        for _ in range(40000):
            y,m,d=rdate(rng,-4799,rng.choice([3000,3000,20000,YMAX])); yield dict(y=y,m=m,d=d,f=rfrac(rng) if rng.random()<.7 else 0.0)
        for y in(-4799,-4713,-1,0,1,1600,1858,1900,2000,2100,YMAX):
            for m in range(1,13):
                for d in range(1,mlen(y,m)+1): yield dict(y=y,m=m,d=d,f=0.0)
    ck.target(en,oracle,corpus)
    ck.bounds+=['year -4799..2700000, every month and day; fraction any double in [0,1)']
    ck.assumptions.append('the second Julian date part is cut: its value is the day count proved in C02 (re-proved here), the rest of the conversion is analysed for every integer day count')
    # the day count term
    R0=Relax(dict(y=(-4799,YMAX),m=(1,12),d=(1,31)))
    p0=ck.explore(Entry('h_cal_to_julian',[],en.i),R0)
    cutn=[]
    for p in p0:
        if p.outcome!='ok': continue
        t=p.out[0][1]
        while type(t) is N and t.op not in('sitofp','uitofp'): t=t.args[0] if t.args and type(t.args[0]) is N else None
        if t is None: raise Unsupported('no integer day count in to_julian')
        cutn.append(t)
    lo,hi=mjd(-4799,1,1),mjd(YMAX,12,31)
    E6=F(1,10**6)
    def mkR(flo,fhi,hg):
        R=Relax(dict(y=(-4799,YMAX),m=(1,12),d=(1,31),f=(flo,fhi)),[-32000,10**9,F(1,2)],timeout=60000)
        R.cuts={t.args[0].id:(lo,hi) for t in cutn}; R.hgrid=hg
        return R
    tasks=[]; ints={}; allps=[]
    for tag,flo,fhi in(('f = 0',0,0),('0 <= f <= 1e-6',0,E6),('1e-6 <= f <= 1-1e-6',E6,1-E6),('1-1e-6 <= f < 1',1-E6,1-F(1,2**53))):
        R=mkR(flo,fhi,False); en2=en if fhi else Entry(en.name,[0.0],en.i)
        RH=mkR(flo,fhi,True)
        ps=ck.explore(en2,R)
        if fhi: allps.append(ps)
        for k,p in enumerate(ps):
            if p.outcome=='panic':
                tasks.append((tag,lambda k=k,p=p,R=R,tag=tag:[prove(R,'%s path %d cannot panic'%(tag,k),R.conds(p.cond),FALSE)])); continue
            if not(type(p.out[1][0]) is int and p.out[1][0]==0):
                tasks.append((tag,lambda k=k,p=p,R=R,tag=tag:[prove(R,'%s path %d cannot fail'%(tag,k),R.conds(p.cond),FALSE)])); continue
            if flo==1-E6: continue
            o=p.out[1][1:4]; fd=p.out[0][0]
            js=[n for n in term.topo(list(o)) if n.op=='fptosi']
            if len(js)!=1: raise Unsupported('day number of from_julian not identified')
            J=js[0]; jv=var('J#',J.ty); sub=term.substitute(o+[c for c,_ in p.cond],{J.id:jv})
            # with the decisions that depend on the day number alone
            when=[(c,v) for c,(_,v) in zip(sub[3:],p.cond) if type(c) is N and all(n.op!='var' or n is jv for n in topo([c]))]; sub=sub[:3]
            ints.setdefault((tuple(term.key(x) for x in sub),frozenset((c.id,v) for c,v in when)),(sub,when,jv))
            def fl(k=k,p=p,R=R,RH=RH,J=J,fd=fd,tag=tag,fhi=fhi):
                ids={n.id for n in term.topo([J,fd])}
                cut=next((t.args[0] for t in cutn if t.args[0].id in ids),cutn[0].args[0])
                def get(R): 
                    return R.conds(p.cond),R.li(cut,64),R.low(J),R.low(fd),(R.low(en.f[0]) if fhi else LF(0))
                cs,n,j,x,f=get(R)
                if not fhi: return [prove(R,'%s path %d: same day number, zero fraction'%(tag,k),cs,AND(R.cmp(j,'==',n+2400000),R.cmp(x,'==')))]
                inst=lambda R,n,j,x,f:AND(R.absle(j+x-n-f-2400000,E6/2),R.cmp(x,'>='),R.cmp(x,'<',1))
                out=[prove(R,'%s path %d: same instant'%(tag,k),cs,inst(R,n,j,x,f))]
                if out[0].res!='unsat': return out
                if fhi==E6: R=RH; cs,n,j,x,f=get(R)
                cs=cs+[inst(R,n,j,x,f)]      # proved just above
                out.append(prove(R,'%s path %d: same day number'%(tag,k),cs,R.cmp(j,'==',n+2400000)))
                if out[1].res!='unsat': return out
                out.append(prove(R,'%s path %d: same fraction'%(tag,k),cs+[R.cmp(j,'==',n+2400000)],R.absle(x-f,E6)))
                return out
            tasks.append((tag,fl))
    for mo in range(1,13):
        def dc(mo=mo):
            R=Relax(dict(y=(-4799,YMAX),m=(mo,mo),d=(1,31)),timeout=60000); out=[]
            y,m,d=[R.low(v) for v in en.i]; pre=[R.cmp(d,'<=',zmlen(R,y,mo))]
            for k,p in enumerate(p0):
                if p.outcome=='panic': out.append(prove(R,'month %d: day count path %d cannot panic'%(mo,k),R.conds(p.cond)+pre,FALSE))
                else: out.append(prove(R,'month %d: day count'%mo,R.conds(p.cond)+pre,R.cmp(R.low(p.out[0][1]),'==',zmjd(R,y,mo,d))))
            return out
        tasks.append(('day count',dc))
        for sub,when,jv in ints.values():
            def il(mo=mo,sub=sub,when=when,jv=jv):
                # output month mo with day number J: a real date whose day count is J - 2400000
                Q=Relax({'J#':(lo+2400000,hi+2400000)},timeout=120000)
                y,m,d=[Q.li(x,64) for x in sub]; j=Q.low(jv); c2=[Q.cmp(m,'==',mo)]+[Q.bool(c) if v else Q.neg(Q.bool(c)) for c,v in when]
                return [prove(Q,'inverse, month %d: day exists'%mo,c2,AND(Q.cmp(d,'>=',1),Q.cmp(d,'<=',zmlen(Q,y,mo)))),
                        prove(Q,'inverse, month %d: day count'%mo,c2,Q.cmp(zmjd(Q,y,mo,d),'==',j-2400000))]
            tasks.append(('inverse',il))
        def inj(mo=mo):
            # different real dates have different day counts (so the date is recovered, not just its count)
            out=[]
            R=Relax(dict(y=(-4800,YMAX+1),y2=(-4800,YMAX+1),d=(1,31),d2=(1,31)),timeout=60000)
            y,y2,d,d2=[R.low(var(v,32)) for v in('y','y2','d','d2')]
            for m2 in range(1,13):
                pre=[R.cmp(d,'<=',zmlen(R,y,mo)),R.cmp(d2,'<=',zmlen(R,y2,m2)),R.cmp(y,'<=',y2)]
                if m2==mo: lt=[R.neg(AND(R.cmp(y,'==',y2),R.cmp(d,'>=',d2)))]
                elif m2>mo: lt=[]
                else: lt=[R.cmp(y,'<',y2)]
                out.append(prove(R,'day counts grow with the date (%d,%d)'%(mo,m2),pre+lt,R.cmp(zmjd(R,y,mo,d),'<',zmjd(R,y2,m2,d2))))
            return out
        tasks.append(('order',inj))
    def mrange():
        out=[]
        for sub,when,jv in ints.values():
            Q=Relax({'J#':(lo+2400000,hi+2400000)},timeout=120000)
            m=Q.li(sub[1],64); out.append(prove(Q,'inverse: month in 1..12',[Q.bool(c) if v else Q.neg(Q.bool(c)) for c,v in when],AND(Q.cmp(m,'>=',1),Q.cmp(m,'<=',12))))
        return out
    tasks.append(('month',mrange))
    vs=ck.run(tasks)
    for v in vs:
        if v.res!='unsat' and v.inputs:
            if 'J#' in v.inputs: v.cands=[dict(zip('ymd',ymd(int(v.inputs['J#'])-2400000+x)),f=0.0) for x in(-1,0,1)]; v.inputs=None
    ck.settle(en,vs,oracle,corpus)
    envs=[e for e in itertools.islice(corpus(ck.rng),300)]
    for ps,sel in zip(allps,(lambda f:f<=1e-6,lambda f:1e-6<=f<=1-1e-6,lambda f:f>1-1e-6)): ck.validate(en,ps,[e for e in envs if sel(e['f'])],oracle=oracle)
    ck.samples+=envs[:3]
def ymd(n):
    """calendar date of a modified Julian day number (reference, by search)"""
    y=int((n+678576)/365.2425); y+=2
    while mjd(y,1,1)>n: y-=1
    m=12
    while mjd(y,m,1)>n: m-=1
    return y,m,n-mjd(y,m,1)+1

# ============================================================ C05
def C05(ck):
    vf=var('f','f'); L=1-F(1,2**53)
    e1=Entry('h_hms_from_fraction',[vf]); e2=Entry('h_hms_roundtrip',[vf]); e3=Entry('h_hms_to_fraction',[var('s','f')],[var('h',8),var('mi',8)])
    def o1(f,i,r):
        x=f[0]
        if r[0]=='panic': return 'from_fraction_of_day(%r) panics'%x
        if not 0<=x<=1: return None if r[2][0]==5 else 'fraction %r gives status %d instead of bad fraction'%(x,r[2][0])
        if r[2][0]!=0: return 'fraction %r is refused'%x
        h,m,s=r[2][1],r[2][2],r[1][0]
        if x<1 and not(0<=h<=23 and 0<=m<=59 and 0<=s<60): return 'fraction %r becomes %d:%d:%r'%(x,h,m,s)
        e=abs((F(3600*h+60*m)+F(s))/86400-F(x))
        if e>F(1,10**15): return 'fraction %r becomes %d:%d:%r, off by %.3g day'%(x,h,m,s,float(e))
    def o2(f,i,r):
        x=f[0]
        if not 0<=x<1: return None
        if r[0]=='panic': return 'fraction %r: round trip panics'%x
        if r[2][0]!=0 or not abs(r[1][0]-x)<=1e-15: return 'fraction %r comes back as %r (status %d)'%(x,r[1][0],r[2][0])
    def o3(f,i,r):
        h,m,s=i[0],i[1],f[0]
        if not(0<=h<=24 and 0<=m<=60 and 0<=s<=61): return None
        if r[0]=='panic': return 'to_fraction_of_day panics at %d:%d:%r'%(h,m,s)
        e=abs(F(r[1][0])-(F(3600*h+60*m)+F(s))/86400) if r[1][0]==r[1][0] and abs(r[1][0])<1e300 else 1
        if e>F(1,10**15): return 'time %d:%d:%r has fraction %r, off by %.3g'%(h,m,s,r[1][0],float(e))
    def c1(rng):
        for x in[NAN,INF,-INF,-0.0,0.0,1.0,-5e-324,5e-324,1-2**-53,1+2**-52,2.0,-1.0,1e300,-1e300]: yield dict(f=x)
        for k in range(0,86401,7):
            x=k/86400; yield dict(f=x); yield dict(f=math.nextafter(x,2)); yield dict(f=math.nextafter(x,-1))
        for _ in range(4000): yield dict(f=rfrac(rng))
    def c3(rng):
        for h in range(25):
            for m in list(range(0,61,7))+[59]:
                for s in[0.0,59.999999,rng.uniform(0,61),30.5]: yield dict(h=h,mi=m,s=s)
    ck.target(e1,o1,c1); ck.target(e2,o2,c1); ck.target(e3,o3,c3)
    ck.bounds+=['fraction: every finite double, NaN and infinities as concrete classes','time of day to fraction: hour 0..24, minute 0..60, second any double in [0,61]']
    z=F(1,2**1074)
    for tag,lo,hi in(('f<0',-MAXD,-z),('0<=f<1',0,L),('f=1',1,1),('f>1',1+F(1,2**52),MAXD)):
        R=Relax(dict(f=(lo,hi)),[60,3600,86400],timeout=60000)
        ps=ck.explore(e1,R)
        def cl(k,p,R=R,tag=tag):
            f=R.low(vf); t=R.li(p.out[1][0],64)
            if tag in('f<0','f>1'): return[('refused',R.cmp(t,'==',5))]
            h,m=[R.li(x,64) for x in p.out[1][1:3]]; s=R.low(p.out[0][0])
            out=[('accepted',R.cmp(t,'==')),('value',lambda mm:R.absle((h*3600+m*60+s)/86400-f,F(mm,10**15)))]
            if tag!='f=1': out+=[('hour',AND(R.cmp(h,'>='),R.cmp(h,'<=',23))),('minute',AND(R.cmp(m,'>='),R.cmp(m,'<=',59))),('second',AND(R.cmp(s,'>='),R.cmp(s,'<',60)))]
            return out
        check_paths(ck,e1,R,ps,cl,o1,c1,tag+' ')
        if tag=='0<=f<1':
            ck.validate(e1,ps,[dict(f=rfrac(ck.rng)) for _ in range(200)],oracle=o1)
            R2=Relax(dict(f=(lo,hi)),[60,3600,86400],timeout=60000); ps=ck.explore(e2,R2)
            def cl2(k,p):
                f=R2.low(vf); return[('accepted',R2.cmp(R2.li(p.out[1][0],64),'==')),('round trip',lambda mm:R2.absle(R2.low(p.out[0][0])-f,F(mm,10**15)))]
            check_paths(ck,e2,R2,ps,cl2,o2,c1,'round trip ')
            ck.validate(e2,ps,[dict(f=rfrac(ck.rng)) for _ in range(100)],oracle=o2)
    for x in(NAN,INF,-INF): concrete_class(ck,e1.name,[x],[],lambda p:p.outcome=='ok' and p.out[1][0]==5,o1,c1,'fraction %r is refused'%x,e1)
    R3=Relax(dict(h=(0,24),mi=(0,60),s=(0,61)),timeout=60000); ps=ck.explore(e3,R3)
    def cl3(k,p):
        h,m,s=R3.low(var('h',8)),R3.low(var('mi',8)),R3.low(var('s','f'))
        return[('fraction of a time of day',lambda mm:R3.absle(R3.low(p.out[0][0])-(h*3600+m*60+s)/86400,F(mm,10**15)))]
    check_paths(ck,e3,R3,ps,cl3,o3,c3,'to fraction ')
    ck.validate(e3,ps,list(c3(ck.rng))[:300:3],oracle=o3)
    ck.samples+=['fraction in [0, 1-2^-53]: hour/minute/second ranges and value']

# ============================================================ C06
def C06(ck):
    M=10**9
    en=Entry('h_gdh_from_julian',[var('a','f'),var('b','f')]); e2=Entry('h_gdh_to_julian',[var('s','f')],[var('y',32),var('m',32),var('d',32),var('h',8),var('mi',8)])
    base=inst_oracle('from_julian')
    def oracle(f,i,r):
        a,b=f[:2]; call='GregorianDateHMS::from_julian(%r,%r)'%(a,b)
        if r[0]=='panic': return call+' panics'
        # the plain conversion and the time of its fraction, natively
        q=ck.dev.call('h_cal_from_julian',[a,b])
        if q[0]!='ok': return None
        if q[2][0]!=0: return None if r[2][0]!=0 else call+' succeeds where the plain conversion fails'
        t=ck.dev.call('h_hms_from_fraction',[q[1][0]])
        if t[0]!='ok' or t[2][0]!=0: return None
        if r[2][0]!=0: return call+' fails with status %d where the plain conversion succeeds'%r[2][0]
        y,m,d,h,mi=r[2][1:6]; s=r[1][0]
        if not(0<=h<=23 and 0<=mi<=59 and 0<=s<60): return '%s has time of day %d:%d:%r'%(call,h,mi,s)
        if r[2][1:4]!=q[2][1:4] or (h,mi)!=(t[2][1],t[2][2]) or abs(s-t[1][0])>1e-9:
            return '%s gives %r %r; plain conversion %r, its fraction as time %r %r'%(call,r[2][1:6],s,q[2][1:4],t[2][1:3],t[1][0])
    def o2(f,i,r):
        y,m,d,h,mi=i[:5]; s=f[0]
        if not(valid(y,m,d) and 0<=h<=24 and 0<=mi<=60 and 0<=s<=61): return None
        if r[0]=='panic': return 'GregorianDateHMS to_julian panics at %r %r'%(i,s)
        want=mjd(y,m,d)+float((F(3600*h+60*mi)+F(s))/86400)
        if r[1][0]!=2400000.5 or not abs(r[1][1]-want)<=1e-15+abs(want)*2**-51: return 'date-time %r %r has Julian date (%r,%r), expected (2400000.5,%r)'%(i[:5],s,r[1][0],r[1][1],want)
    def corpus(rng):
        for a,b in jd_corpus(rng): yield dict(a=a,b=b)
    def c2(rng):
        for _ in range(20000):
            y,m,d=rdate(rng,-4799,3000); yield dict(y=y,m=m,d=d,h=rng.randint(0,24),mi=rng.randint(0,60),s=rng.choice([0.0,rng.uniform(0,61),59.9999]))
    ck.target(en,oracle,corpus); ck.target(e2,o2,c2)
    ck.bounds+=['parts: any finite doubles of magnitude <= 1e9','year -4799..2147483647, any time of day with hour 0..24, minute 0..60, second in [0,61]']
    R=Relax(dict(a=(-M,M),b=(-M,M)),[-32000,M,F(1,2),60,3600,86400],timeout=60000)
    ps=ck.explore(en,R)
    # plain conversion and the time of its fraction, over the same inputs
    pc=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_cal_from_julian',en.f,[]),R)
    hv=var('f#','f'); RH=Relax({'f#':(0,1-F(1,2**53))},[60,3600,86400])
    ph=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_hms_from_fraction',[hv],[]),RH)
    def claims(k,p):
        out=[]; known={id(x):v for x,v in p.cond}
        t=R.li(p.out[1][0],64); s=R.low(p.out[0][0]); h,mi=[R.li(x,64) for x in p.out[1][4:6]]
        for j,q in enumerate(pc):
            if q.outcome!='ok' or any(known.get(id(x),v)!=v for x,v in q.cond): continue
            cs=R.conds(q.cond); tq=R.li(q.out[1][0],64); lab='plain path %d: '%j
            if R.iv(tq)[0]!=0:
                out.append((lab+'fails alike',R.cmp(t,'!='),cs)); continue
            g=q.out[0][0]; hm=[p.out[1][4],p.out[1][5],p.out[0][0]]; own=None
            if type(g) is N:
                z=term.substitute(hm+[c for c,_ in p.cond],{g.id:hv})
                only=lambda n: type(n) is not N or all(v.op!='var' or v is hv for v in topo([n]))
                if all(only(n) for n in z[:3]) and any(type(n) is N for n in z[:3]): own=z
            if own:
                # the time depends on the fraction alone: a double in [0,1)
                f=R.low(g); out.append((lab+'succeeds alike, with a fraction in [0,1)',AND(R.cmp(t,'=='),R.cmp(f,'>='),R.cmp(f,'<',1)),cs))
                H,MI,SE=RH.li(own[0],64),RH.li(own[1],64),RH.low(own[2])
                hc=[RH.bool(x) if v else RH.neg(RH.bool(x)) for x,(_,v) in zip(own[3:],p.cond) if type(x) is N and only(x)]
                out.append((lab+'a time below 24 h',AND(RH.cmp(H,'>='),RH.cmp(H,'<=',23),RH.cmp(MI,'>='),RH.cmp(MI,'<=',59),RH.cmp(SE,'>='),RH.cmp(SE,'<',60)),hc,RH))
                for u in ph:
                    if u.outcome!='ok' or RH.iv(RH.li(u.out[1][0],64))[0]!=0: continue
                    out.append((lab+'time of its fraction',AND(RH.cmp(H,'==',RH.li(u.out[1][1],64)),RH.cmp(MI,'==',RH.li(u.out[1][2],64)),RH.absle(SE-RH.low(u.out[0][0]),F(1,10**9))),hc+RH.conds(u.cond),RH))
            else: out.append((lab+'succeeds alike, with a time below 24 h',AND(R.cmp(t,'=='),R.cmp(h,'>='),R.cmp(h,'<=',23),R.cmp(mi,'>='),R.cmp(mi,'<=',59),R.cmp(s,'>='),R.cmp(s,'<',60)),cs))
            out.append((lab+'same date',AND(*[R.cmp(R.li(p.out[1][z],64),'==',R.li(q.out[1][z],64)) for z in(1,2,3)]),cs))
            for u in ph:
                if own or u.outcome!='ok': continue
                # time of the plain fraction: substitute the fraction for the free variable
                uu=term.substitute([u.out[1][0],u.out[1][1],u.out[1][2],u.out[0][0]]+[c for c,_ in u.cond],{hv.id:q.out[0][0]})
                uc=[R.bool(x) if v else R.neg(R.bool(x)) for x,(_,v) in zip(uu[4:],u.cond)]
                if R.iv(R.li(uu[0],64))[0]!=0: continue
                out.append((lab+'time of its fraction',AND(R.cmp(h,'==',R.li(uu[1],64)),R.cmp(mi,'==',R.li(uu[2],64)),R.absle(s-R.low(uu[3]),F(1,10**9))),cs+uc))
        return out
    check_paths(ck,en,R,ps,claims,oracle,corpus)
    envs=[dict(a=a,b=b) for a,b in itertools.islice(jd_corpus(ck.rng),300) if abs(a)<=M and abs(b)<=M]
    ck.validate(en,ps,envs,oracle=oracle)
    R2=Relax(dict(y=(-4799,2**31-1),m=(1,12),d=(1,31),h=(0,24),mi=(0,60),s=(0,61)),timeout=60000)
    ps=ck.explore(e2,R2)
    pj=symex.explore(ck.eng,lambda r: symex.call_entry(r,'h_cal_to_julian',[],e2.i[:3]),R2)
    def cl2(k,p):
        out=[]
        h,m,s=R2.low(var('h',8)),R2.low(var('mi',8)),R2.low(var('s','f'))
        for j,q in enumerate(pj):
            if q.outcome!='ok': continue
            n=R2.low(q.out[0][1]); S=n+(h*3600+m*60+s)/86400
            out.append(('first part is the date\'s (plain path %d)'%j,R2.cmp(R2.low(p.out[0][0]),'==',R2.low(q.out[0][0])),R2.conds(q.cond)))
            out.append(('second part is the date\'s plus the fraction (plain path %d)'%j,lambda mm,n=n,S=S: OR(AND(R2.cmp(n,'>='),R2.absle(R2.low(p.out[0][1])-S,(n+2)*(F(mm)*F(2)**-52))),AND(R2.cmp(n,'<'),R2.absle(R2.low(p.out[0][1])-S,(2-n)*(F(mm)*F(2)**-52)))),R2.conds(q.cond)))
        return out
    check_paths(ck,e2,R2,ps,cl2,o2,c2,'to Julian ')
    ck.validate(e2,ps,list(itertools.islice(c2(ck.rng),200)),oracle=o2)
    ck.samples+=envs[:3]
