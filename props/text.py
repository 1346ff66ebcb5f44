"""N01: displayed text reads back as the values (core::fmt modelled by vt/fmt.py)."""
import math, re, random, itertools
from fractions import Fraction as F
from vt import term, relax, fmt
from vt.term import var, N
from vt.relax import Relax, AND, OR, TRUE, FALSE, LF
from vt.check import Entry, Verdict, prove
from vt.polycheck import angle
from props.cal import valid, mlen, rdate, zmlen
from props.scale import TP

class Fld:
    """expected number: name, value(R) -> LF (or a function of the shown LF -> claim), decimals (None: integer),
    width (exact zero padded width), plus, free (width not prescribed, at least `dec` decimals)"""
    def __init__(s,name,val,dec=None,width=0,plus=False,free=False,tol=0,claim=None,rng=None):
        s.name=name; s.val=val; s.dec=dec; s.width=width; s.plus=plus; s.free=free; s.tol=F(tol); s.claim=claim; s.rng=rng

def match(pieces,spec,squash):
    """align text pieces with the layout; list of (Fld,Num) or a reason"""
    toks=[]
    for p in pieces:
        if isinstance(p,str): toks+=list(p)
        else: toks.append(p)
    want=[]
    for s in spec:
        if isinstance(s,str): want+=list(s)
        else: want.append(s)
    sp=lambda x: x==' '
    i=j=0; out=[]
    while True:
        if squash:
            while i<len(toks) and sp(toks[i]): i+=1
            while j<len(want) and sp(want[j]): j+=1
        if i>=len(toks) or j>=len(want): break
        a,b=toks[i],want[j]
        if isinstance(b,str) or isinstance(a,str):
            if a!=b: return 'text %r where the layout has %r'%(a if isinstance(a,str) else a,b if isinstance(b,str) else b.name)
        else: out.append((b,a))
        i+=1; j+=1
    if i<len(toks) or j<len(want): return 'text and layout have different lengths'
    return out

def shape(f,n):
    """is the printed form the prescribed one (value ranges are separate claims)?"""
    if f.dec is None:
        if n.kind!='i': return 'not an integer'
        if f.free: return None
        if not n.o.zeropad(): return 'not zero padded'
        if n.o.width!=f.width: return 'width %d'%n.o.width
        if n.o.plus!=f.plus: return 'sign'
        return None
    if n.kind!='f': return 'not a double'
    if n.o.prec is None or n.o.prec<f.dec or n.o.prec>f.dec and not f.free: return 'decimals %r'%n.o.prec
    if f.free:
        if not(n.o.width==0 or n.o.fill==' ' or n.o.zeropad()): return 'padding %r'%n.o.fill
        return None
    if not n.o.zeropad(): return 'not zero padded'
    if n.o.width!=f.width: return 'width %d'%n.o.width
    if n.o.plus!=f.plus: return 'sign'

def claims_for(R,tag,pieces,spec,cs,squash=False):
    m=match(pieces,spec,squash)
    if isinstance(m,str): return [Verdict('%s: layout'%tag,'sat',note=m)]
    out=[prove(R,'%s: layout'%tag,cs,TRUE)]
    for f,n in m:
        lab='%s: %s'%(tag,f.name)
        bad=shape(f,n)
        if bad: out.append(Verdict(lab+' is shown in its layout','sat',note=bad)); continue
        v=R.li(n.v,n.w) if n.kind=='i' and n.sg else R.lu(n.v,n.w) if n.kind=='i' else R.low(n.v) if type(n.v) is N else LF(F(n.v))
        if f.claim: out+=[prove(R,lab+l,cs+list(x),c) for l,c,x in f.claim(R,v)]
        else:
            e=f.val(R)
            out.append(prove(R,lab+' is the value',cs,R.absle(v-e,f.tol) if f.tol else R.cmp(v,'==',e)))
        if not f.free and f.rng:
            lo,hi=f.rng
            out.append(prove(R,lab+' fits its columns',cs,AND(R.cmp(v,'>=',lo),R.cmp(v,'<=',hi))))
        # the sign-aware flag is needed where the value may be negative
        if not f.free and not n.o.zero: out.append(prove(R,lab+' is not negative (padding before a sign)',cs,R.cmp(v,'>=')))
    return out

S60=F('59.9999995')
def second(s='s'):
    def cl(R,v):
        x=R.low(var(s,'f'))
        return [(' below 59.9999995 is the value',OR(R.absle(v-x,F(1,10**9)),AND(R.absle(v-F('59.999999'),F(1,10**10)),R.cmp(x,'>=',F('59.9999985')))),[R.cmp(x,'<',S60)]),
                (' is never shown as 60',R.cmp(v,'<',S60),[R.cmp(x,'<',60)]),
                (' just below 60 is shown within one microsecond',R.absle(v-x,F(1,10**6)),[R.cmp(x,'>=',S60),R.cmp(x,'<',60)]),
                (' of a leap second is the value',R.absle(v-x,F(1,10**9)),[R.cmp(x,'>=',60)])]
    return Fld('second',None,6,9,claim=cl,rng=(0,F('99.9999994')))
def I(name,v,width,rng=None): return Fld(name,lambda R:R.low(v),None,width,rng=rng)
Y,M,D,H,MI=[var(x,32) for x in'ymdhn']
DATE=[I('year',Y,4),'-',I('month',M,2,(0,99)),'-',I('day',D,2,(0,99))]
TIME=[I('hour',H,2,(0,99)),':',I('minute',MI,2,(0,99)),':',second()]
def POS(lat,lon,h): return [Fld('latitude',lat,6,10,True,claim=getattr(lat,'claim',None),rng=(-99,99)),',',Fld('longitude',lon,6,11,True,claim=getattr(lon,'claim',None),rng=(-999,999)),',',Fld('height',h,2,9,True)]
LOW=lambda v:(lambda R:R.low(v))

# ---------------------------------------------------------------- reading text back
RD=re.compile(r'^(-?)(\d+)-(\d\d)-(\d\d)$'); RT=re.compile(r'^(\d\d):(\d\d):(\d\d\.\d{6})$')
def read_date(t):
    m=RD.match(t)
    if not m or len(m[1]+m[2])<4: return None
    return int(m[1]+m[2]),int(m[3]),int(m[4])
def bad_date(t,i):
    r=read_date(t)
    return None if r==tuple(i[:3]) else 'date %r is displayed as %r'%(tuple(i[:3]),t)
def bad_time(t,i,s):
    m=RT.match(t)
    if not m: return 'time %r is displayed as %r'%((i[3],i[4],s),t)
    x=F(m[3])
    if (int(m[1]),int(m[2]))!=(i[3],i[4]): return 'time %r is displayed as %r'%((i[3],i[4],s),t)
    if s<60 and x>=60: return 'time %r is displayed with 60 seconds: %r'%((i[3],i[4],s),t)
    if abs(x-F(s))>(F(501,10**9) if not S60<=F(s)<60 else F(1001,10**9)): return 'second %r is displayed as %r'%(s,m[3])
RP=re.compile(r'^([+-]\d\d\.\d{6}),([+-]\d\d\d\.\d{6}),([+-]\d{5,}\.\d\d)$')
def bad_pos(t,lat,lon,h,tol=F(0),mod=False):
    m=RP.match(t)
    if not m: return 'position lat %r lon %r height %r is displayed as %r'%(float(lat),float(lon),h,t)
    a,b,c=[F(x) for x in m.groups()]
    d=b-F(lon)
    if mod: d-=360*round(d/360)
    half=F(1,2*10**6)+tol
    if abs(a-F(lat))>half or abs(d)>half or abs(c-F(h))>F(1,200)+abs(F(h))*F(1,10**15): return 'position lat %r lon %r height %r is displayed as %r'%(float(lat),float(lon),h,t)
def text(r): return r[3] if len(r)>3 else ''

def secs(rng): return rng.choice([0.0,59.9999996,59.99999949,59.9999995,math.nextafter(60,0),59.999,60.0,60.5,rng.uniform(0,60),rng.uniform(0,60),rng.randint(0,59)*1.0,rng.random()*1e-6,1e-7,5e-7,9.9999999])

def N01(ck):
    quick=ck.quick
    idom=dict(y=(-4799,2700000),m=(1,12),d=(1,31),h=(0,23),n=(0,59),s=(0,F(61)))
    vi=[Y,M,D,H,MI]
    # ---- date, time, date with time
    def od(f,i,r):
        if not valid(*i[:3]): return None
        if r[0]=='panic': return 'displaying %r panics'%(i[:3],)
        return bad_date(text(r),i)
    def ot(f,i,r):
        if not(0<=i[3]<24 and 0<=i[4]<60 and 0<=f[0]<61): return None
        if r[0]=='panic': return 'displaying %r panics'%((i[3:5],f[0]),)
        return bad_time(text(r),i,f[0])
    def odt(f,i,r):
        if not(valid(*i[:3]) and 0<=i[3]<24 and 0<=i[4]<60 and 0<=f[0]<61): return None
        if r[0]=='panic': return 'displaying %r panics'%((i[:5],f[0]),)
        w=text(r).split(' ')
        if len(w)!=2: return 'date and time %r are displayed as %r'%((i[:5],f[0]),text(r))
        return bad_date(w[0],i) or bad_time(w[1],i,f[0])
    def cd(rng):
        for _ in range(3000):
            y,m,d=rdate(rng,-4799,rng.choice([3000,100000])); yield dict(y=y,m=m,d=d,h=rng.choice([0,23,9,10,rng.randint(0,23)]),n=rng.choice([0,59,9,10,rng.randint(0,59)]),s=secs(rng))
    zero=[0,0,0]
    E=[(Entry('t_date',[],[Y,M,D]),DATE,od),(Entry('t_hms',[var('s','f')],zero+[H,MI]),TIME,ot),(Entry('t_datehms',[var('s','f')],vi),DATE+[' ']+TIME,odt)]
    ck.bounds+=['years -4799..2700000, any month, day, hour, minute; seconds in [0,61)','positions: latitude and longitude in degrees within [-90,90] and [-360,360], radians within a quarter turn and 100 rad; heights up to 1e8 m in magnitude']
    for en,spec,orc in E:
        ck.target(en,orc,cd)
        R=Relax({k:v for k,v in idom.items()},[0,60]); ps=ck.explore(en,R)
        tasks=[]
        for k,p in enumerate(ps):
            def run(k=k,p=p,en=en,spec=spec):
                cs=R.conds(p.cond); s=[] if en.name=='t_date' else [R.cmp(R.low(var('s','f')),'<',61)]
                if p.outcome=='panic': return [prove(R,'%s path %d cannot panic'%(en.name,k),cs,FALSE)]
                out=claims_for(R,'%s path %d'%(en.name,k),p.text,spec,cs+s)
                out.append(prove(R,'%s path %d reports success'%(en.name,k),cs,R.cmp(R.li(p.out[1][0],64),'==')))
                return out
            tasks.append((en.name,run))
        ck.settle(en,ck.run(tasks),orc,cd)
        ck.validate(en,ps,list(itertools.islice(cd(ck.rng),150)),oracle=orc)
    # ---- positions
    lo,la,hh=[var(x,'f') for x in('x','z','k')]
    def o360(f,i,r):
        lon,lat,h=f[:3]
        if not(abs(lon)<=360 and abs(lat)<=90 and abs(h)<=1e8): return None
        if r[0]=='panic': return 'displaying position %r panics'%(f[:3],)
        return bad_pos(text(r),F(lat),F(lon),h)
    def orad(f,i,r):
        el,ph,h=f[:3]
        if not(abs(el)<=100 and abs(ph)<=math.pi/2 and abs(h)<=1e8): return None
        if r[0]=='panic': return 'displaying position %r panics'%(f[:3],)
        return bad_pos(text(r),F(ph)/DEG,F(el)/DEG,h,F(1,10**9),True)
    DEG=TP/360
    def c360(rng):
        for _ in range(2000): yield dict(x=rng.choice([rng.uniform(-180,180),0.0,-0.0,180.0,-180.0,359.9999999,-1e-9,9.9999996]),z=rng.choice([rng.uniform(-90,90),90.0,-90.0,0.0,-1e-9,-5.5,9.99999999]),k=rng.choice([rng.uniform(-500,9000),0.0,-0.001,-12.345,1e8,99999.999]))
    def crad(rng):
        for _ in range(2000): yield dict(x=angle(rng,100),z=rng.choice([rng.uniform(-1.57,1.57),angle(rng,math.pi/2)]),k=rng.choice([rng.uniform(-500,9000),0.0,-0.001,-12.345]))
    # congruence and range of the converted angles
    def clat(R,v): return [(' is the latitude in degrees',R.absle(v-R.low(la)/DEG,F(1,10**9)),[])]
    def clon(R,v):
        t=(v-R.low(lo)/DEG)/360; kk=R.floordiv(t+F(1,2),F(1))
        return [(' is the longitude in degrees modulo 360',R.absle(t-kk,F(1,360*10**9)),[]),(' is within half a turn',R.absle(v,180),[])]
    glat=lambda R:None; glat.claim=clat
    glon=lambda R:None; glon.claim=clon
    D90=F(float(math.pi/2)); W8=F(10)**8
    for en,spec,orc,corp,dom in((Entry('t_geodetic360',[lo,la,hh]),POS(LOW(la),LOW(lo),LOW(hh)),o360,c360,dict(x=(-360,360),z=(-90,90),k=(-W8,W8))),
                                (Entry('t_geodetic',[lo,la,hh]),POS(glat,glon,LOW(hh)),orad,crad,dict(x=(-100,100),z=(-D90,D90),k=(-W8,W8)))):
        ck.target(en,orc,corp)
        R=Relax(dom,[360,-360,180,-180,90,-90,F(1,2)],timeout=60000); ps=ck.explore(en,R)
        tasks=[]
        for k,p in enumerate(ps):
            def run(k=k,p=p,en=en,spec=spec):
                cs=R.conds(p.cond)
                if p.outcome=='panic': return [prove(R,'%s path %d cannot panic'%(en.name,k),cs,FALSE)]
                return claims_for(R,'%s path %d'%(en.name,k),p.text,spec,cs)
            tasks.append((en.name,run))
        ck.settle(en,ck.run(tasks),orc,corp)
        ck.validate(en,ps,list(itertools.islice(corp(ck.rng),150)),oracle=orc)
    report(ck)
    ck.assumptions.append('core::fmt prints integers and doubles with the given sign, padding and number of decimals, correctly rounded (model in vt/fmt.py, compared with the native text on every validated input)')
    ck.samples+=['2000-01-02 03:04:05.000000','+23.456789,-111.111111,+12345.67']

# ---------------------------------------------------------------- the Sun angle report
def report(ck):
    f=[var('s','f'),var('x','f'),var('z','f'),var('k','f')]+[var('f%d'%k,'f') for k in range(4,27)]
    en=Entry('t_sun',f,[Y,M,D,H,MI])
    A=F(4)*10**6
    dom=dict(y=(-4799,99999),m=(1,12),d=(1,31),h=(0,23),n=(0,59),s=(0,F('59.9999994')),x=(-360,360),z=(-90,90),k=(-10**8,10**8))
    big={7:10**8,8:10**8,9:10**8,20:2,21:2,22:2,23:10**12,24:10**12,25:10**12,6:10**9,12:10**3}
    for k in range(4,27): dom['f%d'%k]=(-big.get(k,A),big.get(k,A))
    dom['f19']=(0,7); dom['f26']=(0,F(22,7))
    DEG=TP/360
    def fr(name,k,dec,tol=0): return Fld(name,LOW(f[k]),dec,free=True,tol=tol)
    def tot(name,a,b): return Fld(name,lambda R:R.low(f[a])+R.low(f[b]),6,free=True,tol=F(1,10**8))
    T9=F(1,10**9)
    spec=['Date: ']+DATE+['\nTime: ']+TIME+[' ',fr('offset',6,6),'s\nJulian date: ',tot('Julian date',4,5),' = ',fr('first part',4,6),' + ',fr('second part',5,6),
      '\nPosition: ']+POS(LOW(f[2]),LOW(f[1]),LOW(f[3]))+['\n X= ',fr('x',7,1),' Y= ',fr('y',8,1),' Z= ',fr('z',9,1),
      '\nUTC: ',tot('UTC',10,11),'\nDelta AT: ',fr('Delta AT',12,6),'\nTAI: ',tot('TAI',13,14),'\nTT: ',tot('TT',15,16),'\nUT1: ',tot('UT1',17,18),
      '\nERA: ',Fld('ERA',lambda R:R.low(f[19])/DEG,6,free=True,tol=T9),'°\nEarth position (AU): X=',fr('Earth x',20,13),' Y=',fr('Earth y',21,13),' Z=',fr('Earth z',22,13),
      '\nSun position (m): X=',fr('Sun x',23,0),' Y=',fr('Sun y',24,0),' Z=',fr('Sun z',25,0),
      '\nSun Zenith angle: ',Fld('zenith angle',lambda R:R.low(f[26])/DEG,2,free=True,tol=T9),'° or elevation: ',Fld('elevation',lambda R:90-R.low(f[26])/DEG,2,free=True,tol=T9),'°\n']
    num=r'\s*([+-]?\d+(?:\.\d+)?)'
    def pat():
        out=''; k=0
        for s in spec:
            if isinstance(s,str): out+=r'\s*'.join(re.escape(w) for w in re.split(r' +',s))
            else: out+=num
        return re.compile('^'+out+'$')
    PAT=pat()
    def oracle(v,i,r):
        if not(valid(*i[:3]) and 0<=i[3]<24 and 0<=i[4]<60 and 0<=v[0]<F('59.9999994') and abs(v[1])<=360 and abs(v[2])<=90): return None
        for k in range(3,27):
            if not abs(v[k])<=(dom['f%d'%k][1] if k>3 else 10**8): return None
        if r[0]=='panic': return 'the report of %r panics'%(v,)
        t=text(r); L=t.split('\n')
        if len(L)!=15: return 'the report has %d lines:\n%s'%(len(L),t)
        w=[x.split(':',1)[1].strip() if ':' in x else x.strip() for x in L[:14]]
        e=bad_date(w[0],i) or bad_time(w[1].split(' ')[0],i,v[0]) or bad_pos(w[3],F(v[2]),F(v[1]),v[3])
        if e: return 'report: '+e
        m=PAT.match(t)
        if not m: return 'the report does not follow its layout:\n'+t
        q=m.groups(); n=-1
        for s in spec:
            if isinstance(s,str): continue
            n+=1
            if s.name in('year','month','day','hour','minute','second','latitude','longitude','height'): continue
            ex=EXP[s.name](v); half=F(1,2*10**s.dec)
            if abs(F(q[n])-ex)>half+F(2,10**8)*(s.tol>0): return 'report: %s is %r, displayed %s'%(s.name,float(ex),q[n])
            if len(q[n].partition('.')[2])<s.dec: return 'report: %s is displayed as %s'%(s.name,q[n])
    EXP={'offset':lambda v:F(v[6]),'Julian date':lambda v:F(v[4])+F(v[5]),'first part':lambda v:F(v[4]),'second part':lambda v:F(v[5]),'x':lambda v:F(v[7]),'y':lambda v:F(v[8]),'z':lambda v:F(v[9]),
      'UTC':lambda v:F(v[10])+F(v[11]),'Delta AT':lambda v:F(v[12]),'TAI':lambda v:F(v[13])+F(v[14]),'TT':lambda v:F(v[15])+F(v[16]),'UT1':lambda v:F(v[17])+F(v[18]),'ERA':lambda v:F(v[19])/DEG,
      'Earth x':lambda v:F(v[20]),'Earth y':lambda v:F(v[21]),'Earth z':lambda v:F(v[22]),'Sun x':lambda v:F(v[23]),'Sun y':lambda v:F(v[24]),'Sun z':lambda v:F(v[25]),
      'zenith angle':lambda v:F(v[26])/DEG,'elevation':lambda v:90-F(v[26])/DEG}
    def corpus(rng):
        for _ in range(600):
            y,m,d=rdate(rng); e=dict(y=y,m=m,d=d,h=rng.randint(0,23),n=rng.randint(0,59),s=rng.uniform(0,59),x=rng.uniform(-180,180),z=rng.uniform(-90,90),k=rng.uniform(-100,9000))
            for k in range(4,27):
                lo,hi=dom['f%d'%k]; e['f%d'%k]=rng.choice([rng.uniform(float(lo),float(hi)),float(rng.randint(int(lo),int(hi))),0.0 if k!=19 else 1.0,rng.uniform(max(float(lo),-1),1)])
            yield e
    ck.target(en,oracle,corpus)
    R=Relax(dom); ps=ck.explore(en,R); tasks=[]
    for k,p in enumerate(ps):
        def run(k=k,p=p):
            cs=R.conds(p.cond)
            if p.outcome=='panic': return [prove(R,'report path %d cannot panic'%k,cs,FALSE)]
            return claims_for(R,'report path %d'%k,p.text,spec,cs,True)
        tasks.append(('report %d'%k,run))
    ck.settle(en,ck.run(tasks),oracle,corpus)
    ck.validate(en,ps,list(itertools.islice(corpus(ck.rng),60)),oracle=oracle)
    ck.bounds.append('report: years -4799..99999, seconds below 59.9999994, date parts to 4e6 days, coordinates to 1e8 m and 1e12 m (Sun)')
