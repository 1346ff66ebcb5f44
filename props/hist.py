"""Independence of results from earlier calls."""
import math, itertools, json, os, time
import z3
from vt import symex, term, build, relax
from vt.term import var, N, topo
from vt.ll import Unsupported
from vt.check import Verdict, feq, ROOT
from vt.polycheck import IvFeas, CmpFeas
from . import sun

# entries and the kinds of their arguments: D date parts, i day number etc. (native histories only)
ENT={}
def E(name,f='',i='',**k): ENT[name]=(f,i,k)
for s in '''h_cal_new :ymd|h_cal_to_julian :ymd|h_cal_from_julian D|h_cal_roundtrip x:ymd|h_hms_from_fraction x|h_hms_roundtrip x|h_hms_to_fraction s:HM
h_hms_new s:HM|h_gdh_from_julian D|h_gdh_to_julian s:ymdHM|h_delta_at x:ymd|h_tt_from_ut1 Ds|h_tai_from_utc Ds|h_tt_from_tai D|h_tdb_from_tt Ds|h_ut1_from_tt Ds
h_ut1_tt_ut1 Ds|h_totals D|h_anp a|h_era D|h_vec_ops vvs|h_vec_norm v|h_vec_normalize v|h_vec_angle vv|h_mat_apply mv|h_mat_compose mm|h_mat_transpose m|h_mat_const
h_mat_rotation a:r|h_frame_bias|h_precession_rate D|h_mean_obliquity D|h_bias_precession D|h_nutation D|h_nutation_matrix aaa|h_precession_nutation D|h_pn_dpsi Dtt
h_c2i D|h_c2i_bpn Dm|h_c2i_xy Dtt|h_c2i_xys ttt|h_xy_from_bpn m|h_c2t_cio mam|h_c2t DDtt|h_polar_motion ttt|h_cio Dtt|h_fundargs T|h_epv D|h_ell_new e|h_gd2gc gee
h_zenith g|h_gc2gd Pe|h_gd_gc_gd ge|h_deg_to_rad d|h_rad_to_deg g|h_sun slLhs:ymdHM'''.replace('\n','|').split('|'):
    n,_,r=s.strip().partition(' '); f,_,i=r.partition(':'); ENT[n]=(f.replace('gee','ge'),i)
def gen(name,rng,like=None):
    """arguments of an entry; like: arguments of an earlier call to stay close to"""
    f,i=ENT[name]; u=rng.uniform; F_=[]; I=[]
    def date():
        T=rng.choice([u(-40000,40000),u(-1e6,1e6),u(-2e6,3e6),float(rng.randint(-40000,40000))])
        return rng.choice([[2451545.0,T],[2400000.5,T+51544.5],[2451545.0+T,0.0],[T,2451545.0],[math.floor(2451545+T)+0.5,u(-0.5,0.5)]])
    mat=lambda: [(1.0 if k%4==0 else 0.0)+u(-0.1,0.1) for k in range(9)]
    for c in f:
        F_+= date() if c=='D' else [u(0,1)] if c=='x' else [u(0,60)] if c=='s' else [u(-20,20)] if c=='a' else [u(-1e-4,1e-4)] if c=='t' else [u(-1,1)] if c=='T' else \
            [u(-10,10) for _ in range(3)] if c=='v' else mat() if c=='m' else [6378137.0*u(.99,1.01),rng.choice([0.0,u(0,.01)])] if c=='e' else [u(-180,180)] if c=='l' else [u(-90,90)] if c=='L' else \
            [u(-500,9000)] if c=='h' else [u(-3,3),u(-1.5,1.5),u(-500,9000)] if c=='g' else [u(-7e6,7e6) for _ in range(3)] if c=='P' else [u(-180,180),u(-90,90),u(-500,9000)]
    for c in i:
        I.append(rng.choice([rng.randint(1900,2100),rng.randint(1960,2030),rng.randint(-4799,9999)]) if c=='y' else rng.randint(1,12) if c=='m' else rng.randint(1,28) if c=='d' else rng.randint(0,23) if c=='H' else rng.randint(0,59) if c=='M' else rng.randint(0,2))
    if like is not None and rng.random()<.75:
        lf,li=like
        if len(lf)>=2 and f[:1]=='D' or len(lf)==len(F_):
            n=min(len(lf),len(F_))
            if f[:1]=='D' and n>2 and f[:2]!='DD': n=2
            F_[:n]=lf[:n]
            for _ in range(rng.randrange(3)):
                k=rng.randrange(len(F_)) if F_ else 0
                if F_: F_[k]=rng.choice([math.nextafter(F_[k],math.inf),F_[k]+10.0**rng.uniform(-9,0),F_[k]*(1+10.0**rng.uniform(-12,-2)),-F_[k],F_[k]+1.0,u(-1,1)*abs(F_[k])])
        if len(li)==len(I): I=list(li)
    return F_,I
def agree(a,b):
    if a[0]!=b[0]: return False
    return a[0]=='panic' or all(map(feq,a[1],b[1])) and a[2]==b[2]
def fresh(prof,c):
    n=build.Native(prof)
    try: return n.call(*c)
    finally: n.close()
def show(r): return 'panics' if r[0]=='panic' else repr([x for x in r[1]][:next((k for k in range(len(r[1]),0,-1) if r[1][k-1]!=0.0),1)][:12])+' '+repr(r[2][:6])
def hunt(ck,names,n=1500,length=4,prof='rel',pairs=None):
    """histories of calls in one process against first calls in fresh processes"""
    for _ in range(n):
        if pairs: seq=list(ck.rng.choice(pairs))
        else: seq=[ck.rng.choice(names) for _ in range(ck.rng.randint(2,length))]
        h=[]; 
        for k,x in enumerate(seq): h.append((x,)+gen(x,ck.rng,h[ck.rng.randrange(k)][1:] if k else None))
        d=build.Native(prof)
        try: rs=d.batch(h)
        finally: d.close()
        ck.native_evals+=len(h)
        for k in range(1,len(h)):
            if rs[k][0]=='panic' and rs[k-1][0]=='panic': continue
            q=fresh(prof,h[k]); ck.native_evals+=1
            if not agree(q,rs[k]):
                # shortest history
                for j in range(k):
                    d=build.Native(prof); r=d.batch([h[j],h[k]]); d.close()
                    if not agree(q,r[1]): hist=[h[j],h[k]]; bad=r[1]; break
                else: hist=h[:k+1]; bad=rs[k]
                return report(ck,hist,q,bad,prof)
        ck.validated+=1
    return False
def report(ck,hist,want,got,prof):
    d=os.path.join(ROOT,'build','replay'); os.makedirs(d,exist_ok=True); path=os.path.join(d,'%s-%d.json'%(ck.pid,len(ck.violations)+1))
    msg='%s(%r,%r) after %s gives %s, as the first call of a process %s'%(hist[-1][0],hist[-1][1],hist[-1][2],', '.join('%s(%r,%r)'%h for h in hist[:-1]),show(got),show(want))
    json.dump(dict(property=ck.pid,profile=prof,message=msg,claim='history',history=[dict(entry=n,f=['%x'%build.fbits(x) for x in f],f_dec=[repr(x) for x in f],i=i) for n,f,i in hist]),open(path,'w'),indent=1)
    ck.violations.append((path,msg[:1000])); return True

# ------------------------------------------------------------------ equality with uninterpreted arithmetic
D=z3.DeclareSort('double')
class Euf:
    """terms over uninterpreted operations: a difference that survives is one the operations can produce"""
    def __init__(s): s.m={}; s.fs={}; s.ks={}
    def fn(s,o,dom,ran):
        k=(o,tuple(map(str,dom)),str(ran))
        if k not in s.fs: s.fs[k]=z3.Function('%s_%d'%(o,len(s.fs)),*dom,ran) if dom else z3.Const('%s_%d'%(o,len(s.fs)),ran)
        return s.fs[k]
    def sort(s,ty): return D if ty=='f' else z3.BitVecSort(ty)
    def leaf(s,x,ty):
        if type(x) is float:
            k=build.fbits(x)
            if k not in s.ks: s.ks[k]=z3.Const('k%x'%k,D)
            return s.ks[k]
        return z3.BitVecVal(x,ty)
    def __call__(s,n,ty='f'):
        if type(n) is not N: return s.leaf(float(n) if ty=='f' else n,ty)
        for x in topo([n]):
            if x.id in s.m: continue
            if x.op=='var': s.m[x.id]=z3.Const('v_'+x.args[0],s.sort(x.ty)); continue
            tag=x.op; ar=[]
            for a in x.args:
                if type(a) is N: ar.append(s.m[a.id])
                elif type(a) is float: ar.append(s.leaf(a,'f'))
                else: tag+='_%s'%a
            s.m[x.id]=s.fn(tag,[a.sort() for a in ar],s.sort(x.ty))(*ar) if ar else s.fn(tag,[],s.sort(x.ty))
        return s.m[n.id]
    def cond(s,c,b):
        if type(c) is not N: return z3.BoolVal(bool(c)==b)
        v=s(c,1)==(1 if b else 0)
        if c.op=='fcmp' and c.args[0] in('oeq','ueq') and b or c.op=='fcmp' and c.args[0] in('one','une') and not b: v=z3.And(v,s(c.args[1])==s(c.args[2]))
        if c.op=='icmp' and c.args[0] in('eq','ne'): v=z3.And(v,(s(c.args[2],c.args[1])==s(c.args[3],c.args[1]))==(b==(c.args[0]=='eq')))
        return v
def differ(p,q):
    """can two runs of the same call, on these paths, give different results?"""
    t0=time.time(); S=relax.STATS; e=Euf(); s=z3.Solver(); s.set('timeout',20000)
    for c,b in {(c.id if type(c) is N else c,b):(c,b) for c,b in p.cond+q.cond}.values(): s.add(e.cond(c,b))
    if len(e.ks)>1: s.add(z3.Distinct(*e.ks.values()))
    ds=[z3.BoolVal(p.outcome!=q.outcome)]
    if p.outcome==q.outcome=='ok':
        for k,ty in((0,'f'),(1,64)):
            for a,b in zip(p.out[k],q.out[k]):
                if type(a) is N and a is b: a=b=var('same','f' if ty=='f' else ty)
                if type(a) is not N and type(b) is not N and (feq(a,b) if ty=='f' else a==b): continue
                ds.append(e(a,ty)!=e(b,ty))
    s.add(z3.Or(*ds)); r=str(s.check())
    S.queries+=1; S.time+=time.time()-t0; setattr(S,r,getattr(S,r)+1)
    return r

def args(tag=''): return [var('f%d%s'%(k,tag),'f') for k in range(40)],[var('i%d%s'%(k,tag),32) for k in range(8)]
def variants(name,tag=''):
    """symbolic arguments; small integers that index tables are enumerated"""
    f,i=args(tag)
    if name=='h_cal_new': return [(f,[i[0],m,i[2]]+i[3:],None) for m in range(-1,15)]
    if name=='h_mat_rotation': return [(f,[k]+i[1:],None) for k in range(-1,5)]
    if name=='h_sun':
        en=sun.entry(); ren=lambda x: var(x.args[0]+tag,x.ty)
        def st(ctx):
            sun.setup(2017,2030)(ctx)
            if tag:
                for d in(ctx.inp,ctx.iin):
                    for k in list(d): d[k+tag]=d.pop(k)
        return [([ren(x) for x in en.f],[ren(x) for x in en.i],IvFeas(st))]
    return [(f,i,CmpFeas())]
def copyobj(o):
    c=symex.Obj(o.size,o.name); c.data=bytearray(o.data); c.cells=dict(o.cells); return c
def states(ck,name):
    """what a call with arbitrary arguments leaves behind, once per distinct contents of the mutable globals; the
    branches the call took are forgotten, which only adds behaviours"""
    seen=set(); out=[]
    for f,i,fe in variants(name,'#'):
        def make(r):
            symex.call_entry(r,name,f,i)
            k=tuple(sorted((o.name,bytes(o.data),tuple(sorted((n,x.id if type(x) is N else repr(x)) if not isinstance(x,tuple) else (n,repr([y.id if type(y) is N else y for y in x])) for n,x in o.cells.items()))) for o in r.objs.values() if o.name is not None and not o.ro))
            if not r.heap:
                if k in seen: return
                seen.add(k)
            out.append(({n:copyobj(o) for n,o in r.objs.items() if not o.ro and (r.heap or o.name is not None)},r.nobj))
        ps=symex.explore(ck.eng,make,fe,max_paths=3000)
        ck.paths+=len(ps); ck.transitions+=sum(p.steps for p in ps)
    return out
def restore(r,st):
    for n,o in st[0].items(): r.objs[n]=copyobj(o)
    r.nobj=max(r.nobj,st[1])
class Unified: pass
def unify(p):
    """arguments that a branch found equal to something -> replacements"""
    sub={}
    for c,b in p.cond:
        if type(c) is N and c.op=='fcmp' and (c.args[0]=='oeq' and b or c.args[0]=='une' and not b):
            x,y=c.args[1:]
            if type(y) is N and y.op=='var' and y.args[0].endswith('#') or type(x) is not N: x,y=y,x
            for x,y in((x,y),(y,x)):
                if type(x) is not N or x.op!='var' or x.id in sub or x is y: continue
                y=term.substitute([y],sub)[0] if type(y) is N else y
                if type(y) is N and x.id in {z.id for z in topo([y])}: continue
                one={x.id:y}
                for k in sub: 
                    if type(sub[k]) is N: sub[k]=term.substitute([sub[k]],one)[0]
                sub[x.id]=y; break
    return sub
def replaced(p,sub):
    if not sub: return p
    q=Unified(); q.outcome=p.outcome
    roots=[c for c,_ in p.cond]; fl=[] if p.outcome!='ok' else p.out[0]+p.out[1]
    al=[t for t in roots+fl if type(t) is N]; m=dict(zip([t.id for t in al],term.substitute(al,sub)))
    g=lambda t: m.get(t.id,t) if type(t) is N else t
    q.cond=[]
    for c,b in p.cond:
        d=g(c)
        if type(d) is not N:
            if bool(d)!=b: return None
            continue
        if d.op=='fcmp' and d.args[1] is d.args[2]: continue
        if any(e is d and v!=b for e,v in q.cond): return None
        q.cond.append((d,b))
    q.out=p.out if p.outcome!='ok' else ([g(t) for t in p.out[0]],[g(t) for t in p.out[1]])
    return q
def single(ck,name):
    out=[]
    for f,i,fe in variants(name):
        ps=symex.explore(ck.eng,lambda r: symex.call_entry(r,name,f,i),fe,max_paths=3000)
        ck.paths+=len(ps); ck.transitions+=sum(p.steps for p in ps); out+=ps
    return out
GL={'reads':{},'writes':{}}
def X01(ck):
    ck.bounds.append('every entry on arbitrary arguments, not-a-number and infinities included (integer arguments 32 bits; Sun angle calculator: dates 2017-2030 and the ranges of S01); '
        'where a call touches state that outlives it, histories of two calls')
    ck.assumptions+=['state that outlives a call lives in mutable or thread-local globals (and what they point to); the public functions take no mutable references and no allocator state',
        'counters of the standard library for panics are not part of a result']
    names=list(ENT)
    ck.fallback=lambda: hunt(ck,names)
    def alone(name):
        def run():
            try: ps=single(ck,name)
            except Unsupported as x: raise Unsupported('%s: %s'%(name,x))
            rd=set().union(*[p.reads|p.writes for p in ps]); wr=set().union(*[p.writes for p in ps])
            out=[]
            if rd: return [Verdict('%s: touches state'%name,'state',note=json.dumps([sorted(rd),sorted(wr)]))]
            # nothing but the arguments: a second run of the same call, whatever ran before it
            f,i,fe=variants(name)[-1]
            ps=ps if len(ps)<400 else ps[:400]
            for k,p in enumerate(ps):
                free={x.args[0] for x in topo([t for t in (p.out[0]+p.out[1] if p.outcome=='ok' else [])+[c for c,_ in p.cond] if type(t) is N]) if x.op=='var'}
                bad=[v for v in free if v not in{x.args[0] for va in variants(name) for x in va[0]+va[1] if type(x) is N}]
                r=differ(p,p)
                if bad: r='unknown'
                out.append(Verdict('%s path %d: reads no state of the process and writes none, two runs cannot differ'%(name,k),r))
            return out
        return run
    vs=ck.run([(n,alone(n)) for n in sorted(names,key=lambda n: n not in('h_sun','h_c2t','h_delta_at'))])
    tch={v.label.split(':')[0]:json.loads(v.note) for v in vs if v.res=='state'}
    ck.claims=[c for c in ck.claims if c[1]!='state']
    if tch:
        wr=set().union(*[set(w) for _,w in tch.values()])
        prs=[(a,b) for a in tch for b in tch if set(tch[a][1])&set(tch[b][0])&wr]
        if hunt(ck,names,n=400,pairs=prs or None): return
        def pair(a,b):
            def run():
                out=[]
                for st in states(ck,a):
                    for fb,ib,eb in variants(b):
                        ref=symex.explore(ck.eng,lambda r: symex.call_entry(r,b,fb,ib),eb,max_paths=3000)
                        def after(r): restore(r,st); return symex.call_entry(r,b,fb,ib)
                        ps=symex.explore(ck.eng,after,eb,max_paths=20000)
                        ck.paths+=len(ps); ck.transitions+=sum(p.steps for p in ps)
                        for p in ps:
                            k={c.id:v for c,v in p.cond}
                            qs=[q for q in ref if not any(k.get(c.id,v)!=v for c,v in q.cond)]
                            sub=unify(p); p=replaced(p,sub)
                            if p is None: continue
                            k={c.id:v for c,v in p.cond}
                            for q in qs:
                                q=replaced(q,sub)
                                if q is None or any(k.get(c.id,v)!=v for c,v in q.cond): continue
                                out.append(Verdict('%s after %s'%(b,a),differ(p,q)))
                                if out[-1].res!='unsat': return out
                return out
            return run
        prs=prs or [(a,a) for a in tch]
        order=sorted(prs,key=lambda p: len(p[0])+len(p[1]))
        vs2=ck.run([('%s after %s'%(b,a),pair(a,b)) for a,b in order])
        bad=[v for v in vs2 if v.res!='unsat']
        if bad and not hunt(ck,names,n=3000,pairs=prs): ck.inconclusive.append('%s: solver answered %s and no history was found'%(bad[0].label,bad[0].res))
    else: hunt(ck,names,n=40,length=8)
