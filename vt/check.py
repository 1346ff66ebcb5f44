"""Common part of all checks: build, explore, discharge, reproduce, report."""
import os, sys, json, time, random, struct, math, traceback, itertools, subprocess, tempfile
import multiprocessing as mp
from fractions import Fraction as F
from . import build, symex, term, relax, ll, fmt, guide
from .term import N, var
from .ll import Unsupported

ROOT=build.ROOT
NPROC=min(8,os.cpu_count() or 1)

class Verdict:
    """picklable result of one claim"""
    def __init__(self,label,res,inputs=None,note='',cands=None):
        self.label=label; self.res=res; self.inputs=inputs; self.note=note; self.cands=cands or []

def feq(a,b):
    return a==b and (a!=0 or math.copysign(1,a)==math.copysign(1,b)) or (a!=a and b!=b)

def near(x,k=2):
    """double nearest to a rational and its neighbours"""
    try: d=float(x)
    except OverflowError: d=math.copysign(1.7976931348623157e308,x)
    out=[d]; u=v=d
    for _ in range(k):
        u=math.nextafter(u,math.inf); v=math.nextafter(v,-math.inf); out+=[u,v]
    return out

class Entry:
    """a harness entry with symbolic inputs: f/i lists of term vars or concrete values"""
    def __init__(self,name,f=(),i=()):
        self.name=name; self.f=list(f); self.i=list(i)
    def bind(self,env):
        g=lambda a,d: env[a.args[0]] if type(a) is N else a
        return [float(g(a,0.0)) for a in self.f],[int(g(a,0)) for a in self.i]
    def vars(self): return [a for a in self.f+self.i if type(a) is N]

class Check:
    def __init__(self,pid,tier,seed):
        self.pid=pid; self.tier=tier; self.seed=seed
        self.t0=time.time(); self.rng=random.Random(seed*1000003+sum(map(ord,pid)))
        self.mod=build.build_ir(); self.eng=symex.Engine(self.mod)
        build.build_native()
        self.dev=build.Native('dev'); self.rel=build.Native('rel')
        self.t_build=time.time()-self.t0
        self.paths=0; self.transitions=0; self.validated=0; self.native_evals=0
        self.claims=[]          # (label,result)
        self.bounds=[]; self.assumptions=[]; self.samples=[]; self.notes=[]
        self.stats=dict(queries=0,unsat=0,sat=0,unknown=0,time=0.0)
        self.violations=[]; self.inconclusive=[]
        self.extra={}
        self.targets=[]; self.seen=[]; self.followed=0; self.repeated=0
    def target(self,entry,oracle,corpus):
        """where to look natively for a concrete witness when the solver does not answer unsat"""
        self.targets.append((entry,oracle,corpus)); return entry
    def fallback(self):
        for e,o,c in self.targets:
            if self.hunt(e,o,c(self.rng),'search after an inconclusive encoding'): return
        for e,o,c in self.targets:
            if self.follow(e,o,c,'search along the paths after an inconclusive encoding'): return
        while self.targets and self.repeated<90:
            for e,o,c in self.targets:
                if self.again(e,o,c,'search after an inconclusive encoding',20): return
    def again(self,entry,oracle,corpus,label,seconds):
        """the native search repeated with fresh random inputs"""
        t=time.time(); seconds=min(seconds,90-self.repeated)
        try:
            while time.time()-t<seconds:
                if self.hunt(entry,oracle,corpus(self.rng),label): return True
            return False
        finally: self.repeated+=time.time()-t+.01
    def follow(self,entry,oracle,corpus,label='',seconds=60):
        """native search for a concrete violation along the symbolic paths ordinary inputs do not take"""
        names=sorted(v.args[0] for v in entry.vars()); ps=[]
        for e,p in self.seen:
            if e.name==entry.name and sorted(v.args[0] for v in e.vars())==names: ps+=p
        if not ps or not names: return False
        samples=[c for c in itertools.islice(corpus(self.rng),300) if isinstance(c,dict)]
        self.rng.shuffle(samples)
        seconds=min(seconds,180-self.followed)
        if not samples or seconds<=0: return False
        t=time.time()
        try: return self.hunt(entry,oracle,guide.inputs(entry.vars(),ps,samples,self.rng,seconds),label)
        finally: self.followed+=time.time()-t
    @property
    def quick(self): return self.tier!='thorough'
    @property
    def patience(self): return 330 if self.quick else None   # seconds of exploration per entry; beyond that the answer is a witness or none
    # ------------------------------------------------------------ symbolic execution
    def explore(self,entry,feas,cond=None,**kw):
        t=time.time()
        ps=symex.explore(self.eng,lambda r: symex.call_entry(r,entry.name,entry.f,entry.i),feas,pathcond=cond,**{'seconds':self.patience,**kw})
        self.paths+=len(ps); self.transitions+=sum(p.steps for p in ps); self.seen.append((entry,ps))
        if not ps: self.inconclusive.append('%s: no feasible path (vacuous)'%entry.name)
        return ps
    # ------------------------------------------------------------ discharging
    def run(self,tasks):
        """tasks: list of (label, fn) with fn() -> list of Verdict; run in forked workers"""
        global _TASKS,_CK
        _TASKS=tasks; _CK=self
        res=[]
        if len(tasks)<=1: outs=[_work(i) for i in range(len(tasks))]
        else:
            with mp.get_context('fork').Pool(min(NPROC,len(tasks))) as pool:
                outs=pool.map(_work,range(len(tasks)),chunksize=1)
        for vs,st,err in outs:
            for k in self.stats: self.stats[k]+=st[k]
            if len(tasks)>1: self.paths+=st['paths']; self.transitions+=st['steps']; self.eng.funcs_seen|=st['funcs']
            if err: self.inconclusive.append(err)
            for v in vs:
                self.claims.append((v.label,v.res,v.note)); res.append(v)
        return res
    # ------------------------------------------------------------ native side
    def native(self,entry,fi_list):
        reqs=[(entry.name,f,i) for f,i in fi_list]
        self.native_evals+=2*len(reqs)
        return self.dev.batch(reqs),self.rel.batch(reqs)
    def validate(self,entry,paths,envs,nf=None,ni=None,oracle=None):
        """bit-exact comparison of the path terms with the native code on concrete inputs"""
        reqs=[entry.bind(e) for e in envs]
        dev,rel=self.native(entry,reqs)
        bad=0
        for e,(f,i),d,r in zip(envs,reqs,dev,rel):
            env={v.args[0]:(float(e[v.args[0]]) if v.ty=='f' else term.mask(int(e[v.args[0]]),v.ty)) for v in entry.vars()}
            hit=[]
            for p in paths:
                vals=term.evaluate([c for c,_ in p.cond],env)
                if all(bool(v)==b for v,(c,b) in zip(vals,p.cond)): hit.append(p)
            if len(hit)!=1: bad+=1; self.note_mismatch(entry,e,'%d paths match'%len(hit),oracle,f,i,d,r); continue
            p=hit[0]
            if p.outcome=='panic':
                if d[0]!='panic': bad+=1; self.note_mismatch(entry,e,'encoding panics, code does not',oracle,f,i,d,r); continue
            else:
                vals=term.evaluate(p.out[0]+p.out[1],env)
                fo,io=vals[:symex.NFO],[term.signed(x,64) for x in vals[symex.NFO:]]
                for nat in(d,r):
                    if nat[0]!='ok' or not all(map(feq,fo,nat[1])) or io!=nat[2]:
                        bad+=1; self.note_mismatch(entry,e,'encoding and code differ',oracle,f,i,d,r); break
                    if len(nat)>3 and nat[3]!=fmt.render(p.text,env):
                        bad+=1; self.note_mismatch(entry,e,'encoded text %r and shown text %r differ'%(fmt.render(p.text,env),nat[3]),oracle,f,i,d,r); break
                else: self.validated+=1; continue
                continue
            self.validated+=1
        return bad
    def note_mismatch(self,entry,env,why,oracle,f,i,d,r):
        if oracle:
            for prof,nat in(('dev',d),('rel',r)):
                m=oracle(f,i,nat)
                if m: self.violation(entry,f,i,prof,m); return
        self.inconclusive.append('%s: %s at %r'%(entry.name,why,env))
    def hunt(self,entry,oracle,cands,label='',limit=200000):
        """native search for a concrete violation among candidates (dicts name -> value)"""
        batch=[]; n=0
        def flush():
            nonlocal batch
            if not batch: return False
            dev,rel=self.native(entry,batch)
            for (f,i),d,r in zip(batch,dev,rel):
                for prof,nat in(('dev',d),('rel',r)):
                    m=oracle(f,i,nat)
                    if m:
                        self.violation(entry,f,i,prof,m,label); batch=[]; return True
            batch=[]; return False
        for c in cands:
            n+=1
            if n>limit: break
            batch.append(entry.bind(c) if isinstance(c,dict) else c)
            if len(batch)>=64 and flush(): return True
        return flush()
    def neighbours(self,entry,inputs,extra=()):
        """concrete inputs around a model"""
        vs=entry.vars(); lists=[]
        k=2 if len(vs)<=3 else 1 if len(vs)<=4 else 0
        for v in vs:
            x=inputs.get(v.args[0],F(0))
            if v.ty=='f': lists.append(near(x,k))
            else: lists.append([int(x)])
        n=0
        for combo in itertools.product(*lists):
            yield {v.args[0]:c for v,c in zip(vs,combo)}
            n+=1
            if n>3000: return
    def settle(self,entry,verdicts,oracle,corpus=None,label=''):
        """unsat verdicts stand; every sat/unknown one must be reproduced natively or is inconclusive"""
        badv=[v for v in verdicts if v.res!='unsat']
        if not badv: return True
        if self.violations: return False
        for v in badv:
            c=[]
            if v.inputs is not None: c=self.neighbours(entry,v.inputs)
            if self.hunt(entry,oracle,itertools.chain(v.cands,c),v.label): return False
        if corpus is not None:
            if self.hunt(entry,oracle,corpus(self.rng),label or badv[0].label): return False
            if self.follow(entry,oracle,corpus,label or badv[0].label): return False
            if self.again(entry,oracle,corpus,label or badv[0].label,45): return False
        for v in badv: self.inconclusive.append('%s: solver answered %s%s and no native counterexample was found'%(v.label,v.res,' '+v.note if v.note else ''))
        return False
    def violation(self,entry,f,i,prof,msg,label=''):
        d=os.path.join(ROOT,'build','replay'); os.makedirs(d,exist_ok=True)
        path=os.path.join(d,'%s-%d.json'%(self.pid,len(self.violations)+1))
        f=list(f); i=list(i)
        json.dump(dict(property=self.pid,entry=entry.name,f=['%x'%build.fbits(x) for x in f],f_dec=[repr(x) for x in f],i=i,profile=prof,message=msg,claim=label),open(path,'w'),indent=1)
        self.violations.append((path,msg))
    # ------------------------------------------------------------ reporting
    def finish(self,exc=None):
        wall=time.time()-self.t0
        sys.stdout.flush()
        cov=dict(states=self.paths,transitions=self.transitions,traces_validated_against_impl=self.validated,
                 samples=[str(s)[:600] for s in self.samples[:12]] or ['(none)'],
                 functions_encoded=sorted(demangle(x) for x in self.eng.funcs_seen if not x.startswith('@h_'))[:200],
                 bounds=self.bounds,
                 queries=self.stats['queries'],queries_unsat=self.stats['unsat'],queries_sat=self.stats['sat'],queries_unknown=self.stats['unknown'],
                 solver_seconds=round(self.stats['time'],3),
                 claims=[dict(claim=l,verdict=r,**({'note':n} if n else {})) for l,r,n in self.claims[:400]],
                 claims_total=len(self.claims),claims_unsat=sum(1 for c in self.claims if c[1]=='unsat'),
                 native_executions=self.native_evals,build_seconds=round(self.t_build,2),
                 meaning='states = symbolic paths, transitions = IR instructions executed symbolically; a claim is proved when the solver answers unsat to its negation')
        cov.update(self.extra)
        if self.inconclusive: cov['inconclusive']=self.inconclusive[:20]
        ev=dict(property=self.pid,tier=self.tier,seed=self.seed,level='model_checking',coverage=cov,
                assumptions=self.assumptions,wall_s=round(wall,2),violations=len(self.violations))
        os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
        json.dump(ev,open(os.path.join(ROOT,'evidence',self.pid+'.json'),'w'),indent=1)
        self.dev.close(); self.rel.close()
        for n in self.notes: print(n)
        if self.violations:
            for p,m in self.violations[:1]:
                print(m); print('VIOLATION property=%s replay=%s'%(self.pid,p))
            return 1
        if exc is not None:
            print('ERROR: %s'%exc); return 2
        if self.inconclusive:
            for m in self.inconclusive[:10]: print('INCONCLUSIVE:',m)
            return 2
        if not self.claims: print('ERROR: nothing was checked'); return 2
        print('%s: held; %d claims, %d queries, %.1f s solver, %d paths, %d validated traces, %.1f s'%(self.pid,len(self.claims),self.stats['queries'],self.stats['time'],self.paths,self.validated,wall))
        return 0

_TASKS=[]; _CK=None
def _work(k):
    label,fn=_TASKS[k]
    S=relax.STATS; S.__init__(); c=_CK; a=(c.paths,c.transitions,set(c.eng.funcs_seen))
    try: vs=fn(); err=None
    except Unsupported as x: vs=[]; err='%s: unsupported: %s'%(label,x)
    except Exception as x: vs=[]; err='%s: %s'%(label,traceback.format_exc()[-1500:])
    return vs,dict(queries=S.queries,unsat=S.unsat,sat=S.sat,unknown=S.unknown,time=S.time,
        paths=c.paths-a[0],steps=c.transitions-a[1],funcs=set(c.eng.funcs_seen)-a[2]),err

def demangle(s):
    import re
    out=[]; t=s.lstrip('@')
    i=0; parts=[]
    for m in re.finditer(r'(\d+)',t):
        if m.start()<i: continue
        n=int(m.group(1)); j=m.end()
        if t[j:j+1]=='_': j+=1
        w=t[j:j+n]
        if n and len(w)==n and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*',w): parts.append(w); i=j+n
    return '::'.join(parts) if parts else t

def prove(R,label,conds,claim,timeout=None,margins=None,names=None):
    """claim: B, or function margin->B when margins are given (tried largest first for a robust model)"""
    c=claim(1) if callable(claim) else claim
    if c is relax.TRUE: 
        # decided by the interval analysis of the encoding; still recorded through the solver
        r,m=R.query(list(conds)+[relax.FALSE]); return Verdict(label,'unsat',note='by interval')
    r,m=R.query(list(conds)+[R.neg(c)],timeout)
    if r=='unknown': r,m=R.query_cvc5(list(conds)+[R.neg(c)],timeout) if hasattr(R,'query_cvc5') else (r,m)
    if r=='unsat': return Verdict(label,'unsat')
    inp=R.inputs(m) if m is not None else None
    cands=[]
    if callable(claim):
        for k in(10**9,10**6,1000,100,10,3):
            c=R.neg(claim(k))
            if c is relax.FALSE: continue
            r2,m2=R.query(list(conds)+[c],3000)
            if r2=='sat': inp=R.inputs(m2); break
    return Verdict(label,r,inp)

def main(props):
    a=sys.argv[1:]
    if a and a[0]=='--replay': return replay(a[1])
    pid=a[0]; tier=os.environ.get('VERIF_TIER','quick')
    if len(a)>1: tier=a[1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    try: ck=Check(pid,tier,seed)
    except Exception as x:
        print('ERROR: build failed: %s'%x); return 2
    exc=None
    try: props[pid](ck)
    except Unsupported as x:
        exc='unsupported: %s'%x
    except Exception as x:
        exc=traceback.format_exc()
    fb=getattr(ck,'fallback',None)
    if (exc or ck.inconclusive) and not ck.violations and fb:
        try: fb()
        except Exception as x: exc=(exc or '')+traceback.format_exc()
    return ck.finish(exc)

def replay(path):
    d=json.load(open(path))
    build.build_native()
    n=build.Native(d['profile'])
    if 'history' in d:
        for c in d['history']:
            q=(c['entry'],[build.fofbits(int(x,16)) for x in c['f']],c['i']); r=n.call(*q)
            print('call',q,'->',r[0],*((r[1][:24],r[2]) if r[0]=='ok' else ()))
        z=build.Native(d['profile']); r=z.call(*q); print('the last call alone ->',r[0],*((r[1][:24],r[2]) if r[0]=='ok' else ())); z.close()
        print('claim:',d['message']); return 0
    f=[build.fofbits(int(x,16)) for x in d['f']]
    r=n.call(d['entry'],f,d['i'])
    print('entry',d['entry'],'f',f,'i',d['i']); print('->',r[0],*( (r[1][:24],r[2]) if r[0]=='ok' else ())); print('claim:',d['message'])
    return 0
