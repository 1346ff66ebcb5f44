"""Concrete inputs that follow given symbolic paths.

Used only to turn a solver answer other than unsat into an input for the real code: starting from ordinary inputs,
the conditions of a path are satisfied one after another by moving single inputs (values from the conditions,
from other inputs, and bisection on the difference of the two sides of a comparison).  Nothing is decided here."""
import itertools, math, time
from . import term
from .term import N

def atoms(c):
    out=[]; seen=set(); st=[c]
    while st:
        n=st.pop()
        if type(n) is not N or n.id in seen: continue
        seen.add(n.id)
        if n.op in('fcmp','icmp'): out.append(n); continue
        if n.ty==1: st+=list(n.args)
    return out
def support(c): return [n for n in term.topo([c]) if n.op=='var']
def ordd(x):
    b=term.d2bits(x); return b if b<1<<63 else (1<<63)-b
def unord(k):
    return term.bits2d(k if k>=0 else (1<<63)-k)
def full(env,vs): return {v.args[0]:(float(env[v.args[0]]) if v.ty=='f' else term.mask(int(env[v.args[0]]),v.ty)) for v in vs}

class Guide:
    def __init__(s,vs,samples,rng,deadline):
        s.vs=vs; s.rng=rng; s.end=deadline; s.pool={v.args[0]:[] for v in vs}; s.by={v.args[0]:v for v in vs}; s.sup={}; s.keep=False
        for e in samples:
            for k in s.pool:
                if len(s.pool[k])<60 and e[k] not in s.pool[k]: s.pool[k].append(e[k])
    def sat(s,conds,env):
        """number of leading conditions that hold"""
        try: vals=term.evaluate([c for c,_ in conds],full(env,s.vs))
        except (OverflowError,ZeroDivisionError,ValueError): return 0
        n=0
        for v,(c,b) in zip(vals,conds):
            if bool(v)!=b: return n
            n+=1
        return n
    def moves(s,c,env):
        if not s.keep: yield from s.moves1(c,env); return
        # keep the sum with a neighbouring input (the two parts of a date)
        fs=[v.args[0] for v in s.vs if v.ty=='f']
        for e in s.moves1(c,env):
            k=[x for x in e if e[x]!=env[x]]
            if len(k)!=1 or k[0] not in fs: yield e; continue
            k=k[0]; j=fs.index(k)
            for o in((j^1),j+1,j-1):
                if 0<=o<len(fs) and o!=j: yield dict(e,**{fs[o]:env[fs[o]]+env[k]-e[k]})
    def moves1(s,c,env):
        """single-input changes likely to flip condition c"""
        sup=s.sup.get(c.id)
        if sup is None: sup=s.sup[c.id]=([v for v in support(c) if v.args[0] in s.by],atoms(c))
        vs,at=sup; consts=[]
        for a in at:
            for x in a.args[-2:]:
                if type(x) is not N: consts.append(x)
            for n in term.topo([a]):
                for x in n.args:
                    if type(x) is float and math.isfinite(x): consts.append(x)
                if len(consts)>12: break
        for v in vs:
            k=v.args[0]; x=env[k]
            if v.ty=='f':
                opts=[0.0,-0.0,1.0,-1.0,x*.5,x*2,-x,x+1,x-1,math.nextafter(x,math.inf),math.nextafter(x,-math.inf)]
                for q in consts[:12]:
                    q=float(q); opts+=[q,-q,math.nextafter(q,math.inf),math.nextafter(q,-math.inf)]
                opts+=[float(env[o]) for o in env if o!=k and type(env[o]) is float]+[-float(env[o]) for o in env if o!=k and type(env[o]) is float]
            else:
                opts=[0,1,-1,x+1,x-1]
                for q in consts[:12]:
                    q=int(q) if type(q) is int else 0; q=term.signed(q,v.ty) if q>>(v.ty-1) else q; opts+=[q,q+1,q-1]
            for o in opts+s.pool[k]:
                if v.ty!='f' and not -(1<<(v.ty-1))<=o<1<<(v.ty-1): continue
                if v.ty=='f' and not math.isfinite(o): continue
                yield dict(env,**{k:o})
        # both sides of a comparison meet: bisection along one input
        for a in at:
            l,r=a.args[-2:]; w=None if a.op=='fcmp' else a.args[1]
            def dist(e):
                try: x,y=term.evaluate([l,r],full(e,s.vs))
                except (OverflowError,ZeroDivisionError,ValueError): return None
                if w: x,y=term.signed(x,w),term.signed(y,w)
                d=x-y
                return d if d==d else None
            d0=dist(env)
            if d0 is None: continue
            for v in vs:
                k=v.args[0]
                if v.ty=='f':
                    def ends():
                        x=env[k]
                        for o in s.pool[k]: yield o
                        for e in range(-12,13,3):
                            yield x+10.0**e; yield x-10.0**e
                else:
                    def ends():
                        for o in s.pool[k]: yield o
                for o in itertools.islice(ends(),50):
                    if time.time()>s.end: return
                    d1=dist(dict(env,**{k:o}))
                    if d1 is None or (d0<0)==(d1<0) and d0!=0 and d1!=0: continue
                    lo,hi=env[k],o; dl=d0
                    if v.ty=='f':
                        a0,b0=ordd(float(lo)),ordd(float(hi))
                        while abs(b0-a0)>1:
                            m=(a0+b0)//2; dm=dist(dict(env,**{k:unord(m)}))
                            if dm is None: break
                            if (dm<0)==(dl<0): a0=m
                            else: b0=m
                        for q in range(min(a0,b0)-2,max(a0,b0)+3): yield dict(env,**{k:unord(q)})
                        for q in(16,1<<8,1<<16,1<<24,1<<32): yield dict(env,**{k:unord(a0+q)}); yield dict(env,**{k:unord(b0-q)}); yield dict(env,**{k:unord(a0-q)}); yield dict(env,**{k:unord(b0+q)})
                    else:
                        a0,b0=int(lo),int(hi)
                        while abs(b0-a0)>1:
                            m=(a0+b0)//2; dm=dist(dict(env,**{k:m}))
                            if dm is None: break
                            if (dm<0)==(dl<0): a0=m
                            else: b0=m
                        for q in range(min(a0,b0)-1,max(a0,b0)+2): yield dict(env,**{k:q})
                    break
    def reach(s,conds,env):
        """env changed so that every condition of the path holds, or None"""
        n=s.sat(conds,env); steps=0
        while n<len(conds):
            steps+=1
            if steps>40 or time.time()>s.end: return None
            best=None
            for e in s.moves(conds[n][0],env):
                if time.time()>s.end: return None
                m=s.sat(conds[:n+1],e)
                if m>n:
                    best=e; break
            if best is None: return None
            env=best; n=s.sat(conds,env)
        return env

def inputs(vs,paths,samples,rng,seconds=40):
    """inputs following the paths no sample follows, one path at a time"""
    end=time.time()+seconds; g=Guide(vs,samples,rng,end)
    paths=[p for p in paths if p.cond]; score={}; hit=set()
    for e in samples[:60]:
        if time.time()>end-seconds/2: break
        for k,p in enumerate(paths):
            n=g.sat(p.cond,e); score.setdefault(k,[]).append((n,e))
            if n==len(p.cond): hit.add(k)
    rest=[k for k in score if k not in hit]
    rest.sort(key=lambda k: max(n for n,_ in score[k])-len(paths[k].cond),reverse=True)
    for k in rest:
        p=paths[k]; sc=sorted(score[k],key=lambda t:-t[0])[:3]
        for (_,e),g.keep in itertools.product(sc,(True,False)):
            if time.time()>end: return
            r=g.reach(p.cond,dict(e))
            if r is None: continue
            yield r
            # the same with the inputs that do not matter for the conditions at zero
            moved=[v for v in vs if r[v.args[0]]!=e[v.args[0]]]
            for z in(0.0,1.0):
                q={v.args[0]:(z if v.ty=='f' else r[v.args[0]]) for v in vs}
                for v in moved: q[v.args[0]]=r[v.args[0]]
                yield q
            for v in vs:
                x=r[v.args[0]]
                for y in [math.nextafter(x,math.inf),math.nextafter(x,-math.inf)] if v.ty=='f' else [x+1,x-1]:
                    if v.ty=='f' or -(1<<(v.ty-1))<=y<1<<(v.ty-1): yield dict(r,**{v.args[0]:y})
            for o in samples[:40]:
                for v in vs: yield dict(r,**{v.args[0]:o[v.args[0]]})
                c=dict(o)
                # keep only the inputs the conditions moved
                for v in vs:
                    if r[v.args[0]]!=e[v.args[0]]: c[v.args[0]]=r[v.args[0]]
                yield c
