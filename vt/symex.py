"""Symbolic executor for the LLVM IR of the crate under test.

Values: Python int (unsigned) / float / term.N / list (aggregate).  Pointers are concrete ints
(object number << 32 | offset).  A run follows a prefix of decisions and queues the alternatives
(execution is re-started from the beginning for each path)."""
import struct, re, time
from . import ll, term, fmt
from .ll import Unsupported
from .term import N

class Panic(Exception): pass
class PathEnd(Exception): pass
class Infeasible(Exception): pass
class StepLimit(Exception): pass

SH=32
OFFM=(1<<SH)-1

class Obj:
    __slots__=('size','data','cells','ro','name')
    def __init__(self,size,name=None):
        self.size=size; self.data=bytearray(size); self.cells={}; self.ro=False; self.name=name

FUNC_BASE=1<<60

class Path:
    """Result of one path"""
    __slots__=('cond','outcome','out','run','decisions','steps','writes','reads','text')

class Engine:
    def __init__(self,mod):
        self.mod=mod
        self.fnptr={}; self.fnaddr={}
        self.gaddr={}; self.robj={}       # constant globals: shared
        self.gobj_next=1
        self.funcs_seen=set()
        self.instrs=0
        self.intr={}                       # callee name -> handler (cached)
        self.ptr_in_const={}
        self.gnum={}
        for k,nm in enumerate(mod.globals): self.gnum[nm]=k+1
        self.nglob=len(mod.globals)+1
    def func_addr(self,name):
        a=self.fnaddr.get(name)
        if a is None:
            a=FUNC_BASE+16*len(self.fnaddr); self.fnaddr[name]=a; self.fnptr[a]=name
        return a

class Run:
    """One execution along a decision prefix."""
    def __init__(self,eng,prefix=(),feas=None,pathcond=None,max_steps=50_000_000):
        self.e=eng; self.m=eng.mod
        self.objs={}; self.nobj=eng.nglob+1
        self.prefix=list(prefix); self.pos=0
        self.cond=list(pathcond or [])      # (node,bool)
        self.condset={n.id:b for n,b in self.cond}
        self.feas=feas
        self.alts=[]                         # alternative prefixes discovered
        self.decisions=[]
        self.steps=0; self.max_steps=max_steps
        self.writes=set()                    # mutable globals written
        self.reads=set(); self.heap=False
        self.depth=0
        self.uniq=0
        self.texts={}; self.sinks=[[]]; self.sinkvt=None   # formatted text (vt/fmt.py)
    # ------------------------------------------------------------ memory
    def alloc(self,size,name=None):
        k=self.nobj; self.nobj+=1
        self.objs[k]=Obj(size,name)
        return k<<SH
    def obj(self,addr,size,write=False):
        k=addr>>SH; off=addr&OFFM
        o=self.objs.get(k)
        if o is None:
            if 0<k<self.e.nglob: o=self.load_global(k)
            else: raise Unsupported("access to invalid address %x"%addr)
        if off+size>o.size: raise Unsupported("out of bounds access to %s: off %d size %d of %d"%(o.name,off,size,o.size))
        if write:
            if o.ro: raise Unsupported("write to constant "+str(o.name))
            if o.name is not None: self.writes.add(o.name)
        elif o.name is not None and not o.ro: self.reads.add(o.name)
        return o,off
    def load_global(self,k):
        e=self.e
        o=e.robj.get(k)
        if o is None:
            nm=[n for n,i in e.gnum.items() if i==k][0]
            ty,init,kind,tls=self.m.globals[nm]
            o=Obj(ll.sizeof(ty),nm)
            if init is None:
                if 'GLOBAL_PANIC_COUNT' in nm or '__rust_no_alloc_shim' in nm: pass
                else: raise Unsupported("external global "+nm)
            else: self.init(o,0,ty,init)
            if kind=='constant': o.ro=True; e.robj[k]=o
        if not o.ro:
            pass
        self.objs[k]=o
        return o
    def init(self,o,off,ty,v):
        k=v[0]
        if k=='z': return
        if k=='bytes': o.data[off:off+len(v[1])]=v[1]; return
        if k=='agg':
            if ty[0] in('arr','vec'):
                sz=ll.sizeof(ty[2])
                for i,(t,x) in enumerate(v[1]): self.init(o,off+i*sz,t,x)
            else:
                for i,(t,x) in enumerate(v[1]): self.init(o,off+ll.field_offset(ty,i),t,x)
            return
        x=self.const(v,ty)
        self.raw_store(o,off,ll.sizeof(ty),x,ty)
    def raw_store(self,o,off,size,x,ty):
        if type(x) is float: o.data[off:off+8]=struct.pack('<d',x) if ty[0]=='f64' else struct.pack('<f',x)
        else: o.data[off:off+size]=int(x).to_bytes(size,'little')
    def const(self,v,ty):
        k=v[0]
        if k=='c': return v[1]
        if k=='z': return self.zero(ty)
        if k=='g': return self.gaddr(v[1])
        if k=='agg': return [self.const(x,t) for t,x in v[1]]
        if k=='bytes': return list(v[1])
        if k=='gep':
            a=self.const(v[2][0][1],v[2][0][0])
            return self.gep(v[1],a,[(t,self.const(x,t)) for t,x in v[2][1:]])
        if k=='cast':
            return self.const(v[3],v[2])
        if k=='bin':
            return term.ibin(v[1],v[2][1],self.const(v[3],v[2]),self.const(v[4],v[2]))
        raise Unsupported("constant %r"%(v,))
    def zero(self,ty):
        if ty[0]=='i' or ty[0]=='ptr': return 0
        if ty[0]=='f64' or ty[0]=='f32': return 0.0
        if ty[0]=='struct': return [self.zero(t) for t in ty[1]]
        if ty[0] in('arr','vec'): return [self.zero(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero %r'%(ty,))
    def gaddr(self,nm):
        k=self.e.gnum.get(nm)
        if k is not None: return k<<SH
        return self.e.func_addr(nm)
    def gep(self,bt,a,ops):
        first=True; off=0; t=bt; sym=[]
        for ty,i in ops:
            if first: sc=ll.sizeof(t); first=False
            else:
                if t[0]=='struct': off+=ll.field_offset(t,i); t=t[1][i]; continue
                t=t[2]; sc=ll.sizeof(t)
            if type(i) is N:
                i=self.concretize(i,ty[1])
            off+=term.signed(i,ty[1])*sc
        return (a+off)&0xffffffffffffffff
    def load(self,ty,addr):
        if type(addr) is N: addr=self.concretize(addr,64)
        k=ty[0]
        if k=='struct':
            return [self.load(t,addr+ll.field_offset(ty,i)) for i,t in enumerate(ty[1])]
        if k in('arr','vec'):
            sz=ll.sizeof(ty[2]); return [self.load(ty[2],addr+i*sz) for i in range(ty[1])]
        size=ll.sizeof(ty)
        if size==0: return 0
        o,off=self.obj(addr,size)
        if o.cells:
            c=o.cells.get(off)
            if c is not None and c[0]==size: v=c[1]; return self.retype(v,ty)
            ov=[x for x in o.cells if x<off+size and x+o.cells[x][0]>off]
            if ov:
                v=self.assemble(o,off,size)
                return self.retype(v,ty)
        b=o.data[off:off+size]
        if k=='f64': return struct.unpack('<d',b)[0]
        if k=='f32': return struct.unpack('<f',b)[0]
        v=int.from_bytes(b,'little')
        if k=='i' and ty[1]<size*8: v&=(1<<ty[1])-1
        return v
    def retype(self,v,ty):
        if ty[0]=='f64':
            if type(v) is N and v.ty!='f': return term.i2d(v)
            if type(v) is int: return term.bits2d(v)
            return v
        if type(v) is float: return term.d2bits(v)
        if type(v) is N:
            if v.ty=='f': v=term.d2i(v)
            w=ty[1] if ty[0]=='i' else 64
            if type(v) is N and v.ty!=w:
                return term.icast('trunc' if v.ty>w else 'zext',v.ty,w,v)
        return v
    def assemble(self,o,off,size):
        w=size*8; acc=0; i=off
        while i<off+size:
            hit=None
            for x,(s,v) in o.cells.items():
                if x<=i<x+s: hit=(x,s,v); break
            if hit is None:
                acc=term.ibin('or',w,acc,o.data[i]<<(8*(i-off))); i+=1; continue
            x,s,v=hit
            if type(v) is N and v.ty=='f': v=term.d2i(v)
            vw=s*8
            if type(v) is N and v.ty<vw: v=term.icast('zext',v.ty,vw,v)
            n=min(x+s,off+size)-i
            b=term.ibin('lshr',vw,v,8*(i-x)) if i>x else v
            b=term.icast('trunc',vw,n*8,b) if n*8<vw else b
            b=term.icast('zext',n*8,w,b) if n*8<w else b
            acc=term.ibin('or',w,acc,term.ibin('shl',w,b,8*(i-off)) if i>off else b)
            i+=n
        return acc
    def clear(self,o,off,size):
        if not o.cells: return
        hit=[x for x in o.cells if x<off+size and x+o.cells[x][0]>off]
        for x in hit:
            s,v=o.cells[x]
            if off<=x and x+s<=off+size: del o.cells[x]; continue
            # partial overwrite: keep the surviving bytes as byte cells
            if type(v) is N and v.ty=='f': v=term.d2i(v)
            if type(v) is N and v.ty<s*8: v=term.icast('zext',v.ty,s*8,v)
            del o.cells[x]
            for i in range(x,x+s):
                if not off<=i<off+size:
                    b=term.icast('trunc',s*8,8,term.ibin('lshr',s*8,v,8*(i-x)) if i>x else v)
                    if type(b) is N: o.cells[i]=(1,b)
                    else: o.data[i]=b
    def store(self,ty,v,addr):
        if type(addr) is N: addr=self.concretize(addr,64)
        k=ty[0]
        if k=='struct':
            for i,t in enumerate(ty[1]): self.store(t,v[i],addr+ll.field_offset(ty,i))
            return
        if k in('arr','vec'):
            sz=ll.sizeof(ty[2])
            for i in range(ty[1]): self.store(ty[2],v[i],addr+i*sz)
            return
        size=ll.sizeof(ty)
        if size==0: return
        o,off=self.obj(addr,size,True)
        if type(v) is N:
            if o.cells: self.clear(o,off,size)
            o.cells[off]=(size,v)
            return
        if o.cells: self.clear(o,off,size)
        if type(v) is float:
            o.data[off:off+size]=struct.pack('<d' if size==8 else '<f',v)
        else: o.data[off:off+size]=v.to_bytes(size,'little')
    def memcpy(self,d,s,n):
        if type(n) is N: n=self.concretize(n,64)
        if n==0: return
        if type(d) is N: d=self.concretize(d,64)
        if type(s) is N: s=self.concretize(s,64)
        os,so=self.obj(s,n); od,do=self.obj(d,n,True)
        cs=[]
        if os.cells:
            for x in list(os.cells):
                z,v=os.cells[x]
                if x<so+n and x+z>so:
                    if so<=x and x+z<=so+n: cs.append((x,z,v))
                    else:
                        self.split(os,x)
                        return self.memcpy(d,s,n)
        chunk=os.data[so:so+n]
        if od.cells: self.clear(od,do,n)
        od.data[do:do+n]=chunk
        for x,z,v in cs: od.cells[x-so+do]=(z,v)
    def split(self,o,x):
        s,v=o.cells.pop(x)
        if type(v) is N and v.ty=='f': v=term.d2i(v)
        if type(v) is N and v.ty<s*8: v=term.icast('zext',v.ty,s*8,v)
        for i in range(s):
            b=term.icast('trunc',s*8,8,term.ibin('lshr',s*8,v,8*i) if i else v) if s>1 else v
            if type(b) is N: o.cells[x+i]=(1,b)
            else: o.data[x+i]=b
    # ------------------------------------------------------------ decisions
    def assume(self,n,b):
        self.cond.append((n,b)); self.condset[n.id]=b
        # equalities entailed by simple structure
    def known(self,n):
        b=self.condset.get(n.id)
        if b is not None: return b
        if n.op=='xor' and n.args[1]==1 and type(n.args[1]) is int:
            b=self.known(n.args[0]) if type(n.args[0]) is N else None
            return None if b is None else (not b)
        if n.op=='and' and n.ty==1:
            a,b=[self.kv(x) for x in n.args]
            if a is False or b is False: return False
            if a and b: return True
        if n.op=='or' and n.ty==1:
            a,b=[self.kv(x) for x in n.args]
            if a or b: return True
            if a is False and b is False: return False
        return None
    def kv(self,x):
        return bool(x) if type(x) is int else self.known(x)
    def branch(self,c):
        """decide an i1"""
        if type(c) is int: return bool(c)
        k=self.known(c)
        if k is not None: return k
        neg=False
        while c.op=='xor' and c.args[1]==1: c=c.args[0]; neg=not neg
        if c.op=='icmp' and c.args[1]>1 and (type(c.args[2]) is int)!=(type(c.args[3]) is int):
            # a number picked by earlier decisions against a constant: decide those
            for _ in range(64):
                bs=self.built(c.args[2] if type(c.args[2]) is N else c.args[3])
                if not bs: break
                b=min(bs,key=lambda x: x.id)
                c=term.substitute([c],{b.id:int(self.branch(b))})[0]
                if type(c) is int: return bool(c)!=neg
                if c.op!='icmp' or (type(c.args[2]) is int)==(type(c.args[3]) is int): return self.branch(c)!=neg
        if self.pos<len(self.prefix):
            d=self.prefix[self.pos]; self.pos+=1
            self.decisions.append(d); self.assume(c,d)
            return d!=neg
        t=self.feas(self.cond,c,True) if self.feas else True
        f=self.feas(self.cond,c,False) if self.feas else True
        if not t and not f: raise Infeasible()
        if t and f: self.alts.append(self.decisions+[False])
        d=bool(t)
        self.decisions.append(d); self.pos+=1; self.prefix.append(d)
        self.assume(c,d)
        return d!=neg
    @staticmethod
    def built(n):
        """the decisions an integer is made of, when it is made of nothing else"""
        bs=[]; st=[n]; seen=set()
        while st:
            x=st.pop()
            if type(x) is not N or x.id in seen: continue
            seen.add(x.id)
            if x.ty==1: bs.append(x)
            elif x.ty!='f' and x.op in('zext','sext','trunc','add','sub','mul','and','or','xor','shl','lshr','ite'): st+=[a for a in x.args if type(a) is N]
            else: return None
        return bs
    def concretize(self,n,w):
        """fork over the values an integer can take (bounded)"""
        if type(n) is int: return n
        for c,b in self.cond:
            if b and c.op=='icmp' and c.args[0]=='eq' and c.args[2] is n and type(c.args[3]) is int: return c.args[3]
        # built from decisions: fork over those
        for _ in range(64):
            bs=self.built(n)
            if not bs: break
            b=min(bs,key=lambda x: x.id)
            n=term.substitute([n],{b.id:int(self.branch(b))})[0]
            if type(n) is int: return n
        if not self.feas: raise Unsupported("symbolic index")
        # the prefix holds eq-decisions; candidates come from the solver
        tried=[]
        while True:
            v=self.feas.value(self.cond,n,w)
            if v is None: raise Infeasible()
            if len(tried)>400: raise Unsupported("symbolic index with too many values")
            tried.append(v)
            c=term.icmp('eq',w,n,v)
            if self.branch(c): return v
    # ------------------------------------------------------------ execution
    def call(self,fname,args):
        f=self.m.funcs.get(fname)
        if f is None: return self.intrinsic(fname,args,None)
        return self.exec(f,args)
    def exec(self,f,args):
        self.e.funcs_seen.add(f.name)
        self.depth+=1
        if self.depth>200: raise Unsupported("recursion too deep")
        blocks=ll.decode(self.m,f)
        env={}
        for (nm,t),v in zip(f.params,args): env[nm]=v
        b=f.entry; prev=None
        frame=[]
        const=self.const
        while True:
            insts=blocks[b]
            i=0
            if insts and insts[0][0]=='phi':
                vals=[]
                while insts[i][0]=='phi':
                    _,dst,t,inc=insts[i]
                    o=inc[prev]; vals.append((dst,env[o[1]] if o[0]=='l' else const(o,t))); i+=1
                for d,v in vals: env[d]=v
            n=len(insts)
            nxt=None
            while i<n:
                I=insts[i]; i+=1
                op=I[0]
                self.steps+=1
                if op=='load':
                    o=I[3]
                    env[I[1]]=self.load(I[2],env[o[1]] if o[0]=='l' else const(o,ll.PTR))
                elif op=='store':
                    v=I[3]; a=I[4]
                    self.store(I[2],env[v[1]] if v[0]=='l' else const(v,I[2]),env[a[1]] if a[0]=='l' else const(a,ll.PTR))
                elif op=='getelementptr':
                    ops=I[3]
                    a=ops[0][1]; a=env[a[1]] if a[0]=='l' else const(a,ll.PTR)
                    if type(a) is N: a=self.concretize(a,64)
                    env[I[1]]=self.gep(I[2],a,[(t,env[x[1]] if x[0]=='l' else const(x,t)) for t,x in ops[1:]])
                elif op in ll.BIN:
                    t=I[2]; a=I[3]; c=I[4]
                    a=env[a[1]] if a[0]=='l' else const(a,t)
                    c=env[c[1]] if c[0]=='l' else const(c,t)
                    if t[0]=='vec': env[I[1]]=[term.ibin(op,t[2][1],x,y) for x,y in zip(a,c)]
                    else: env[I[1]]=term.ibin(op,t[1],a,c)
                elif op in ll.FBIN:
                    t=I[2]; a=I[3]; c=I[4]
                    a=env[a[1]] if a[0]=='l' else const(a,t)
                    c=env[c[1]] if c[0]=='l' else const(c,t)
                    if t[0]=='vec': env[I[1]]=[term.fbin(op,x,y) for x,y in zip(a,c)]
                    elif t[0]=='f32': raise Unsupported('f32 arithmetic')
                    else: env[I[1]]=term.fbin(op,a,c)
                elif op=='call':
                    nxtb=self.do_call(I,env)
                    if nxtb is not None: nxt=nxtb; break
                elif op=='br':
                    c=I[2]; c=env[c[1]] if c[0]=='l' else const(c,ll.I1)
                    nxt=I[3] if self.branch(c) else I[4]
                    break
                elif op=='jmp': nxt=I[2]; break
                elif op=='icmp':
                    t=I[3]; a=I[4]; c=I[5]
                    a=env[a[1]] if a[0]=='l' else const(a,t)
                    c=env[c[1]] if c[0]=='l' else const(c,t)
                    env[I[1]]=term.icmp(I[2],t[1] if t[0]=='i' else 64,a,c)
                elif op=='fcmp':
                    t=I[3]; a=I[4]; c=I[5]
                    a=env[a[1]] if a[0]=='l' else const(a,t)
                    c=env[c[1]] if c[0]=='l' else const(c,t)
                    env[I[1]]=term.fcmp(I[2],a,c)
                elif op=='extractvalue':
                    a=I[3]; v=env[a[1]] if a[0]=='l' else const(a,I[2])
                    for k in I[4]: v=v[k]
                    env[I[1]]=v
                elif op=='insertvalue':
                    a=I[3]; v=env[a[1]] if a[0]=='l' else const(a,I[2])
                    x=I[5]; x=env[x[1]] if x[0]=='l' else const(x,I[4])
                    env[I[1]]=self.insert(v,x,I[6])
                elif op=='alloca':
                    k=self.nobj; self.nobj+=1
                    self.objs[k]=Obj(I[2]*I[3][1]); frame.append(k)
                    env[I[1]]=k<<SH
                elif op=='cast':
                    a=I[4]; a=env[a[1]] if a[0]=='l' else const(a,I[3])
                    env[I[1]]=self.cast(I[2],I[3],I[5],a)
                elif op=='fneg':
                    a=I[3]; a=env[a[1]] if a[0]=='l' else const(a,I[2])
                    env[I[1]]=term.fneg(a)
                elif op=='select':
                    c=I[2]; c=env[c[1]] if c[0]=='l' else const(c,ll.I1)
                    x=I[4]; x=env[x[1]] if x[0]=='l' else const(x,I[3])
                    y=I[5]; y=env[y[1]] if y[0]=='l' else const(y,I[3])
                    env[I[1]]=self.select(c,x,y,I[3])
                elif op=='switch':
                    v=I[3]; v=env[v[1]] if v[0]=='l' else const(v,I[2])
                    nxt=I[4]
                    if type(v) is int:
                        for k,lab in I[5]:
                            if k==v: nxt=lab; break
                    else:
                        for k,lab in I[5]:
                            if self.branch(term.icmp('eq',I[2][1],v,k)): nxt=lab; break
                    break
                elif op=='ret':
                    self.depth-=1
                    for k in frame: self.objs.pop(k,None)
                    if I[2] is None: return None
                    t,o=I[2]
                    return env[o[1]] if o[0]=='l' else const(o,t)
                elif op=='freeze':
                    o=I[2]; env[I[1]]=env[o[1]] if o[0]=='l' else const(o,('i',64))
                elif op=='unreachable': raise Panic('unreachable')
                elif op=='nop': pass
                elif op=='atomicrmw':
                    _,dst,k,t,a,v=I
                    a=env[a[1]] if a[0]=='l' else const(a,ll.PTR); v=env[v[1]] if v[0]=='l' else const(v,t)
                    old=self.load(t,a); w=t[1] if t[0]=='i' else 64
                    new={'xchg':lambda:v,'add':lambda:term.ibin('add',w,old,v),'sub':lambda:term.ibin('sub',w,old,v),
                         'and':lambda:term.ibin('and',w,old,v),'or':lambda:term.ibin('or',w,old,v),'xor':lambda:term.ibin('xor',w,old,v),
                         'max':lambda:term.ite(term.icmp('sgt',w,old,v),old,v,w),'min':lambda:term.ite(term.icmp('slt',w,old,v),old,v,w),
                         'umax':lambda:term.ite(term.icmp('ugt',w,old,v),old,v,w),'umin':lambda:term.ite(term.icmp('ult',w,old,v),old,v,w)}.get(k)
                    if new is None: raise Unsupported('atomicrmw '+k)
                    self.store(t,new(),a)
                    env[dst]=old
                elif op=='cmpxchg':
                    _,dst,t,a,c,v=I
                    a=env[a[1]] if a[0]=='l' else const(a,ll.PTR)
                    c=env[c[1]] if c[0]=='l' else const(c,t); v=env[v[1]] if v[0]=='l' else const(v,t)
                    old=self.load(t,a)
                    eq=term.icmp('eq',t[1] if t[0]=='i' else 64,old,c)
                    if self.branch(eq): self.store(t,v,a); eq=1
                    else: eq=0
                    env[dst]=[old,eq]
                else: raise Unsupported("instruction %s in %s"%(I[2] if op=='unsupported' else op,f.name))
            if nxt is None: raise Unsupported("fell off block")
            if self.steps>self.max_steps: raise StepLimit()
            prev=b; b=nxt
    def insert(self,v,x,idx):
        v=list(v)
        if len(idx)==1: v[idx[0]]=x
        else: v[idx[0]]=self.insert(v[idx[0]],x,idx[1:])
        return v
    def select(self,c,x,y,t):
        if type(c) is list: return [self.select(a,b,d,t[2]) for a,b,d in zip(c,x,y)]
        if type(c) is int: return x if c else y
        if t[0] in('struct','arr','vec'): return x if self.branch(c) else y
        if t[0]=='ptr' : return x if self.branch(c) else y
        if type(x) is not N and type(y) is not N and type(x) is type(y) and term.key(x)==term.key(y): return x
        if t[0]=='f64': return x if self.branch(c) else y
        return term.ite(c,x,y,t[1])
    def cast(self,op,ft,tt,a):
        if ft[0]=='vec': return [self.cast(op,ft[2],tt[2],x) for x in a]
        if op in('trunc','zext','sext'):
            if type(a) is float: raise Unsupported('cast')
            return term.icast(op,ft[1],tt[1],a)
        if op in('sitofp','uitofp'):
            if tt[0]!='f64': raise Unsupported('f32')
            return term.itofp(op,ft[1],a)
        if op in('ptrtoint','inttoptr'):
            fw=ft[1] if ft[0]=='i' else 64; tw=tt[1] if tt[0]=='i' else 64
            return a if fw==tw else term.icast('trunc' if fw>tw else 'zext',fw,tw,a)
        if op=='bitcast':
            if ft[0]=='f64' and tt[0]=='i': return term.d2i(a)
            if ft[0]=='i' and tt[0]=='f64': return term.i2d(a)
            if ft==tt: return a
            raise Unsupported('bitcast %r %r'%(ft,tt))
        if op in('fptosi','fptoui'): return term.fptoi_sat(op,tt[1],a)
        if op in('fpext','fptrunc'):
            if type(a) is float: return struct.unpack('<f',struct.pack('<f',a))[0] if op=='fptrunc' else a
        raise Unsupported('cast %s'%op)
    def do_call(self,I,env):
        _,dst,rt,callee,args,nxt=I
        vals=[env[o[1]] if o[0]=='l' else self.const(o,t) for t,o in args]
        if callee[0]=='g': name=callee[1]
        else:
            a=env[callee[1]] if callee[0]=='l' else self.const(callee,ll.PTR)
            if type(a) is N: a=self.concretize(a,64)
            name=self.e.fnptr.get(a)
            if name is None: raise Unsupported("indirect call to %r"%a)
        f=self.m.funcs.get(name)
        r=self.exec(f,vals) if f is not None else self.intrinsic(name,vals,args)
        if dst is not None: env[dst]=r
        return nxt
    # ------------------------------------------------------------ externals
    def intrinsic(self,name,a,at):
        n=name[1:].strip('"')
        if n.startswith('llvm.'):
            return self.llvm(n,a,at)
        if n in term.LIBM1: return term.fun(n,a[0])
        if n in term.LIBM2 and n!='fmod': return term.fun2(n,a[0],a[1])
        if n=='fmod': return term.fbin('frem',a[0],a[1])
        if n in('sqrt','fabs','floor','ceil','trunc','round','rint'): return term.fun(n,a[0])
        if n=='fma': return term.fma(*a)
        if n=='sincos': self.store(ll.F64,term.fun('sin',a[0]),a[1]); self.store(ll.F64,term.fun('cos',a[0]),a[2]); return None
        if 'panic' in n and 'panicking' in n or '9panicking' in n or n.endswith('unwrap_failed') or n.endswith('expect_failed') or 'slice_index_fail' in n or 'slice_start_index' in n or 'slice_end_index' in n or 'slice_index_order' in n or n.endswith('capacity_overflow') or 'handle_alloc_error' in n or 'panic_access_error' in n or 'panic_already' in n or n in('abort','rust_begin_unwind'):
            if n.endswith('panicking11panic_count17is_zero_slow_path') or '9panicking9panicking' in n: return 0
            raise Panic(n)
        if n in('__rust_alloc','__rust_alloc_zeroed') or n.endswith('___rust_alloc') or n.endswith('___rust_alloc_zeroed'):
            if type(a[0]) is N: raise Unsupported('symbolic allocation size')
            self.heap=True; return self.alloc(a[0])
        if n in('__rust_dealloc',) or n.endswith('___rust_dealloc'): self.objs.pop(a[0]>>SH,None); return None
        if n in('__rust_realloc',) or n.endswith('___rust_realloc'):
            p=self.alloc(a[3]); self.memcpy(p,a[0],min(a[1],a[3])); self.objs.pop(a[0]>>SH,None); return p
        if '__rust_no_alloc_shim' in n: return None
        if n=='memcmp' or n=='bcmp': return self.memcmp(a[0],a[1],a[2])
        if n in('memcpy','memmove'): self.memcpy(a[0],a[1],a[2]); return a[0]
        if '4once5futex' in n and n.endswith('4Once4call'): return self.once_call(a)
        if '5futex' in n and ('wake' in n or 'lock_contended' in n): 
            if 'lock_contended' in n: raise Unsupported('lock contended')
            return None
        r=fmt.intrinsic(self,n,a)
        if r is not NotImplemented: return r
        raise Unsupported("call to external function "+n)
    def once_call(self,a):
        # Once::call(&self, ignore_poisoning, f: &mut dyn FnMut(&OnceState), location); COMPLETE = 0, the zeroed OnceState says: not poisoned, complete
        st=self.load(('i',32),a[0])
        if st==0: return None
        if st!=3: raise Unsupported('Once state')
        data,vt=a[2],a[3]
        fn=self.load(ll.PTR,vt+32)
        name=self.e.fnptr.get(fn)
        if name is None or name not in self.m.funcs: raise Unsupported('Once closure')
        os=self.alloc(32)
        self.exec(self.m.funcs[name],[data,os])
        self.store(('i',32),0,a[0])
        return None
    def memcmp(self,p,q,n):
        if type(n) is N: n=self.concretize(n,64)
        for i in range(n):
            x=self.load(('i',8),p+i); y=self.load(('i',8),q+i)
            if type(x) is int and type(y) is int:
                if x!=y: return term.mask(-1 if x<y else 1,32)
            elif not self.branch(term.icmp('eq',8,x,y)):
                return term.mask(-1,32) if self.branch(term.icmp('ult',8,x,y)) else 1
        return 0
    def llvm(self,n,a,at):
        p=n.split('.')
        k=p[1]
        vec=at is not None and len(at)>0 and at[0][0][0]=='vec'
        if vec and k in('sin','cos','sqrt','fabs','floor','ceil','trunc','round','rint','roundeven','fma','copysign'):
            return [self.llvm(n,[x[i] if type(x) is list else x for x in a],None) for i in range(at[0][0][1])]
        if k in('sin','cos','sqrt','fabs','floor','ceil','trunc','round','rint','roundeven','nearbyint','exp','log','exp2','log2','log10','tan','asin','acos','atan','sinh','cosh','tanh'):
            return term.fun({'nearbyint':'rint','roundeven':'rint'}.get(k,k),a[0])
        if k in('minnum','maxnum','minimumnum','maximumnum') and any(type(z) is N for z in a[:2]) and all(z==z for z in a[:2]):
            x,y=a[0],a[1]; mn=k.startswith('min')
            if type(x) is not N: x,y=y,x
            if self.branch(term.fcmp('olt',x,y)): return x if mn else y
            if self.branch(term.fcmp('olt',y,x)): return y if mn else x
            if self.branch(term.fcmp('uno',x,x)): return y
            if type(y) is not N:
                if y: return y
            elif self.branch(term.fcmp('uno',y,y)): return x
            return term.fun2(k,x,y) # equal, perhaps zeros of different signs
        if k in('pow','copysign','minnum','maxnum','minimum','maximum','minimumnum','maximumnum','atan2'): return term.fun2(k,a[0],a[1])
        if k=='powi': return term.powi(a[0],a[1])
        if k=='fma': return term.fma(*a)
        if k=='fmuladd': return term.fbin('fadd',term.fbin('fmul',a[0],a[1]),a[2])
        if k in('fptosi','fptoui'): return term.fptoi_sat(k,int(p[3][1:]),a[0])
        if k in('sadd','uadd','ssub','usub','smul','umul'):
            w=int(p[-1][1:])
            op=k[1:]
            if p[2]=='with': return [term.ibin(op,w,a[0],a[1]),term.ovf(k,w,a[0],a[1])]
            if p[2]=='sat':
                o=term.ovf(k,w,a[0],a[1]); v=term.ibin(op,w,a[0],a[1])
                if type(o) is int and not o: return v
                if k[0]=='u': return term.ite(o,0 if op=='sub' else (1<<w)-1,v,w)
                neg=term.icmp('slt',w,a[0],0)
                return term.ite(o,term.ite(neg,1<<(w-1),(1<<(w-1))-1,w),v,w)
        if k in('smax','smin','umax','umin'):
            w=int(p[-1][1:]); c=term.icmp({'smax':'sgt','smin':'slt','umax':'ugt','umin':'ult'}[k],w,a[0],a[1])
            return term.ite(c,a[0],a[1],w)
        if k in('scmp','ucmp'):
            w=int(p[-1][1:]); rw=int(p[-2][1:]); s='s' if k=='scmp' else 'u'
            lt=term.icmp(s+'lt',w,a[0],a[1]); gt=term.icmp(s+'gt',w,a[0],a[1])
            return term.ite(lt,term.mask(-1,rw),term.ite(gt,1,0,rw),rw)
        if k=='abs':
            w=int(p[-1][1:]); return term.ite(term.icmp('slt',w,a[0],0),term.ibin('sub',w,0,a[0]),a[0],w)
        if k in('ctpop','ctlz','cttz','bswap','bitreverse'):
            w=int(p[-1][1:]); x=a[0]
            if type(x) is N: x=self.concretize(x,w)
            if k=='ctpop': return bin(x).count('1')
            if k=='ctlz': return w-x.bit_length()
            if k=='cttz': return w if x==0 else (x&-x).bit_length()-1
            if k=='bswap': return int.from_bytes(x.to_bytes(w//8,'little'),'big')
        if k in('fshl','fshr') :
            w=int(p[-1][1:])
            if type(a[2]) is int:
                s=a[2]%w
                if s==0: return a[0] if k=='fshl' else a[1]
                if k=='fshl': return term.ibin('or',w,term.ibin('shl',w,a[0],s),term.ibin('lshr',w,a[1],w-s))
                return term.ibin('or',w,term.ibin('shl',w,a[0],w-s),term.ibin('lshr',w,a[1],s))
        if k in('memcpy','memmove'): self.memcpy(a[0],a[1],a[2]); return None
        if k=='memset':
            v,nb=a[1],a[2]
            if type(nb) is N: nb=self.concretize(nb,64)
            if type(v) is N: raise Unsupported('memset symbolic')
            if nb:
                o,off=self.obj(a[0],nb,True); self.clear(o,off,nb); o.data[off:off+nb]=bytes([v])*nb
            return None
        if k in('lifetime','dbg','experimental','prefetch','donothing','sideeffect'): return None
        if k=='assume':
            return None
        if k=='expect': return a[0]
        if k=='is' : return 0 if p[2]=='constant' and type(a[0]) is N else self.is_fpclass(n,a)
        if k in('trap','debugtrap','ubsantrap'): raise Panic(n)
        if k=='threadlocal': return a[0]
        if k=='ptrmask': return a[0]&a[1]
        if k=='objectsize': return (1<<64)-1
        raise Unsupported("intrinsic "+n)
    def is_fpclass(self,n,a):
        if 'constant' in n: return 1
        raise Unsupported(n)

MEMORY=9<<30
def memory():
    with open('/proc/self/statm') as f: return int(f.read().split()[1])*4096
def explore(eng,make,feas=None,max_paths=4000,pathcond=None,max_steps=50_000_000,stop=None,seconds=None):
    """make(run) -> outputs; returns the list of Paths."""
    work=[[]]; out=[]; t0=time.time()
    while work:
        if seconds and time.time()-t0>seconds: raise Unsupported('more than %d paths, %d s of exploration'%(len(out),seconds))
        if memory()>MEMORY: raise Unsupported('more than %d paths, %d GB of memory'%(len(out),MEMORY>>30))
        pre=work.pop()
        r=Run(eng,pre,feas,pathcond,max_steps)
        p=Path(); p.out=None
        try:
            p.out=make(r); p.outcome='ok'
        except Panic as x: p.outcome='panic'; p.out=str(x)
        except term.UB as x: p.outcome='panic'; p.out=str(x)
        except Infeasible: p.outcome=None
        eng.instrs+=r.steps
        work.extend(r.alts)
        p.cond=r.cond; p.run=None; p.decisions=list(r.decisions); p.steps=r.steps; p.writes=set(r.writes); p.reads=set(r.reads); p.text=r.sinks[0]
        if p.outcome is not None: out.append(p)
        if len(out)>max_paths: raise Unsupported("more than %d paths"%max_paths)
        if stop and stop(): break
    return out

# ---------------------------------------------------------------- calling harness entries
NF,NI,NFO,NIO=40,8,64,8
def call_entry(run,name,f,i):
    """f,i: lists of values (doubles / 64-bit ints or 32-bit terms) -> (64 doubles, 8 ints)"""
    pf=run.alloc(NF*8); pi=run.alloc(NI*8); po=run.alloc(NFO*8); pp=run.alloc(NIO*8)
    for k,v in enumerate(f): run.store(ll.F64,v,pf+8*k)
    for k,v in enumerate(i):
        if type(v) is int: v=term.mask(v,64)
        elif v.ty<64: v=term.icast('sext',v.ty,64,v)
        run.store(('i',64),v,pi+8*k)
    run.call('@'+name,[pf,pi,po,pp])
    return [run.load(ll.F64,po+8*k) for k in range(NFO)],[run.load(('i',64),pp+8*k) for k in range(NIO)]
