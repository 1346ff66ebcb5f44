"""Parser for the textual LLVM IR that rustc emits (the subset Rust code compiles to)."""
import re, struct

class Unsupported(Exception):
    """The IR (or a term) uses something outside the encoding."""

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"          # byte string
 | [%@]"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"            # quoted names
 | [%@][-a-zA-Z$._0-9]+
 | f0x[0-9A-Fa-f]+ | 0x[KLMHR]?[0-9A-Fa-f]+
 | [+-]?\d+\.\d*(?:[eE][+-]?\d+)?
 | [+-]?(?:inf|nan|qnan|snan)\b
 | -?\d+
 | \![-a-zA-Z$._0-9]*
 | \#\d+
 | "(?:[^"\\]|\\[0-9A-Fa-f]{2})*"
 | \.\.\.
 | [a-zA-Z_][-a-zA-Z$._0-9]*
 | [(){}\[\]<>,=*|:]
''', re.X)

def tokenize(s):
    return TOK.findall(s)

# ---------------------------------------------------------------- types
# ('i',w) ('f64',) ('f32',) ('ptr',) ('void',) ('struct',[t],packed) ('arr',n,t) ('vec',n,t) ('named',n)
I1=('i',1); F64=('f64',); PTR=('ptr',)

class Parser:
    def __init__(self, toks, mod):
        self.t=toks; self.p=0; self.m=mod
    def peek(self,k=0):
        return self.t[self.p+k] if self.p+k < len(self.t) else None
    def next(self):
        x=self.t[self.p]; self.p+=1; return x
    def eat(self,x):
        if self.peek()==x: self.p+=1; return True
        return False
    def expect(self,x):
        y=self.next()
        if y!=x: raise Unsupported("parse: expected %r got %r in %s"%(x,y,' '.join(self.t)[:300]))
    def skip_balanced(self):
        # at '(' : skip to after the matching ')'
        d=0
        while True:
            x=self.next()
            if x in '([{<' and len(x)==1: d+=1
            elif x in ')]}>' and len(x)==1:
                d-=1
                if d==0: return
    def type(self):
        x=self.next()
        if x=='ptr':
            if self.peek()=='addrspace': self.next(); self.skip_balanced()
            return PTR
        if x=='double': return F64
        if x=='float': return ('f32',)
        if x=='void': return ('void',)
        if x in('metadata','token','label','half','fp128','x86_fp80','bfloat'): return (x,)
        if re.fullmatch(r'i\d+',x): return ('i',int(x[1:]))
        if x=='{':
            ts=[]
            while not self.eat('}'):
                ts.append(self.type()); self.eat(',')
            return ('struct',tuple(ts),False)
        if x=='<':
            if self.peek()=='{':
                self.next(); ts=[]
                while not self.eat('}'):
                    ts.append(self.type()); self.eat(',')
                self.expect('>')
                return ('struct',tuple(ts),True)
            n=int(self.next()); self.expect('x'); t=self.type(); self.expect('>')
            return ('vec',n,t)
        if x=='[':
            n=int(self.next()); self.expect('x'); t=self.type(); self.expect(']')
            return ('arr',n,t)
        if x[0]=='%':
            return self.m.named_type(x)
        raise Unsupported("type token %r in %s"%(x,' '.join(self.t)[:200]))
    def skip_attrs(self):
        """parameter attributes between type and operand"""
        while True:
            x=self.peek()
            if x is None: return
            if re.fullmatch(r'[a-z_]+',x) and x not in OPKW and not re.fullmatch(r'i\d+',x):
                self.next()
                if self.peek()=='(' : self.skip_balanced()
                elif x=='align' : self.next()
                continue
            if x[0]=='"':
                self.next()
                if self.eat('='): self.next()
                continue
            return
    def operand(self,ty):
        x=self.next()
        c=x[0]
        if c=='%': return ('l',x)
        if c=='@': return ('g',x)
        if x=='true': return ('c',1)
        if x=='false': return ('c',0)
        if x=='null': return ('c',0)
        if x in('undef','poison','zeroinitializer','none'):
            return ('z',ty)
        if x=='c' : raise Unsupported('c')
        if c=='c' and x[1:2]=='"': return ('bytes',unescape(x[2:-1]))
        if x in ('getelementptr',):
            while self.peek() in('inbounds','nuw','nusw') or self.peek()=='inrange':
                if self.next()=='inrange': self.skip_balanced()
            self.expect('(')
            bt=self.type(); self.expect(',')
            ops=[]
            while True:
                t=self.type(); ops.append((t,self.operand(t)))
                if not self.eat(','): break
            self.expect(')')
            return ('gep',bt,ops)
        if x in('ptrtoint','inttoptr','bitcast','trunc','addrspacecast','zext'):
            self.expect('('); t=self.type(); o=self.operand(t); self.expect('to'); t2=self.type(); self.expect(')')
            return ('cast',x,t,o,t2)
        if x in('add','sub','mul','xor'):
            while self.peek() in('nuw','nsw'): self.next()
            self.expect('('); t=self.type(); a=self.operand(t); self.expect(','); t2=self.type(); b=self.operand(t2); self.expect(')')
            return ('bin',x,t,a,b)
        if x=='splat':
            self.expect('('); t=self.type(); o=self.operand(t); self.expect(')'); return ('splat',ty,o)
        if x in '{[<' :
            close={'{':'}','[':']','<':'>'}[x]
            if x=='<' and self.peek()=='{':
                self.next(); elems=self.aggr('}'); self.expect('>')
                return ('agg',elems)
            return ('agg',self.aggr(close))
        if ty[0]=='f64' or ty[0]=='f32':
            return ('c',parse_float(x))
        if re.fullmatch(r'-?\d+',x):
            w=ty[1] if ty[0]=='i' else 64
            return ('c',int(x)&((1<<w)-1))
        raise Unsupported("operand %r type %r in %s"%(x,ty,' '.join(self.t)[:200]))
    def aggr(self,close):
        es=[]
        while not self.eat(close):
            t=self.type(); es.append((t,self.operand(t))); self.eat(',')
        return es

OPKW={'true','false','null','undef','poison','zeroinitializer','none','getelementptr','ptrtoint','inttoptr',
      'bitcast','add','sub','mul','xor','trunc','addrspacecast','zext','splat','c','inf','nan'}

def unescape(s):
    out=bytearray(); i=0; b=s.encode('latin-1')
    while i<len(b):
        if b[i]==0x5c:
            if b[i+1]==0x5c: out.append(0x5c); i+=2
            else: out.append(int(b[i+1:i+3],16)); i+=3
        else: out.append(b[i]); i+=1
    return bytes(out)

def parse_float(x):
    if x.startswith('f0x'): return struct.unpack('<d',struct.pack('<Q',int(x[3:],16)))[0]
    if x.startswith('0x'):  return struct.unpack('<d',struct.pack('<Q',int(x[2:],16)))[0]
    if x in('inf','+inf'): return float('inf')
    if x=='-inf': return float('-inf')
    if x.lstrip('+-') in('nan','qnan','snan'): return float('nan')
    return float(x)

# ---------------------------------------------------------------- layout
def sizeof(t):
    k=t[0]
    if k=='i':
        w=t[1]
        return 1 if w<=8 else 2 if w<=16 else 4 if w<=32 else 8 if w<=64 else 16
    if k in('f64','ptr'): return 8
    if k=='f32': return 4
    if k=='arr' or k=='vec': return t[1]*sizeof(t[2])
    if k=='struct':
        off=0; al=1
        for e in t[1]:
            a=1 if t[2] else alignof(e); al=max(al,a)
            off=(off+a-1)//a*a+sizeof(e)
        return (off+al-1)//al*al
    raise Unsupported("sizeof %r"%(t,))
def alignof(t):
    k=t[0]
    if k=='i': return min(sizeof(t),16)
    if k in('f64','ptr'): return 8
    if k=='f32': return 4
    if k=='arr': return alignof(t[2])
    if k=='vec': return sizeof(t)
    if k=='struct': return 1 if t[2] else max([alignof(e) for e in t[1]] or [1])
    raise Unsupported("alignof %r"%(t,))
def field_offset(t,i):
    off=0
    for j,e in enumerate(t[1]):
        a=1 if t[2] else alignof(e)
        off=(off+a-1)//a*a
        if j==i: return off
        off+=sizeof(e)

class Func:
    __slots__=('name','params','ret','blocks','entry','declared','text','decoded')

class Module:
    def __init__(self):
        self.types={}; self.globals={}; self.funcs={}; self.decls={}
    def parse(self,text,prefix):
        """prefix: renames private/internal symbols so that several modules can be linked"""
        lines=text.split('\n')
        i=0; n=len(lines)
        # types first
        raw={}
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                nm,body=l.split(' = type ',1)
                if body.strip()!='opaque': raw[nm.strip()]=body
        self.rawtypes=raw
        for nm in list(raw): self.named_type(nm)
        local={}   # renamed local symbols of this module
        for l in lines:
            if l.startswith('@'):
                nm=TOK.match(l).group(0)
                if re.search(r'= (private|internal)\b',l): local[nm]='@'+prefix+nm[1:]
            elif l.startswith('define'):
                nm=re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(',l).group(1)
                if l.startswith('define internal') or l.startswith('define private'): local[nm]='@'+prefix+nm[1:]
        ren=lambda toks:[local.get(t,t) if t[0]=='@' else t for t in toks]
        while i<n:
            l=lines[i]
            if l.startswith('@'):
                self.parse_global(ren(tokenize(strip_md(l))))
            elif l.startswith('define'):
                j=i
                while lines[j]!='}': j+=1
                self.parse_func(lines[i:j],ren)
                i=j
            elif l.startswith('declare'):
                toks=tokenize(l); nm=[t for t in toks if t[0]=='@'][0]
                self.decls[nm]=l
            i+=1
    def named_type(self,nm):
        if nm in self.rawtypes:
            body=self.rawtypes.pop(nm)
            self.types[nm]=Parser(tokenize(body),self).type()
        return self.types.get(nm) or ('named',nm)
    def parse_global(self,toks):
        nm=toks[0]
        p=Parser(toks,self); p.p=2
        kind=None; tls=False; ext=False
        while True:
            x=p.peek()
            if x in('constant','global'): kind=p.next(); break
            if x=='alias': return
            if x=='thread_local':
                tls=True
            if x in('external','extern_weak'): ext=True
            p.next()
            if p.peek()=='(' : p.skip_balanced()
        ty=p.type()
        init=None
        if p.peek() not in(None,',') and not ext: init=p.operand(ty)
        self.globals[nm]=(ty,init,kind,tls)
    def parse_func(self,lines,ren):
        head=ren(tokenize(strip_md(lines[0])))
        f=Func(); f.text=lines; f.decoded=None
        k=[i for i,t in enumerate(head) if t[0]=='@'][0]
        f.name=head[k]
        p=Parser(head,self); p.p=k+1
        p.expect('(')
        f.params=[]
        while not p.eat(')'):
            if p.eat('...'): continue
            t=p.type(); p.skip_attrs()
            f.params.append((p.next(),t)); p.eat(',')
        blocks={}; cur=None; entry=None
        joined=[]; acc=None
        for l in lines[1:]:
            s=l.strip()
            if not s or s.startswith(';'): continue
            if acc is not None:
                acc+=' '+s
                if ']' in s: joined.append(acc); acc=None
                continue
            if s.startswith('switch') and not s.endswith(']') and ']' not in s:
                acc=s; continue
            joined.append(s)
        for s in joined:
            m=re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):',s)
            if m:
                cur='%'+m.group(1)
                blocks[cur]=[]
                if entry is None: entry=cur
                continue
            if cur is None:
                cur='%entry.'; entry=cur; blocks[cur]=[]
            blocks[cur].append(s)
        f.blocks={b:[(s,ren) for s in ss] for b,ss in blocks.items()}
        f.entry=entry
        self.funcs[f.name]=f

def strip_md(l):
    # remove trailing ', !dbg !12' style metadata and comments outside strings
    i=0; inq=False
    while i<len(l):
        c=l[i]
        if c=='"': inq=not inq
        elif not inq:
            if c==';': return l[:i]
            if c=='!' and l[:i].rstrip().endswith(','):
                return l[:i].rstrip()[:-1]
        i+=1
    return l

# ---------------------------------------------------------------- instruction decoding
BIN={'add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr'}
FBIN={'fadd','fsub','fmul','fdiv','frem'}
CAST={'trunc','zext','sext','ptrtoint','inttoptr','bitcast','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'}
FLAGS={'nuw','nsw','exact','disjoint','nneg','inbounds','nusw','samesign','reassoc','nnan','ninf','nsz','arcp','contract','afn','fast','volatile'}

def decode(mod,f):
    if f.decoded is not None: return f.decoded
    out={}
    for b,ss in f.blocks.items():
        out[b]=[decode_inst(mod,s,ren) for s,ren in ss]
    f.decoded=out
    return out

def decode_inst(mod,s,ren):
    toks=ren(tokenize(strip_md(s)))
    p=Parser(toks,mod)
    dst=None
    if len(toks)>1 and toks[1]=='=':
        dst=toks[0]; p.p=2
    op=p.next()
    if op in('tail','musttail','notail'): op=p.next()
    fl=[]
    while p.peek() in FLAGS: fl.append(p.next())
    if op in FBIN and any(x in('reassoc','fast','arcp','contract','afn') for x in fl):
        raise Unsupported("fast-math flags: "+s)
    if op in BIN or op in FBIN:
        t=p.type(); a=p.operand(t); p.expect(','); b=p.operand(t)
        return (op,dst,t,a,b)
    if op=='fneg':
        t=p.type(); return (op,dst,t,p.operand(t))
    if op in('icmp','fcmp'):
        while p.peek() in FLAGS: p.next()
        pred=p.next(); t=p.type(); a=p.operand(t); p.expect(','); b=p.operand(t)
        return (op,dst,pred,t,a,b)
    if op in CAST:
        t=p.type(); a=p.operand(t); p.expect('to'); t2=p.type()
        return ('cast',dst,op,t,a,t2)
    if op=='alloca':
        t=p.type(); n=('c',1)
        if p.eat(','):
            if p.peek()!='align':
                tt=p.type(); n=p.operand(tt)
        return (op,dst,sizeof(t),n)
    if op=='load':
        while p.peek() in('atomic','volatile'): p.next()
        t=p.type(); p.expect(','); pt=p.type(); a=p.operand(pt)
        return (op,dst,t,a)
    if op=='store':
        while p.peek() in('atomic','volatile'): p.next()
        t=p.type(); v=p.operand(t); p.expect(','); pt=p.type(); a=p.operand(pt)
        return (op,None,t,v,a)
    if op=='getelementptr':
        bt=p.type(); p.expect(',')
        ops=[]
        while True:
            t=p.type(); ops.append((t,p.operand(t)))
            if not p.eat(','): break
        return (op,dst,bt,ops)
    if op=='br':
        if p.peek()=='label':
            p.next(); return ('jmp',None,p.next())
        t=p.type(); c=p.operand(t); p.expect(','); p.expect('label'); a=p.next(); p.expect(','); p.expect('label'); b=p.next()
        return ('br',None,c,a,b)
    if op=='switch':
        t=p.type(); v=p.operand(t); p.expect(','); p.expect('label'); d=p.next(); p.expect('[')
        cs=[]
        while not p.eat(']'):
            tt=p.type(); k=p.operand(tt); p.expect(','); p.expect('label'); cs.append((k[1],p.next()))
        return ('switch',None,t,v,d,cs)
    if op=='ret':
        t=p.type()
        return ('ret',None,None if t[0]=='void' else (t,p.operand(t)))
    if op=='unreachable': return (op,None)
    if op=='phi':
        while p.peek() in FLAGS: p.next()
        t=p.type(); inc=[]
        while True:
            p.expect('['); v=p.operand(t); p.expect(','); inc.append((p.next(),v)); p.expect(']')
            if not p.eat(','): break
        return (op,dst,t,dict(inc))
    if op=='select':
        ct=p.type(); c=p.operand(ct); p.expect(','); t=p.type(); a=p.operand(t); p.expect(','); p.type(); b=p.operand(t)
        return (op,dst,c,t,a,b)
    if op=='extractvalue':
        t=p.type(); a=p.operand(t); idx=[]
        while p.eat(','): idx.append(int(p.next()))
        return (op,dst,t,a,idx)
    if op=='insertvalue':
        t=p.type(); a=p.operand(t); p.expect(','); t2=p.type(); v=p.operand(t2); idx=[]
        while p.eat(','): idx.append(int(p.next()))
        return (op,dst,t,a,t2,v,idx)
    if op=='freeze':
        t=p.type(); return (op,dst,p.operand(t))
    if op in('call','invoke'):
        while p.peek() in FLAGS or (re.fullmatch(r'[a-z_]+(cc|CC)?\d*',p.peek() or '') and p.peek() not in('void','ptr','double','float') and not re.fullmatch(r'i\d+',p.peek())):
            x=p.next()
            if p.peek()=='(' : p.skip_balanced()
            elif x=='align': p.next()
        rt=p.type()
        if p.peek()=='(':   # function type
            p.skip_balanced()
        callee=p.operand(PTR)
        p.expect('(')
        args=[]
        while not p.eat(')'):
            t=p.type()
            if t[0]=='metadata':
                p.next()
                if p.peek()=='(' : p.skip_balanced()
                args.append((t,('c',0))); p.eat(','); continue
            p.skip_attrs()
            args.append((t,p.operand(t))); p.eat(',')
        nxt=None
        if op=='invoke':
            while p.peek()!='to': p.next()
            p.next(); p.expect('label'); nxt=p.next()
        return ('call',dst,rt,callee,args,nxt)
    if op in('fence',): return ('nop',None)
    if op in('atomicrmw',):
        while p.peek() in('volatile',): p.next()
        k=p.next(); pt=p.type(); a=p.operand(pt); p.expect(','); t=p.type(); v=p.operand(t)
        return (op,dst,k,t,a,v)
    if op=='cmpxchg':
        while p.peek() in('weak','volatile'): p.next()
        pt=p.type(); a=p.operand(pt); p.expect(','); t=p.type(); c=p.operand(t); p.expect(','); p.type(); v=p.operand(t)
        return (op,dst,t,a,c,v)
    return ('unsupported',dst,s)
