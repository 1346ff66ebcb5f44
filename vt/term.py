"""Hash-consed terms over machine integers and doubles.  A concrete integer is a Python int in
unsigned representation, a concrete double a Python float; everything else is an N."""
import math, struct, ctypes

NAN=float('nan'); INF=float('inf')
_libm=ctypes.CDLL('libm.so.6')
def _fn(name,n):
    f=getattr(_libm,name); f.restype=ctypes.c_double; f.argtypes=[ctypes.c_double]*n
    return f
LIBM1={k:_fn(k,1) for k in('sin','cos','tan','asin','acos','atan','exp','log','exp2','log2','log10','cbrt','sinh','cosh','tanh','expm1','log1p','asinh','acosh','atanh')}
LIBM2={k:_fn(k,2) for k in('atan2','pow','hypot','fmod')}
_fma=_fn('fma',3)

class N:
    __slots__=('op','args','ty','id','h')
    def __repr__(self): return show(self,4)

_tab={}
_next=[0]

def fkey(x): return ('d',struct.pack('<d',x))
def key(x):
    t=type(x)
    if t is N: return x.id
    if t is float: return fkey(x)
    return ('i',x)

def mkraw(op,ty,*args):
    k=(op,ty)+tuple(key(a) for a in args)
    n=_tab.get(k)
    if n is None:
        n=N(); n.op=op; n.args=args; n.ty=ty; n.id=_next[0]; _next[0]+=1
        _tab[k]=n
    return n

def show(n,d=6):
    if not isinstance(n,N): return repr(n)
    if n.op=='var': return n.args[0]
    if d<=0: return '#%d'%n.id
    return '%s(%s)'%(n.op,','.join(show(a,d-1) if isinstance(a,N) else repr(a) for a in n.args))

def var(name,ty): 
    k=('var',ty,name)
    n=_tab.get(k)
    if n is None:
        n=N(); n.op='var'; n.args=(name,); n.ty=ty; n.id=_next[0]; _next[0]+=1; _tab[k]=n
    return n

def issym(x): return type(x) is N
def signed(x,w): return x-(1<<w) if x>>(w-1) else x
def mask(x,w): return x&((1<<w)-1)

def bits2d(b): return struct.unpack('<d',struct.pack('<Q',b))[0]
def d2bits(x): return struct.unpack('<Q',struct.pack('<d',x))[0]

# ------------------------------------------------------------------ integers
def span(a,w):
    """every bit of the value outside [lo,hi) is zero"""
    if type(a) is int: return ((a&-a).bit_length()-1,a.bit_length()) if a else (w,0)
    if a.op=='zext': return span(a.args[0],a.args[0].ty)
    if a.op=='shl' and type(a.args[1]) is int: l,h=span(a.args[0],w); return (min(w,l+a.args[1]),min(w,h+a.args[1]))
    if a.op=='lshr' and type(a.args[1]) is int: l,h=span(a.args[0],w); return (max(0,l-a.args[1]),max(0,h-a.args[1]))
    if a.op=='or': (l,h),(m,i)=span(a.args[0],w),span(a.args[1],w); return (min(l,m),max(h,i))
    return (0,w)
def ibin(op,w,a,b):
    if type(a) is N and type(b) is int and 0<b<w:
        # fields packed into a word and taken out again
        if op=='lshr':
            l,h=span(a,w)
            if h<=b: return 0
            if a.op=='or':
                for x,y in(a.args,a.args[::-1]):
                    if span(x,w)[1]<=b: return ibin('lshr',w,y,b)
            if a.op=='shl' and type(a.args[1]) is int and span(a.args[0],w)[1]+a.args[1]<=w:
                k=a.args[1]-b
                return ibin('shl',w,a.args[0],k) if k>=0 else ibin('lshr',w,a.args[0],-k)
    if op=='and' and type(b) is int and type(a) is N and b and a.op in('or','shl','zext'):
        if b&(b+1)==0 and span(a,w)[1]<=b.bit_length(): return a
        if a.op=='or':
            for x,y in(a.args,a.args[::-1]):
                l,h=span(x,w)
                if h<=l or not b&(((1<<h)-1)>>l<<l): return ibin('and',w,y,b)
    if type(a) is int and type(b) is int: return ibin_c(op,w,a,b)
    if type(a) is int and op in('add','mul','and','or','xor'): a,b=b,a
    if type(b) is int:
        if b==0 and op in('add','sub','or','xor','shl','lshr','ashr'): return a
        if b==0 and op in('mul','and'): return 0
        if b==1 and op in('mul','sdiv','udiv'): return a
        if op=='and' and b==(1<<w)-1: return a
        if op=='or' and b==(1<<w)-1: return b
        if w==1 and op=='xor' and b==1: return inot(a)
        if op=='and' and type(a) is N and a.op=='d2i' and w==64:
            if b==0x7fffffffffffffff: return mkraw('d2i',64,fun('fabs',a.args[0]))
            if b==0x8000000000000000: return mkraw('signbit',64,a.args[0])
        if op=='xor' and w==64 and b==0x8000000000000000 and type(a) is N and a.op=='d2i':
            return mkraw('d2i',64,fneg(a.args[0]))
    if a is b:
        if op in('sub','xor'): return 0
        if op in('and','or'): return a
    if op=='or' and w==64 and type(a) is N and type(b) is N:
        # copysign through bits
        for p,q in((a,b),(b,a)):
            if p.op=='d2i' and type(p.args[0]) is N and p.args[0].op=='fabs' and q.op=='signbit':
                return mkraw('d2i',64,fun2('copysign',p.args[0],q.args[0]))
    if op=='or' and w==64 and type(b) is int and type(a) is N and a.op=='signbit':
        return mkraw('d2i',64,fun2('copysign',bits2d(b),a.args[0]))
    if w==1:
        if op=='and' and type(a) is N and type(b) is N and inot(a) is b: return 0
    return mkraw(op,w,a,b)

class UB(Exception): pass

def ibin_c(op,w,a,b):
    m=(1<<w)-1
    if op=='add': return (a+b)&m
    if op=='sub': return (a-b)&m
    if op=='mul': return (a*b)&m
    if op=='and': return a&b
    if op=='or': return a|b
    if op=='xor': return a^b
    if op in('shl','lshr','ashr'):
        if b>=w: raise UB('shift')
        if op=='shl': return (a<<b)&m
        if op=='lshr': return a>>b
        return (signed(a,w)>>b)&m
    if b==0: raise UB('division by zero')
    if op=='udiv': return a//b
    if op=='urem': return a%b
    sa,sb=signed(a,w),signed(b,w)
    q=abs(sa)//abs(sb)
    if (sa<0)!=(sb<0): q=-q
    if op=='sdiv': return q&m
    if op=='srem': return (sa-q*sb)&m
    raise ValueError(op)

def inot(a):
    if type(a) is int: return 1-a
    if a.op=='xor' and a.args[1]==1 and type(a.args[1]) is int: return a.args[0]
    return mkraw('xor',1,a,1)

NEGP={'eq':'ne','ne':'eq','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt'}
SWAP={'eq':'eq','ne':'ne','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle','ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}
def icmp(pred,w,a,b):
    if type(a) is int and type(b) is int:
        if pred[0]=='s': a,b=signed(a,w),signed(b,w)
        p=pred[-2:]
        return int({'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[p])
    if a is b: return int(pred in('eq','sle','sge','ule','uge'))
    if type(a) is int: a,b,pred=b,a,SWAP[pred]
    if w==1 and type(b) is int and pred in('eq','ne'):
        return a if (b==1)==(pred=='eq') else inot(a)
    # (zext/select of constants) == const
    if type(b) is int and pred in('eq','ne') and a.op=='zext':
        iw=a.args[0].ty
        if b>>iw: return int(pred=='ne')
        return icmp(pred,iw,a.args[0],b)
    if type(b) is int and pred in('eq','ne') and a.op=='ite' and type(a.args[1]) is int and type(a.args[2]) is int:
        x=int(a.args[1]==b); y=int(a.args[2]==b)
        if pred=='ne': x,y=1-x,1-y
        if x==y: return x
        return a.args[0] if x else inot(a.args[0])
    if pred=='ne': return inot(mkraw('icmp',1,'eq' ,w,a,b)) if False else mkraw('icmp',1,pred,w,a,b)
    return mkraw('icmp',1,pred,w,a,b)

def ite(c,a,b,ty):
    if type(c) is int: return a if c else b
    if a is b: return a
    if type(a) is type(b) and not issym(a) and key(a)==key(b): return a
    if ty==1:
        if type(a) is int and type(b) is int: return c if a==1 else inot(c)
        if type(a) is int: return ibin('or',1,c,b) if a==1 else ibin('and',1,inot(c),b)
        if type(b) is int: return ibin('and',1,c,a) if b==0 else ibin('or',1,inot(c),a)
    return mkraw('ite',ty,c,a,b)

def icast(op,fw,tw,a):
    if type(a) is int:
        if op=='trunc': return mask(a,tw)
        if op=='zext': return a
        if op=='sext': return mask(signed(a,fw),tw)
    if op=='trunc':
        if a.op in('sext','zext'):
            iw=a.args[0].ty
            if iw==tw: return a.args[0]
            if iw>tw: return icast('trunc',iw,tw,a.args[0])
            return icast(a.op,iw,tw,a.args[0])
        if a.op=='trunc': return icast('trunc',a.args[0].ty,tw,a.args[0])
        if a.op=='or':
            for x,y in(a.args,a.args[::-1]):
                l,h=span(x,fw)
                if l>=tw or h<=l: return icast('trunc',fw,tw,y)
        if a.op in('shl','or') and span(a,fw)[0]>=tw: return 0
    if op=='zext' and a.op=='zext': return icast('zext',a.args[0].ty,tw,a.args[0])
    if op=='sext' and a.op=='sext': return icast('sext',a.args[0].ty,tw,a.args[0])
    if op=='sext' and a.op=='zext': return icast('zext',a.args[0].ty,tw,a.args[0])
    return mkraw(op,tw,a)

def ovf(op,w,a,b):
    """overflow flag of {s,u}{add,sub,mul}.with.overflow"""
    if type(a) is int and type(b) is int:
        if op[0]=='s':
            x,y=signed(a,w),signed(b,w); lo,hi=-(1<<(w-1)),(1<<(w-1))-1
        else:
            x,y=a,b; lo,hi=0,(1<<w)-1
        r={'add':x+y,'sub':x-y,'mul':x*y}[op[1:]]
        return int(not lo<=r<=hi)
    if type(b) is int and b==0 and op[1:] in('add','sub','mul'): return 0
    if type(b) is int and b==1 and op[1:]=='mul': return 0
    return mkraw('ovf',1,op,w,a,b)

# ------------------------------------------------------------------ doubles
def c_fdiv(a,b):
    if b==0:
        if a==0 or a!=a: return NAN
        if b!=b: return NAN
        return math.copysign(INF,a)*math.copysign(1.0,b)
    try: return a/b
    except OverflowError: return INF
def c_frem(a,b): return LIBM2['fmod'](a,b)

def fbin(op,a,b):
    if type(a) is float and type(b) is float:
        if op=='fadd': return a+b
        if op=='fsub': return a-b
        if op=='fmul': return a*b
        if op=='fdiv': return c_fdiv(a,b)
        if op=='frem': return c_frem(a,b)
    if type(a) is float and a!=a: return NAN
    if type(b) is float and b!=b: return NAN
    return mkraw(op,'f',a,b)

def fneg(a):
    if type(a) is float: return bits2d(d2bits(a)^(1<<63))
    if a.op=='fneg': return a.args[0]
    return mkraw('fneg','f',a)

def fun(op,a):
    if type(a) is float: return fun_c(op,a)
    if op=='fabs' and a.op in('fabs','sqrt'): return a
    if op=='fabs' and a.op=='fneg': return fun('fabs',a.args[0])
    if op in('trunc','floor','ceil','round','rint') and a.op in('trunc','floor','ceil','round','rint','sitofp','uitofp'): return a
    return mkraw(op,'f',a)

def fun_c(op,a):
    if op=='fabs': return bits2d(d2bits(a)&0x7fffffffffffffff)
    if op=='sqrt':
        if a!=a or a<0: return NAN
        return a if a==INF else math.sqrt(a)
    if op in LIBM1: return LIBM1[op](a)
    if a!=a or math.isinf(a): return a
    if op=='trunc': return math.copysign(float(math.trunc(a)),a)
    if op=='floor': return math.copysign(float(math.floor(a)),a) if math.floor(a)==0 else float(math.floor(a))
    if op=='ceil': return math.copysign(float(math.ceil(a)),a)
    if op=='round':
        t=float(math.trunc(a)); d=a-t
        if d>=0.5: t+=1.0
        elif d<=-0.5: t-=1.0
        return math.copysign(t,a)
    if op in('rint','roundeven','nearbyint'): return math.copysign(float(round(a)),a)
    raise ValueError(op)

def fun2(op,a,b):
    if type(a) is float and type(b) is float:
        if op in LIBM2: return LIBM2[op](a,b)
        if op=='copysign': return math.copysign(a,b) if a==a else a
        if op in('minnum','maxnum','minimumnum','maximumnum'):
            if a!=a: return b
            if b!=b: return a
            if a==b: return (a if math.copysign(1,a)<0 else b) if op.startswith('min') else (b if math.copysign(1,a)<0 else a)
            return min(a,b) if op.startswith('min') else max(a,b)
        if op in('minimum','maximum'):
            if a!=a or b!=b: return NAN
            if a==b: return (a if math.copysign(1,a)<0 else b) if op=='minimum' else (b if math.copysign(1,a)<0 else a)
            return min(a,b) if op=='minimum' else max(a,b)
    if op=='copysign' and type(b) is float:
        return fun('fabs',a) if math.copysign(1,b)>0 else fneg(fun('fabs',a))
    return mkraw(op,'f',a,b)

def fma(a,b,c):
    if type(a) is float and type(b) is float and type(c) is float: return _fma(a,b,c)
    return mkraw('fma','f',a,b,c)

def powi(a,n):
    """llvm.powi with constant exponent: compiler-rt's square-and-multiply"""
    if type(n) is not int: return mkraw('powi','f',a,n)
    e=signed(n,32); r=1.0; first=True; x=a; recip=e<0; e=abs(e)
    while True:
        if e&1: r=fbin('fmul',r,x) if not first else x; first=False if e&1 else first
        e>>=1
        if e==0: break
        x=fbin('fmul',x,x)
    return fbin('fdiv',1.0,r) if recip else r

def fcmp(pred,a,b):
    """pred: oeq ogt oge olt ole one ord ueq ugt uge ult ule une uno"""
    if pred=='true': return 1
    if pred=='false': return 0
    if a is b and type(a) is N:
        k=pred[1:]
        if k in('lt','gt','ne'): pred='uno' if pred[0]=='u' else 'false'
        elif k in('le','ge','eq'): pred='ord' if pred[0]=='o' else 'true'
        if pred in('true','false'): return int(pred=='true')
    if type(a) is float and type(b) is float:
        un=(a!=a) or (b!=b)
        if pred=='ord': return int(not un)
        if pred=='uno': return int(un)
        if un: return int(pred[0]=='u')
        p=pred[1:]
        return int({'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[p])
    if (type(a) is float and a!=a) or (type(b) is float and b!=b):
        return int(pred[0]=='u')
    sw={'lt':'gt','gt':'lt','le':'ge','ge':'le','eq':'eq','ne':'ne','rd':'rd','no':'no'}
    if type(a) is float: a,b,pred=b,a,pred[0]+sw[pred[1:]]
    return mkraw('fcmp',1,pred,a,b)

def itofp(op,w,a):
    if type(a) is int: return float(signed(a,w)) if op=='sitofp' else float(a)
    return mkraw(op,'f',a)

def fptoi_sat(op,w,a):
    """saturating conversion; op fptosi/fptoui"""
    if type(a) is float:
        if a!=a: return 0
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if op=='fptosi' else (0,(1<<w)-1)
        if a==INF: v=hi
        elif a==-INF: v=lo
        else: v=min(max(math.trunc(a),lo),hi)
        return mask(v,w)
    return mkraw(op,w,a)

def d2i(a):
    if type(a) is float: return d2bits(a)
    if a.op=='i2d': return a.args[0]
    return mkraw('d2i',64,a)
def i2d(a):
    if type(a) is int: return bits2d(a)
    if a.op=='d2i': return a.args[0]
    return mkraw('i2d','f',a)

# ------------------------------------------------------------------ traversal and evaluation
def topo(roots):
    out=[]; seen=set(); st=[(r,False) for r in roots if type(r) is N]
    while st:
        n,d=st.pop()
        if d: out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id); st.append((n,True))
        for a in n.args:
            if type(a) is N and a.id not in seen: st.append((a,False))
    return out

def evaluate(roots,env):
    """bit-exact evaluation; env: var name -> value (unsigned int or float)"""
    val={}
    g=lambda a: val[a.id] if type(a) is N else a
    for n in topo(roots):
        o=n.op; A=n.args
        if o=='var': v=env[A[0]]
        elif o in('fadd','fsub','fmul','fdiv','frem'): v=fbin(o,g(A[0]),g(A[1]))
        elif o=='fneg': v=fneg(g(A[0]))
        elif o=='icmp': v=icmp(A[0],A[1],g(A[2]),g(A[3]))
        elif o=='fcmp': v=fcmp(A[0],g(A[1]),g(A[2]))
        elif o=='ite': v=g(A[1]) if g(A[0]) else g(A[2])
        elif o in('trunc','zext','sext') and n.ty!='f': v=icast(o,A[0].ty,n.ty,g(A[0]))
        elif o=='ovf': v=ovf(A[0],A[1],g(A[2]),g(A[3]))
        elif o in('sitofp','uitofp'): v=itofp(o,A[0].ty,g(A[0]))
        elif o in('fptosi','fptoui'): v=fptoi_sat(o,n.ty,g(A[0]))
        elif o=='d2i': v=d2bits(g(A[0]))
        elif o=='i2d': v=bits2d(g(A[0]))
        elif o=='signbit': v=d2bits(g(A[0]))&(1<<63)
        elif o=='fma': v=fma(g(A[0]),g(A[1]),g(A[2]))
        elif n.ty=='f' and len(A)==1: v=fun(o,g(A[0]))
        elif n.ty=='f' and len(A)==2: v=fun2(o,g(A[0]),g(A[1]))
        else: v=ibin(o,n.ty,g(A[0]),g(A[1]))
        val[n.id]=v
    return [g(r) for r in roots]

def substitute(roots,sub):
    """rebuild terms with the nodes in sub (id -> term) replaced"""
    m=dict(sub)
    g=lambda a: m.get(a.id,a) if type(a) is N else a
    for n in topo(roots):
        if n.id in m: continue
        o=n.op; A=n.args
        if o=='var': continue
        B=tuple(g(a) for a in A)
        if all(x is y for x,y in zip(A,B)): continue
        if o in('fadd','fsub','fmul','fdiv','frem'): v=fbin(o,*B)
        elif o=='fneg': v=fneg(*B)
        elif o=='icmp': v=icmp(*B)
        elif o=='fcmp': v=fcmp(*B)
        elif o=='ite': v=ite(*B,n.ty)
        elif o in('trunc','zext','sext') and n.ty!='f': v=icast(o,A[0].ty,n.ty,B[0])
        elif o=='ovf': v=ovf(*B)
        elif o in('sitofp','uitofp'): v=itofp(o,A[0].ty,B[0])
        elif o in('fptosi','fptoui'): v=fptoi_sat(o,n.ty,B[0])
        elif o=='d2i': v=d2i(B[0])
        elif o=='i2d': v=i2d(B[0])
        elif o=='signbit': v=d2bits(B[0])&(1<<63) if type(B[0]) is float else mkraw(o,64,B[0])
        elif o=='fma': v=fma(*B)
        elif n.ty=='f' and len(A)==1: v=fun(o,B[0])
        elif n.ty=='f' and len(A)==2: v=fun2(o,*B)
        else: v=ibin(o,n.ty,*B)
        m[n.id]=v
    return [g(r) for r in roots]
