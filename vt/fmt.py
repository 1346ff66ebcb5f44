"""Environment model of core::fmt: Arguments are decoded from the code's own memory (template bytes and
argument array, as documented in core/src/fmt/mod.rs), user Display impls are executed symbolically, and
numbers become symbolic pieces of text.  The trusted part is how core prints an integer or a double with
given options (padding, sign, number of decimals, correct rounding)."""
import re
from fractions import Fraction as F
from decimal import Decimal, Context, ROUND_HALF_EVEN
from . import term, ll
from .ll import Unsupported
from .term import N

PLUS,ZERO,WIDTH,PREC=1<<21,1<<24,1<<27,1<<28
INTS=dict(a=(8,True),h=(8,False),s=(16,True),t=(16,False),l=(32,True),m=(32,False),x=(64,True),y=(64,False),i=(64,True),j=(64,False))
TEXTLEN=1<<20
STRING=re.compile(r'5alloc6string.*6String(8push_str|4push)C\w*$|5alloc6stringNt\w+_6StringNt.*5Write(9write_str|10write_char)C\w*$')

class Opts:
    __slots__=('fill','align','plus','zero','width','prec')
    def __init__(s,flags=0x20|(3<<29),width=0,prec=0):
        s.fill=chr(flags&0x1fffff); s.align=(flags>>29)&3; s.plus=bool(flags&PLUS); s.zero=bool(flags&ZERO)
        s.width=width if flags&WIDTH else 0; s.prec=prec if flags&PREC else None
    def key(s): return (s.fill,s.align,s.plus,s.zero,s.width,s.prec)
    def zeropad(s): return s.zero or s.fill=='0' and s.align==1 and not s.plus
    def __repr__(s): return '{:%s}'%(s.key(),)

class Num:
    """a printed number: value term, kind (i or f), width in bits and signedness for integers, options"""
    __slots__=('v','kind','w','sg','o')
    def __init__(s,v,kind,w,sg,o): s.v=v; s.kind=kind; s.w=w; s.sg=sg; s.o=o
    def __repr__(s): return 'Num(%s %s)'%(s.kind,s.o)

def push(out,x):
    if isinstance(x,str):
        if not x: return
        if out and isinstance(out[-1],str): out[-1]+=x; return
    out.append(x)

def raw(run,ptr,n):
    b=[]
    for i in range(n):
        c=run.load(('i',8),ptr+i)
        if type(c) is not int: raise Unsupported('symbolic text')
        b.append(c)
    return bytes(b)

def text_at(run,ptr,n):
    """the pieces of the string slice (ptr,n)"""
    t=run.texts.get(ptr)
    if t is not None:
        if n!=TEXTLEN: raise Unsupported('part of a formatted string')
        return list(t)
    if type(n) is not int: raise Unsupported('symbolic string length')
    return [raw(run,ptr,n).decode()] if n else []

def emit(run,data,vt,pieces):
    """write pieces to the fmt::Write (data, vt)"""
    fn=run.load(ll.PTR,vt+24); name=run.e.fnptr.get(fn)
    for x in pieces:
        if run.sinkvt is not None and vt==run.sinkvt: push(run.sinks[-1],x); continue
        if name is None: raise Unsupported('write_str through an unknown vtable')
        if STRING.search(name): append(run,data,x); continue
        if isinstance(x,str):
            b=x.encode(); p=run.alloc(max(1,len(b))); o=run.objs[p>>32]; o.data[:len(b)]=b; n=len(b)
        else: p,n=mktext(run,[x]),TEXTLEN
        f=run.m.funcs.get(name)
        if f is None: raise Unsupported('write_str of '+name)
        r=run.exec(f,[data,p,n])
        if type(r) is not int: raise Unsupported('symbolic fmt::Result')
        if r: return r
    return 0

def append(run,st,x):
    """String at st (capacity, pointer, length) grows by one piece"""
    n=run.load(('i',64),st+16)
    t=text_at(run,run.load(ll.PTR,st+8),n) if n!=0 else []
    push(t,x); store_string(run,st,t)
def store_string(run,st,t):
    if all(isinstance(x,str) for x in t):
        b=''.join(t).encode(); p=run.alloc(max(1,len(b))); run.objs[p>>32].data[:len(b)]=b; k=len(b)
    else: p,k=mktext(run,t),TEXTLEN
    run.store(('i',64),k,st); run.store(ll.PTR,p,st+8); run.store(('i',64),k,st+16)

def mktext(run,pieces):
    p=run.alloc(1); run.texts[p]=pieces; return p

def decode(run,tmpl,args):
    """yield str pieces and (index, Opts)"""
    if type(tmpl) is N or type(args) is N: raise Unsupported('symbolic format string')
    if args&1:
        n=args>>1
        yield raw(run,tmpl,n).decode(); return
    p=tmpl; idx=0
    def u(n):
        nonlocal p
        v=int.from_bytes(raw(run,p,n),'little'); p+=n; return v
    while True:
        n=u(1)
        if n==0: return
        if n<0x80: s=raw(run,p,n).decode(); p+=n; yield s
        elif n==0x80:
            k=u(2); s=raw(run,p,k).decode(); p+=k; yield s
        else:
            flags,width,prec=0x20|(3<<29),0,0
            if n&1: flags=u(4)
            if n&2: width=u(2)
            if n&4: prec=u(2)
            if n&8: idx=u(2)
            if n&16: width=run.load(('i',16),args+16*width+8)
            if n&32: prec=run.load(('i',16),args+16*prec+8)
            if type(width) is N or type(prec) is N: raise Unsupported('symbolic width')
            yield (idx,flags,width,prec); idx+=1

def write(run,data,vt,tmpl,args):
    for x in decode(run,tmpl,args):
        if isinstance(x,str): r=emit(run,data,vt,[x])
        else:
            k,flags,width,prec=x
            val=run.load(ll.PTR,args+16*k); fn=run.load(ll.PTR,args+16*k+8)
            f=run.alloc(24); run.store(ll.PTR,data,f); run.store(ll.PTR,vt,f+8)
            run.store(('i',32),flags,f+16); run.store(('i',16),width,f+20); run.store(('i',16),prec,f+22)
            name=run.e.fnptr.get(fn)
            if name is None: raise Unsupported('unknown formatter')
            r=run.call(name,[val,f])
        if type(r) is not int: raise Unsupported('symbolic fmt::Result')
        if r: return r
    return 0

def fopts(run,f):
    fl,w,p=run.load(('i',32),f+16),run.load(('i',16),f+20),run.load(('i',16),f+22)
    if any(type(x) is N for x in(fl,w,p)): raise Unsupported('symbolic format options')
    return Opts(fl,w,p)

def pad(run,f,pieces):
    o=fopts(run,f)
    data,vt=run.load(ll.PTR,f),run.load(ll.PTR,f+8)
    if o.width or o.prec is not None:
        least=sum(len(x) if isinstance(x,str) else max(x.o.width,min(3,1+(1+x.o.prec if x.o.prec else 0))) for x in pieces)   # NaN, inf
        if o.prec is None and any(not isinstance(x,str) for x in pieces):
            if least>=o.width: return emit(run,data,vt,pieces)
            if len(pieces)==1 and not pieces[0].o.width:
                # the text of one number, padded as text: to the left unless told otherwise
                n=pieces[0]; q=Opts(); q.fill=o.fill; q.align=0 if o.align==3 else o.align; q.plus=n.o.plus; q.zero=False; q.width=o.width; q.prec=n.o.prec
                return emit(run,data,vt,[Num(n.v,n.kind,n.w,n.sg,q)])
        if any(not isinstance(x,str) for x in pieces): raise Unsupported('padding of a formatted string')
        s=''.join(pieces)
        if o.prec is not None: s=s[:o.prec]
        k=max(0,o.width-len(s)); l=k if o.align==1 else k//2 if o.align==2 else 0
        pieces=[o.fill*l+s+o.fill*(k-l)]
    return emit(run,data,vt,pieces)

def intrinsic(run,n,a):
    """core::fmt and alloc::fmt entry points; NotImplemented when n is something else"""
    if 'h_text_out'==n:
        for x in text_at(run,a[0],a[1]): push(run.sinks[-1],x)
        return None
    m=STRING.search(n)
    if m:
        k=m.group(1) or m.group(2)
        if k in('4push','10write_char'):
            if type(a[1]) is not int: raise Unsupported('symbolic character')
            append(run,a[0],chr(a[1]))
        else:
            for x in text_at(run,a[1],a[2]): append(run,a[0],x)
        return 0
    if '4core3fmt' in n:
        if n.endswith('3fmt5write'): return write(run,*a)
        m=re.search(r'3num3imp([a-z])N.*7Display3fmt$',n)
        if m:
            w,sg=INTS[m.group(1)]
            return emit(run,run.load(ll.PTR,a[1]),run.load(ll.PTR,a[1]+8),[Num(run.load(('i',w),a[0]),'i',w,sg,fopts(run,a[1]))])
        if re.search(r'5floatdN.*7Display3fmt$',n):
            return emit(run,run.load(ll.PTR,a[1]),run.load(ll.PTR,a[1]+8),[Num(run.load(ll.F64,a[0]),'f',64,True,fopts(run,a[1]))])
        if re.search(r'9Formatter9write_str',n) or re.search(r'9FormatterNtB\d+_5Write9write_str$',n):
            return emit(run,run.load(ll.PTR,a[0]),run.load(ll.PTR,a[0]+8),text_at(run,a[1],a[2]))
        if re.search(r'9Formatter.*10write_char',n):
            if type(a[1]) is not int: raise Unsupported('symbolic character')
            return emit(run,run.load(ll.PTR,a[0]),run.load(ll.PTR,a[0]+8),[chr(a[1])])
        if re.search(r'9Formatter.*9write_fmt',n): return write(run,run.load(ll.PTR,a[0]),run.load(ll.PTR,a[0]+8),a[1],a[2])
        if n.endswith('9Formatter3pad'): return pad(run,a[0],text_at(run,a[1],a[2]))
        if re.search(r'3fmt(s\w*_)?e?NtB\w*_7Display3fmt$',n) or re.search(r'_NtB\d+_7Display3fmt$',n) and re.search(r'3fmteN',n): return pad(run,a[2],text_at(run,a[0],a[1]))
    if n.endswith('5alloc3fmt6format12format_inner'):
        run.sinks.append([]); dummy=run.alloc(32)
        # a vtable of our own: emit() recognises it by address
        old=run.sinkvt; run.sinkvt=dummy
        run.store(ll.PTR,0,dummy+24)
        write(run,dummy,dummy,a[1],a[2])
        t=run.sinks.pop(); run.sinkvt=old
        store_string(run,a[0],t)
        return None
    if re.search(r'5alloc(3vecINtB\w+_3VechE|7raw_vecINtB\w+_6RawVechE).*4Drop4drop',n): return None
    return NotImplemented

# ---------------------------------------------------------------- concrete rendering (for validation)
def padnum(o,neg,body):
    sign='-' if neg else '+' if o.plus else ''
    k=max(0,o.width-len(sign)-len(body))
    if o.zero: return sign+'0'*k+body
    s=sign+body
    l=k if o.align in(1,3) else k//2 if o.align==2 else 0
    return o.fill*l+s+o.fill*(k-l)
CTX=Context(prec=2000,rounding=ROUND_HALF_EVEN)
def show(x):
    """one concrete piece"""
    if isinstance(x,str): return x
    o,v=x.o,x.v
    if x.kind=='i':
        if x.sg: v=term.signed(v,x.w)
        return padnum(o,v<0,str(abs(v)))
    if v!=v:
        k=max(0,o.width-3); l=k if o.align in(1,3) else k//2 if o.align==2 else 0
        return (' ' if o.zero else o.fill)*l+'NaN'+(' ' if o.zero else o.fill)*(k-l)
    import math
    neg=math.copysign(1,v)<0
    if math.isinf(v):
        o2=Opts(); o2.width=o.width; o2.plus=o.plus; o2.align=o.align; o2.fill=' ' if o.zero else o.fill; o2.zero=False
        return padnum(o2,neg,'inf')
    if o.prec is None:
        s=format(Decimal(repr(abs(v))),'f')
        if s.endswith('.0'): s=s[:-2]
        return padnum(o,neg,s)
    d=Decimal(abs(v)).quantize(Decimal(1).scaleb(-o.prec),context=CTX)
    return padnum(o,neg,format(d,'f'))
def render(pieces,env):
    vals=term.evaluate([p.v for p in pieces if not isinstance(p,str)],env)
    out=[]; k=0
    for p in pieces:
        if isinstance(p,str): out.append(p)
        else: out.append(show(Num(vals[k],p.kind,p.w,p.sg,p.o))); k+=1
    return ''.join(out)
