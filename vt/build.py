"""Rebuilds the harness and /repo (LLVM IR for the symbolic executor, native binaries for replay)."""
import os, subprocess, shutil, glob, struct, time, threading
from . import ll, fmt

ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.path.join(ROOT,'build')
HARN=os.path.join(ROOT,'harness')
TOOLCHAIN='stable-x86_64-unknown-linux-gnu'

class BuildError(Exception): pass

def env(extra):
    e=dict(os.environ)
    e['HOME']=e.get('HOME','/root')
    e['PATH']=e['HOME']+'/.cargo/bin:'+e.get('PATH','/usr/bin:/bin')
    e['RUSTUP_TOOLCHAIN']=TOOLCHAIN
    e['CARGO_NET_OFFLINE']='true'; e['CARGO_TERM_COLOR']='never'; e['CARGO_INCREMENTAL']='0'
    e.pop('RUSTC_WRAPPER',None); e['RUSTC_WRAPPER']=''
    for k in('CARGO_ENCODED_RUSTFLAGS','RUSTDOCFLAGS','CARGO_BUILD_TARGET'): e.pop(k,None)
    e.update(extra)
    return e

def cargo(args,extra,target):
    e=env(dict(extra,CARGO_TARGET_DIR=target))
    r=subprocess.run(['cargo']+args+['--offline'],cwd=HARN,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode!=0: raise BuildError('cargo %s failed:\n%s'%(' '.join(args),r.stdout[-4000:]))

IRFLAGS=('--emit=llvm-ir -C opt-level=0 -C codegen-units=1 -C panic=abort -C overflow-checks=on '
         '-C debug-assertions=on -C debuginfo=0 -C no-vectorize-loops -C no-vectorize-slp -Z share-generics=no')

def build_ir():
    tgt=os.path.join(BUILD,'ir')
    for f in glob.glob(os.path.join(tgt,'debug','deps','*.ll')): os.unlink(f)
    # remove fingerprints of the crates under test so that the .ll files are always regenerated
    for d in glob.glob(os.path.join(tgt,'debug','.fingerprint','tofas*')): shutil.rmtree(d)
    cargo(['build','--lib'],{'RUSTFLAGS':IRFLAGS,'RUSTC_BOOTSTRAP':'1'},tgt)   # generic code of the standard library is instantiated here
    m=ll.Module(); files=sorted(glob.glob(os.path.join(tgt,'debug','deps','tofas*.ll')))
    if len(files)<3: raise BuildError('expected three IR files, found %r'%files)
    for k,f in enumerate(files): m.parse(open(f).read(),'m%d.'%k)
    # the harness's text sink and the growth of a String by a piece of text are modelled in vt/fmt.py
    for n in[n for n in m.funcs if n=='@h_text_out' or fmt.STRING.search(n)]: m.funcs.pop(n)
    return m

def build_native():
    cargo(['build','--bin','replay'],{},os.path.join(BUILD,'dev'))
    cargo(['build','--bin','replay','--release'],{},os.path.join(BUILD,'rel'))

def fbits(x): return struct.unpack('<Q',struct.pack('<d',x))[0]
def fofbits(b): return struct.unpack('<d',struct.pack('<Q',b))[0]

class Native:
    """A replay process.  call() returns ('ok',floats,ints) or ('panic',)."""
    def __init__(self,profile='dev'):
        self.path=os.path.join(BUILD,'dev/debug/replay' if profile=='dev' else 'rel/release/replay')
        self.p=None; self.profile=profile; self.calls=0
    def start(self):
        self.p=subprocess.Popen([self.path],stdin=subprocess.PIPE,stdout=subprocess.PIPE,text=True,bufsize=1)
    def call(self,name,f=(),i=()):
        return self.batch([(name,f,i)])[0]
    def batch(self,reqs):
        if self.p is None: self.start()
        out=[]
        for k in range(0,len(reqs),32):
            part=reqs[k:k+32]
            for name,f,i in part:
                self.p.stdin.write('%s %s %s\n'%(name,','.join('%x'%fbits(float(x)) for x in f),','.join(str(int(x)) for x in i)))
            self.p.stdin.flush()
            for j,r in enumerate(part):
                pr=self.p
                t=threading.Timer(20,pr.kill); t.daemon=True; t.start()
                l=pr.stdout.readline(); t.cancel()
                if not l:   # the process died (abort, stack overflow) or did not return in 20 s: restart with the rest
                    self.p.wait(); self.start(); out.append(('panic',))
                    out+=self.batch(part[j+1:]); break
                self.calls+=1
                if l.startswith('ok'):
                    w=l.rstrip('\n').split(' ')
                    out.append(('ok',[fofbits(int(s,16)) for s in w[1].split(',')],[int(s) for s in w[2].split(',')])+((bytes.fromhex(w[3]).decode(),) if len(w)>3 else ()))
                else: out.append(('panic',))
        return out
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait(); self.p=None
