#!/usr/bin/env python3
"""Generate and verify the planted changes in /verif/seeded from the definitions in tools/bugs.py.
Everything is tried in a scratch copy of /repo.  Usage: plant.py [ID...]"""
import os,sys,json,shutil,subprocess,tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
sys.path.insert(0,HERE)
import bugs
DEMO='''#!/bin/bash
# Runs demo.rs against the library in the current directory (the repository).
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp Cargo.lock "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tofas = { path = "$PWD/crates/tofas" }
%s
X
export HOME="${HOME:-/root}" PATH="${HOME:-/root}/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline -q
'''
def sh(c,cwd,**k): return subprocess.run(c,cwd=cwd,shell=isinstance(c,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(ids):
    base=tempfile.mkdtemp(prefix='plant.',dir='/tmp'); repo=base+'/repo'
    sh(['cp','-a','/repo',repo],'/')
    env=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true')
    bad=0
    for b in bugs.BUGS:
        if ids and b['id'] not in ids: continue
        d=f"{ROOT}/seeded/{b['id']}"
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        sh('git checkout -q -- .',repo)
        ok=True; msg=[]
        for f,old,new in b['edits']:
            p=f'{repo}/crates/{f}'; s=open(p).read()
            if s.count(old)!=b.get('count',1): ok=False; msg.append(f'{f}: {s.count(old)} matches of {old[:40]!r}'); continue
            open(p,'w').write(s.replace(old,new))
        diff=sh('git diff',repo).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.rs','w').write(bugs.PRE+b['demo'])
        open(d+'/demo.sh','w').write(DEMO%('tofas_extras = { path = "$PWD/crates/tofas_extras" }' if 'tofas_extras' in b['demo'] else ''))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        if ok:
            r=sh([d+'/demo.sh'],repo,env=env)
            if r.returncode==0: ok=False; msg.append('demo passes with the patch: '+r.stdout[-300:])
            if 'error' in r.stdout and 'could not compile' in r.stdout: ok=False; msg.append('demo does not compile '+r.stdout[:1500])
            r=sh('cargo test --workspace --offline 2>&1',repo,env=env)
            if r.returncode: ok=False; msg.append('tests fail: '+r.stdout[-600:])
            sh('git checkout -q -- .',repo)
            r=sh([d+'/demo.sh'],repo,env=env)
            if r.returncode: ok=False; msg.append('demo fails on the clean tree: '+r.stdout[-900:])
        print(b['id'],'ok' if ok else 'BAD',*msg,flush=True)
        if not ok: bad+=1; shutil.rmtree(d)
    shutil.rmtree(base)
    return bad
sys.exit(1 if main(sys.argv[1:]) else 0)
