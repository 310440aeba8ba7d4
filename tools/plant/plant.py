#!/usr/bin/env python3
"""usage: plant.py gen|validate|check [ids...]"""
import sys, os, subprocess, json, shutil, importlib.util, tempfile, time
R=os.environ.get('R','/repo'); V=os.environ.get('V','/verif'); W='/tmp/w'; SEED=os.environ.get('SEED','/verif/seeded')
spec=importlib.util.spec_from_file_location('bugs','/tmp/plant/bugs.py'); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
BUGS=m.BUGS
CARGO='''[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[workspace]

[[bin]]
name = "demo"
path = "demo.rs"

[dependencies]
serde = {{ version = "1.0", features = ["derive"] }}
serde_bytes = "0.11"
ser-write = {{ path = "@REPO@", default-features = false, features = [{sw}] }}
ser-write-json = {{ path = "@REPO@/ser-write-json", default-features = false, features = [{fj}] }}
ser-write-msgpack = {{ path = "@REPO@/ser-write-msgpack", default-features = false, features = [{fm}] }}
{extra}
[profile.dev]
debug = 0
'''
SH='''#!/bin/bash
# builds and runs demo.rs against the crates of the current directory, in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'find "$t" -delete' EXIT
cp "$here/demo.rs" "$t/"
sed "s#@REPO@#$PWD#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$here/Cargo.lock" "$t/" 2>/dev/null
cd "$t" && CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo run --offline --quiet {rel}
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def apply_edits(root, b):
    for (f, old, new, *n) in b['edits']:
        p=os.path.join(root,f); s=open(p).read()
        k=n[0] if n else None
        c=s.count(old)
        if k is None:
            assert c==1, (b['id'], f, 'count', c, old)
            s=s.replace(old,new)
        else:
            parts=s.split(old); assert len(parts)>k+1,(b['id'],'only',c)
            s=old.join(parts[:k+1])+new+old.join(parts[k+1:])
        open(p,'w').write(s)
def reset(): 
    r=sh(f'git -C {W} checkout -q -- .'); assert r.returncode==0, r.stderr
def gen(b):
    d=f"{SEED}/{b['id']}"; os.makedirs(d,exist_ok=True)
    reset(); apply_edits(W,b)
    diff=sh(f'git -C {W} diff').stdout
    open(d+'/patch.diff','w').write(diff); reset()
    feat=b.get('feat','std')
    q=lambda l: ', '.join(f'"{x}"' for x in l if x and x!='none')
    open(d+'/Cargo.toml.in','w').write(CARGO.format(sw=q([feat]+b.get('sw',[])), fj=q([feat]+b.get('fj',[])), fm=q([feat]), extra=b.get('extra','')))
    open(d+'/demo.rs','w').write(b['demo'])
    open(d+'/demo.sh','w').write(SH.format(rel='--release' if b.get('rel') else '')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    return d
def demo(d): 
    return sh(f'cd {W} && timeout 300 bash {d}/demo.sh')
BASE=json.load(open('/opt/vp/BASELINE.json'))
def baseline_ids():
    b=BASE
    for k in ('stable','passed','tests'):
        if isinstance(b,dict) and k in b: return set(b[k])
    return set(b)
def tests():
    r=sh('bash /tmp/plant/test.sh /tmp/plant/out.json')
    o=json.load(open('/tmp/plant/out.json'))
    miss=baseline_ids()-set(o['passed'])
    return miss, r
def validate(b, skip_clean=False):
    d=gen(b)
    r=demo(d)
    if r.returncode!=0: print(b['id'],'DEMO FAILS CLEAN',r.stdout[-500:],r.stderr[-2500:]); return False
    r=sh(f'git -C {W} apply {d}/patch.diff'); assert r.returncode==0, r.stderr
    try:
        r=demo(d)
        if r.returncode==0: print(b['id'],'DEMO PASSES PATCHED'); return False
        tail=[l for l in r.stderr.splitlines() if l.strip()][-3:]
        if 'could not compile' in r.stderr or 'error[' in r.stderr: print(b['id'],'COMPILE',r.stderr[-1500:]); return False
        t0=time.time(); miss,_=tests()
        if miss: print(b['id'],'TESTS CATCH IT',len(miss),sorted(miss)[:4]); return False
        print(b['id'],'ok',f'{time.time()-t0:.0f}s',' | '.join(tail)[:200])
        return True
    finally: reset()
def check(b, props=None):
    d=f"{SEED}/{b['id']}"
    r=sh(f'git -C {R} apply {d}/patch.diff'); assert r.returncode==0,(b['id'],r.stderr)
    try:
        for p in props or [b['prop']]:
            t0=time.time(); r=sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p} quick')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(b['id'],p,'rc',r.returncode,'CAUGHT' if v and r.returncode==1 else 'missed',f'{time.time()-t0:.0f}s', r.stderr[-300:] if r.returncode not in (0,1) else '', flush=True)
    finally: sh(f'git -C {R} checkout -- .')
ids=sys.argv[2:]
cmd=sys.argv[1]
props=None
if '--' in ids: i=ids.index('--'); props=ids[i+1:]; ids=ids[:i]
sel=[b for b in BUGS if not ids or b['id'] in ids]
for b in sel:
    if cmd=='gen': gen(b)
    elif cmd=='validate': validate(b)
    elif cmd=='check': check(b,props)
    sys.stdout.flush()
