#!/usr/bin/env python3
"""Planted bugs, in scratch copies only (make them with tools/mkscratch.sh).
 seed.py ID: make seeded/ID's patch from a spec, then confirm it in a scratch copy:
 builds, stable tests pass, demo passes before and fails after.
 seed.py new ID PROP FILE <<< python expression...   (see make())"""
import subprocess,sys,os,json,shutil
V=os.environ.get('SEED_DIR','/verif/seeded')
# scratch copies of the repository and of this directory (pointing at that copy); see DESIGN
R=os.environ.get('SEED_REPO','/tmp/sr'); VF=os.environ.get('SEED_VERIF','/tmp/sv')
def sh(c,cwd=None,t=1500):
    r=subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,timeout=t); return r.returncode,r.stdout+r.stderr
DEMO='''#!/bin/bash
# Builds main.rs (beside this file) against the repository in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
mkdir "$d/src" && cp "$here/main.rs" "$d/src/" && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
@DEPS@
[profile.release]
debug = false
lto = "off"
codegen-units = 16
T
cd "$d"
RUSTFLAGS="@FLAGS@" CARGO_TARGET_DIR="$d/target" cargo build --release --offline -q >"$d/log" 2>&1 || { tail -n 40 "$d/log" >&2; exit 99; }
timeout -k 5 200 "$d/target/release/demo"
'''
def make(id,prop,edits,deps,main,needs,breaks,flags=""):
    """edits: [(file, old, new)]"""
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    st=sh('git status --porcelain',R)[1].strip()
    assert not st, st
    try:
        for f,o,n in edits:
            p=R+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,s.count(o),o); open(p,'w').write(s.replace(o,n))
        open(d+'/patch.diff','w').write(subprocess.run(['git','diff'],cwd=R,capture_output=True,text=True).stdout)
    finally: sh('git checkout -- .',R)
    open(d+'/demo.sh','w').write(DEMO.replace('@FLAGS@',flags or '-Awarnings').replace('@DEPS@',deps.replace('REPO','$repo'))); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.rs','w').write(main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
def confirm(id,tests=True):
    d=f'{V}/{id}'; W=R
    sh(f'git -C {W} checkout -q -- .')
    c,o=sh(f'bash {d}/demo.sh',W)
    if c: return f'{id}: demo fails on the clean tree ({c}) {o[-600:]}'
    c,o=sh(f'git apply {d}/patch.diff',W)
    if c: return f'{id}: does not apply {o}'
    c,o=sh(f'bash {d}/demo.sh',W)
    if c in(0,99): return f'{id}: demo on patched: {c} {o[-1500:]}'
    res=f'{id}: demo ok ({c}: {o.strip().splitlines()[-1][:100] if o.strip() else ""})'
    if tests:
        c,o=sh('. /opt/vp/env.sh; timeout 1200 cargo test --release --offline --locked $PKGS --no-fail-fast -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|^error|test result: FAILED|could not compile"',W)
        sh('git checkout -- .',W)
        res+=' tests '+('pass' if not o.strip() else 'FAIL '+o[:600])
    sh('git checkout -- .',W)
    return res
def checks(id,ids=None):
    d=f'{V}/{id}'; p=json.load(open(d+'/meta.json'))['property']
    assert not sh('git status --porcelain',R)[1].strip()
    try:
        assert sh(f'git apply {d}/patch.diff',R)[0]==0
        for i in ids or [p]:
            c,o=sh(f'{VF}/check.sh {i}')
            l=[x for x in o.splitlines() if x.startswith(('violated','ERROR','error'))]
            print(id,i,{0:'MISSED',1:'CAUGHT'}.get(c,f'ERR{c}'),(l[0][:220] if l else ''),flush=True)
    finally: sh('git checkout -- .',R)
if __name__=='__main__':
    for i in sys.argv[2:]:
        if sys.argv[1] in('confirm','all'): print(confirm(i),flush=True)
        if sys.argv[1]=='demo': print(confirm(i,False),flush=True)
        if sys.argv[1] in('check','all'): checks(i)
