#!/usr/bin/env python3
"""seed.py build|check [ids]: (re)creates /verif/seeded/<id>/ from the table in seeds_*.py and
confirms each in a scratch copy: applies, builds, tests pass, demo 0 / nonzero."""
import os,sys,json,subprocess,shutil,tempfile,glob,importlib.util
V='/verif'
def load():
    S={}
    for f in sorted(glob.glob(V+'/tools/seeds_*.py')):
        sp=importlib.util.spec_from_file_location(os.path.basename(f)[:-3],f);m=importlib.util.module_from_spec(sp);sp.loader.exec_module(m)
        S.update(m.SEEDS)
    return S
SH='''#!/bin/bash
# cwd: /repo after the build. Runs demo.rs (beside this file) against the crate in the cwd.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
cp -r "$PWD/src" "$PWD/Cargo.toml" "$T/" || exit 99
[ -f "$PWD/Cargo.lock" ] && cp "$PWD/Cargo.lock" "$T/"
mkdir "$T/examples"
cp "$here/demo.rs" "$T/examples/demo.rs"
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 250 cargo run -q --offline --example demo 2> "$T/err"
rc=$?
[ $rc = 0 ] || tail -5 "$T/err"
exit $rc
'''
def sh(c,cwd=None,t=600):
    return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,timeout=t)
def build(i,s):
    d=f'{V}/seeded/{i}'
    w=f'/tmp/seedwork/{i}'
    shutil.rmtree(w,ignore_errors=True); os.makedirs('/tmp/seedwork',exist_ok=True)
    sh(f'git clone -q /repo {w}')
    for f,a,b in s['edits']:
        p=f'{w}/{f}';t=open(p).read()
        assert t.count(a)==1,(i,f,t.count(a),a)
        open(p,'w').write(t.replace(a,b))
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git diff',w).stdout)
    open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write(s['demo'].strip()+'\n')
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    r=sh(f'cargo test --offline 2>&1 | grep -E "test result|FAILED|error" | head -5',w)
    ok='20 passed' in r.stdout
    m=sh(f'bash {d}/demo.sh',w)
    sh('git checkout -q -- .',w)
    b=sh(f'bash {d}/demo.sh',w)
    shutil.rmtree(w,ignore_errors=True)
    print(i,s['property'],'tests','ok' if ok else 'FAIL '+r.stdout[-600:],'demo base',b.returncode,'mutant',m.returncode,(m.stdout+m.stderr)[-200:].strip() if m.returncode in(0,99) or b.returncode else '',b.stdout[-300:] if b.returncode else '')
def check(i,s,prop=None):
    p=prop or s['property']
    a=sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
    assert a.returncode==0,a.stderr
    try:
        r=sh(f'./run.sh {p} quick',V,1000)
    finally:
        sh('git -C /repo checkout -- .')
    l=[x for x in r.stdout.splitlines()]
    hit=any(x.startswith(f'VIOLATION property={p}') for x in l)
    print(i,p,'CAUGHT' if r.returncode==1 and hit else f'MISSED rc={r.returncode} {r.stderr[-300:]}',(l[0][:160] if l else ''),flush=True)
def fill():
    """states of the unchanged tree that track demos compare with"""
    out={}
    ks=[]
    for f in sorted(glob.glob(V+'/tools/seeds_*.py')):
        sp=importlib.util.spec_from_file_location(os.path.basename(f)[:-3],f);m=importlib.util.module_from_spec(sp);sp.loader.exec_module(m)
        ks+=getattr(m,'KEYS',[])
        H=getattr(m,'HEAD','')
    ks=list({k[3]:k for k in ks}.values())
    w='/tmp/seedwork/fill';shutil.rmtree(w,ignore_errors=True);os.makedirs(w+'/examples')
    sh(f'git -C /repo archive HEAD | tar x -C {w}')
    b=''.join('    { let mut r = sat("%s", "%s"); println!("{:?}", at(&mut r, %r)); }\n'%(a,c,t) for a,c,t,_ in ks)
    os.makedirs(w+'/examples',exist_ok=True)
    open(w+'/examples/fill.rs','w').write(H+'fn main() {\n'+b+'}\n')
    r=sh('cargo run -q --offline --example fill',w)
    l=r.stdout.splitlines()
    if len(l)!=len(ks): print(r.stderr[-1500:]); print('after',len(l),'of',len(ks),ks[len(l)]); sys.exit(1)
    json.dump({k[3]:v for k,v in zip(ks,l)},open(V+'/tools/tracks.json','w'),indent=1)
    shutil.rmtree(w); print(len(l),'states')
if __name__=='__main__':
    if sys.argv[1]=='fill': fill(); sys.exit()
    S=load(); ids=sys.argv[2:] or list(S)
    if sys.argv[1]=='check':
        for i in ids: check(i,S[i])
    else:
        from concurrent.futures import ThreadPoolExecutor
        def go(i):
            try: build(i,S[i])
            except Exception as e: print(i,'ERROR',repr(e)[:500])
        with ThreadPoolExecutor(6) as ex: list(ex.map(go,ids))
