#!/usr/bin/env python3
"""Development tool: plant a change, find out whether the property's check catches it, keep it in seeded/.
seed(id, prop, [(file, old, new)...], needs, breaks, demo=None|dir)"""
import subprocess, json, os, shutil, re, sys
V='/verif'; WT='/tmp/wt'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def original(d):
    """Removed lines that aren't of the original repository."""
    bad=[]; f=None; n=0
    for l in open(f'{d}/patch.diff').read().split('\n'):
        if l.startswith('--- '): f=l[6:]
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('+'): pass
        else:
            if l.startswith('-'):
                # git marks what the oldest commit has with ^
                if not sh(f'git blame -L{n},{n} HEAD -- {f}',WT).stdout.startswith('^'): bad.append((f,n,l))
            n+=1
    return bad
def seed(id, prop, edits, needs, breaks, demo=None, tests=True, also=()):
    """All of it happens in WT, a scratch copy of /repo; /tmp/hv.sh runs a copy of the harness against it."""
    d=f'{V}/seeded/{id}'
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', WT)
    for f,o,n in edits:
        s=open(f'{WT}/{f}').read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(f'{WT}/{f}','w').write(s.replace(o,n))
    os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(sh('git diff',WT).stdout)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    if original(d): print(id,'NOT ORIGINAL',original(d))
    if tests:
        r=sh('cargo test -q -p libopenraw -p libopenraw-testing --features libopenraw/unstable-api,libopenraw/book --lib --bins --tests --examples --offline 2>&1 | tail -30',WT)
        if 'FAILED' in r.stdout or 'error' in r.stdout: print(id,'TESTS',r.stdout[-1500:])
    try:
        for p in (prop,)+tuple(also):
            r=sh(f'/tmp/hv.sh {p}')
            m=re.search(r'replay=(\S+)',r.stdout)
            caught=r.returncode==1 and f'VIOLATION property={p}' in r.stdout
            print(id,p,'CAUGHT' if caught else f'MISSED rc={r.returncode}', r.stdout.strip().split('\n')[0][:250],flush=True)
            if p==prop and m and demo is None:
                b=m.group(1).replace('.txt','.bin')
                if os.path.exists(b):
                    shutil.copy(b,f'{d}/in.bin')
                    h=re.match(r'(\S+) ',r.stdout)
                    h='ljpeg' if p=='D02' else h.group(1) if h else ''
                    if h.startswith('short'): h=re.search(r'short reads (\w+)',r.stdout).group(1)
                    open(f'{d}/hint','w').write(h)
    finally:
        sh('git checkout -q -f FETCH_HEAD -- .',WT)
    if demo is None:
        for f in ('demo.rs','demo.sh'): shutil.copy(f'{V}/tools/demo/{f}',d)
    elif demo is False: return
    elif isinstance(demo,dict):
        shutil.copy(f'{V}/tools/demo/demo.sh',d)
        for k,v in demo.items():
            if v.startswith('@'): shutil.copy(v[1:],f'{d}/{k}')
            else: open(f'{d}/{k}','w').write(v)
    rundemo(id, make=demo is None)
def custom(id, **files):
    """A demo of its own: name=text, or @path. _ stands for . in the names"""
    d=f'{V}/seeded/{id}'
    for f in ('expect.txt','hint'):
        if os.path.exists(f'{d}/{f}'): os.remove(f'{d}/{f}')
    shutil.copy(f'{V}/tools/demo/demo.sh',d)
    for k,v in files.items():
        k=k.replace('_','.')
        if v.startswith('@'): shutil.copy(v[1:],f'{d}/{k}')
        else: open(f'{d}/{k}','w').write(v)
    rundemo(id)
def generic(id, file, hint):
    d=f'{V}/seeded/{id}'
    shutil.copy(file,f'{d}/in.bin'); open(f'{d}/hint','w').write(hint)
    redemo(id)
def rundemo(id, make=False):
    d=f'{V}/seeded/{id}'
    # clean tree
    sh('git checkout -q -f FETCH_HEAD -- .',WT)
    if make:
        sh('cargo build -q --offline --lib --features unstable-api',WT)
        sh(f'rustc --edition 2021 -L target/debug/deps --extern libopenraw=target/debug/liblibopenraw.rlib -o /tmp/demo {d}/demo.rs && /tmp/demo {d} write',WT)
    a=sh(f'bash {d}/demo.sh',WT)
    sh(f'git apply {d}/patch.diff',WT)
    b=sh(f'bash {d}/demo.sh',WT)
    sh('git checkout -q -f FETCH_HEAD -- .',WT)
    print(id,'demo','OK' if a.returncode==0 and b.returncode!=0 else 'BAD',a.returncode,b.returncode,a.stderr[-200:],b.stdout[:200])
def redemo(id):
    """Take the demo's source again."""
    for f in ('demo.rs','demo.sh'): shutil.copy(f'{V}/tools/demo/{f}',f'{V}/seeded/{id}')
    rundemo(id,make=True)
