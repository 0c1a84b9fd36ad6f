#!/usr/bin/env python3
"""seed.py add SPEC.py | seed.py run ID [CHECK...]
SPEC defines: id, property, file(s) edits=[(file,old,new),...], needs, breaks, and either raw=<fixture path> with args=, or rs=<demo source text>.
`add` confirms the change in a scratch copy of /repo and stores it in /verif/seeded; `run` applies it to /repo, runs checks, undoes it."""
import sys,os,subprocess,shutil,json
KIT='/verif/tools/seedkit'; SC='/tmp/seedsc'
def sh(c,cwd=None,t=900):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,executable='/bin/bash'); return p.returncode,p.stdout.decode(errors='replace')
ENV='. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; '%SC
def build():
    rc,o=sh(ENV+'cargo build --workspace --offline 2>&1 && cargo test --workspace --no-run --offline 2>&1',SC)
    return rc,o
def tests():
    rc,o=sh(ENV+'cargo test --workspace --no-fail-fast --offline 2>&1',SC)
    base=json.load(open('/opt/vp/BASELINE.json'))
    return o.count('... ok'),[l for l in o.split('\n') if 'FAILED' in l],rc
def fresh():
    if not os.path.exists(SC): sh('cp -a /repo %s'%SC)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd',SC)
def add(spec):
    fresh()
    g={}; exec(open(spec).read(),g)
    for s in g['seeds']:
        i=s['id']; d='/verif/seeded/'+i
        if os.path.exists(d+'/patch.diff') and not s.get('force'): continue
        fresh(); rc,o=build()
        if rc: print('clean build failed',o[-2000:]); sys.exit(1)
        os.makedirs(d,exist_ok=True)
        if 'raw' in s:
            shutil.copy(s['raw'],d+'/case.raw'); shutil.copy(KIT+'/dump.rs',d); shutil.copy(KIT+'/demo_raw.sh',d+'/demo.sh')
            open(d+'/args.txt','w').write(s.get('args','raw')+'\n'); open(d+'/expected.txt','w').write('')
            T='/tmp/seedsc_bin'; os.makedirs(T,exist_ok=True)
            rc,o=sh(ENV+'rustc --edition 2018 -A warnings -o %s/dump %s/dump.rs --extern rawloader=target/debug/librawloader.rlib -L dependency=target/debug/deps && %s/dump %s/case.raw %s > %s/expected.txt'%(T,KIT,T,d,s.get('args','raw'),d),SC)
            if rc: print(i,'dump failed',o); continue
        elif 'sh' in s:
            open(d+'/demo.sh','w').write(s['sh'])
            for n,src in s.get('files',{}).items(): shutil.copy(src,d+'/'+n)
        else:
            open(d+'/demo.rs','w').write(s['rs']); shutil.copy(KIT+'/demo_rs.sh',d+'/demo.sh')
            if 'fixture' in s: shutil.copy(s['fixture'],d+'/case.raw')
        os.chmod(d+'/demo.sh',0o755)
        rc,o=sh('bash %s/demo.sh'%d,SC)
        if rc: print(i,'DEMO FAILS ON CLEAN TREE',rc,o[-1500:]); shutil.rmtree(d); continue
        bad=False
        for f,a,b in s['edits']:
            p=SC+'/'+f; t=open(p).read()
            if t.count(a)!=1: print(i,'edit matches',t.count(a),'times:',a[:80]); bad=True; break
            open(p,'w').write(t.replace(a,b))
        if bad: shutil.rmtree(d); continue
        rc,o=build()
        if rc: print(i,'PATCH DOES NOT BUILD',o[-3000:]); shutil.rmtree(d); continue
        ok,failed,trc=tests()
        if failed or trc: print(i,'TESTS FAIL',failed[:5]); shutil.rmtree(d); continue
        rc,o=sh('bash %s/demo.sh'%d,SC)
        if rc==0: print(i,'DEMO PASSES WITH PATCH'); shutil.rmtree(d); continue
        rc2,diff=sh('git diff',SC); open(d+'/patch.diff','w').write(diff)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        print(i,'OK tests',ok,'demo rc',rc,o.strip()[-150:])
def run(i,checks):
    d='/verif/seeded/'+i; m=json.load(open(d+'/meta.json'))
    checks=checks or [m['property']]
    assert sh('git -C /repo status --porcelain')[1].strip()=='' 
    rc,o=sh('git -C /repo apply %s/patch.diff'%d)
    if rc: print(i,'patch does not apply',o); return
    try:
        for c in checks:
            import time; t=time.time()
            rc,o=sh('bash /verif/check.sh '+c,'/verif')
            v=[l for l in o.split('\n') if l.startswith('VIOLATION')]
            print('%-28s %s rc=%d %.0fs violations=%d %s'%(i,c,rc,time.time()-t,len(v),(v[0][:110] if v else o.strip()[-150:] if rc else '')))
    finally: sh('git -C /repo checkout -- .')
if sys.argv[1]=='add': add(sys.argv[2])
elif sys.argv[1]=='run':
    ids=sorted(os.listdir('/verif/seeded')) if sys.argv[2]=='all' else [sys.argv[2]]
    for i in ids: run(i,sys.argv[3:])
