#!/usr/bin/env python3
"""trybugs.py SPEC.py [N]   (a development tool, no check reads it)
Applies each change of SPEC's list `bugs` to private copies of /repo and /verif (mount namespaces), builds, runs the
repository's tests and the checks named, and stores what the first alarm left behind in /tmp/try/out/<id>."""
import sys,os,json,subprocess,threading,queue,shutil,re
BASE=os.environ.get('TRYBASE','/tmp/try'); OUT=BASE+'/out'
def prep(k):
    w='%s/w%d'%(BASE,k); os.makedirs(w,exist_ok=True)
    subprocess.check_call('rsync -a --delete --exclude .git --exclude /replays --exclude /seeded --exclude /evidence /verif/ %s/verif/ 2>/dev/null || (rm -rf %s/verif; mkdir %s/verif; cd /verif; tar c --exclude=.git --exclude=./replays --exclude=./seeded . | tar x -C %s/verif)'%(w,w,w,w),shell=True)
    subprocess.check_call('rm -rf %s/repo; cp -a /repo %s/repo; mkdir -p %s/verif/evidence %s/verif/replays'%(w,w,w,w),shell=True)
    return w
def ns(w,cmd,t):
    full='mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && export VERIF_SEED=1 VERIF_TIER=quick VERIF_WORKERS=%s; '%(w,w,os.environ.get('TRYW','3'))+cmd
    p=subprocess.Popen(['unshare','-m','bash','-c',full],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''
def one(w,b):
    subprocess.check_call('rm -rf %s/repo/src && cp -a /repo/src %s/repo/src && rm -rf %s/verif/replays/*'%(w,w,w),shell=True)
    for f,a,n in b['edits']:
        p=w+'/repo/'+f; t=open(p).read()
        if t.count(a)!=1: return 'EDIT matches %d: %s'%(t.count(a),a[:60])
        open(p,'w').write(t.replace(a,n))
    rc,o=ns(w,'. /opt/vp/env.sh; cd /repo && cargo test --offline 2>&1 | tail -40',900)
    if 'error' in o and 'could not compile' in o: return 'NOBUILD '+o[-600:]
    if 'FAILED' in o: return 'TESTS FAIL '+o[-300:]
    res=[]
    d=OUT+'/'+b['id']; shutil.rmtree(d,ignore_errors=True)
    for c in b.get('checks',[b['property']]):
        rc,o=ns(w,'bash check.sh %s 2>&1 | tail -6; exit ${PIPESTATUS[0]}'%c,1200)
        m=re.search(r'VIOLATION property=\S+ replay=(\S+)',o)
        res.append('%s rc=%d'%(c,rc))
        if rc==1 and m:
            os.makedirs(d,exist_ok=True); open(d+'/out.txt','w').write(o)
            r=w+m.group(1); 
            for x in (r,r.replace('.txt','.raw')):
                if os.path.exists(x): shutil.copy(x,d+'/replay'+os.path.splitext(x)[1])
            return 'CAUGHT '+c+' | '+o.strip().split('\n')[-2][:160]
        if rc not in(0,1): res[-1]+=' '+o[-200:]
    return '*** MISSED '+' '.join(res)
def main():
    g={}; exec(open(sys.argv[1]).read(),g); q=queue.Queue(); lock=threading.Lock()
    only=sys.argv[3:]
    for b in g['bugs']:
        if only and b['id'] not in only: continue
        q.put(b)
    def work(k):
        w=prep(k)
        while True:
            try: b=q.get_nowait()
            except queue.Empty: return
            try: r=one(w,b)
            except Exception as e: r='EXC %r'%e
            with lock: print(b['id'],b['property'],r,flush=True)
    ts=[threading.Thread(target=work,args=(k,)) for k in range(int(sys.argv[2]) if len(sys.argv)>2 else 3)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
