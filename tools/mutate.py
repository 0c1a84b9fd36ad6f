#!/usr/bin/env python3
"""Mutation campaign (a development tool, no check reads it).
mutate.py plan OUT.json [FILE...]     lists mutants of /repo/src
mutate.py run PLAN.json RESULT.jsonl WORKERS [MAX]   builds and judges them in private copies (mount namespaces)"""
import sys,os,re,json,subprocess,random,hashlib
from concurrent.futures import ThreadPoolExecutor
import threading,queue
OPS=[(r' <= ',' < '),(r' < ',' <= '),(r' >= ',' > '),(r' > ',' >= '),(r' == ',' != '),(r' != ',' == '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r' << ',' >> '),(r' >> ',' << '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r' & ',' | '),(r' \| ',' & '),(r'BEu16','LEu16'),(r'LEu16','BEu16'),(r'BEu32','LEu32'),(r'LEu32','BEu32'),(r' \+= ',' -= '),(r'(\w)\+(\w)',r'\1-\2'),(r'(\w)-(\w)',r'\1+\2'),(r'(\w)\*(\w)',r'\1+\2'),(r'(\w)/(\w)',r'\1*\2'),(r'%','*'),(r'cmp::min','cmp::max'),(r'cmp::max','cmp::min'),(r'\.min\(','.max('),(r'\.max\(','.min('),(r'\.\.=','..'),(r'\^','|'),(r'!(\w)',r'\1'),(r' -(\w)',r' \1'),(r'width','height'),(r'height','width'),(r'\bx\b','y'),(r'\brow\b','col'),(r'\bcol\b','row')]
def plan(out,files):
    rnd=random.Random(7); ms=[]
    if not files:
        files=[]
        for d,_,fs in os.walk('/repo/src'):
            for f in fs:
                if f.endswith('.rs') and '/bin' not in d: files.append(os.path.join(d,f))
    for f in sorted(files):
        ls=open(f).read().split('\n'); cand=[]
        for n,l in enumerate(ls):
            if '#[cfg(test)]' in l: break
            c=l.split('//')[0]
            if not c.strip() or c.strip().startswith(('use ','extern ','pub mod','mod ','#','fn ','pub fn','println','struct','pub struct','static','const ')): continue
            if re.fullmatch(r'[\s\[\]0-9a-fA-Fx,]+',c): continue
            if re.match(r'^\s*\w+\s*=\s*0x[0-9a-f]+,',c): continue   # the tag table
            if 'Err(' in c or 'format!' in c: continue
            for a,b in OPS:
                for m in re.finditer(a,c):
                    if m.start() and '"' in c[:m.start()] and c[:m.start()].count('"')%2: continue
                    nl=c[:m.start()]+m.expand(b)+c[m.end():]
                    if nl!=c: cand.append((n,nl))
            for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])',c):
                v=int(m.group(1),16 if m.group(1).startswith('0x') else 10)
                for nv in (v+1,v-1) if v>0 else (1,):
                    cand.append((n,c[:m.start()]+str(nv)+c[m.end():]))
            if c.strip().endswith(';') and re.match(r'^\s*(\w[\w.\[\]]*)\s*(\+|-|<<|>>|\||&)?=[^=]',c) and not c.strip().startswith('let'): cand.append((n,''))
        seen=set()
        for n,nl in cand:
            if (n,nl) in seen: continue
            seen.add((n,nl)); ms.append({'file':f,'line':n,'old':ls[n],'new':nl})
    rnd.shuffle(ms)
    json.dump(ms,open(out,'w'),indent=0)
    import collections
    c=collections.Counter(m['file'] for m in ms); print(len(ms)); [print(v,k) for k,v in c.most_common()]
AFF=[('packed.rs','C03'),('pumps','C04'),('ljpeg','C04'),('basics','C05'),('nef','C05 C17'),('pef','C05'),('iiq','C05'),('crw','C05 C17'),('arw','C05 C06'),('kdc','C17 C03'),('dcr','C05'),('orf','C06'),('srw','C06'),('rw2','C06'),('raf','C03 C18'),('tiff.rs','C07'),('dng','C02 C08 C07'),('cr2','C08 C04'),('cfa','C09'),('demosaic','C12 C10'),('transform','C11'),('imageops','C13'),('image.rs','C19 C13'),('mod.rs','C18')]
ALLC=['C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C18','C17','C19','C02']
def prep(k):
    w='/tmp/mut/w%d'%k
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.check_call('mkdir %s/repo && cd /repo && git archive HEAD | tar x -C %s/repo && cp Cargo.lock %s/repo/ ; cp -a /verif/harness %s/harness && cp /verif/known_findings.txt %s/ && mkdir -p %s/evidence %s/replays'%((w,)*7),shell=True)
    return w
ENVS='. /opt/vp/env.sh; export RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=%s/target VERIF_DIR=%s VERIF_REPLAYS=%s/replays VERIF_WORKERS=1 VERIF_TIER=quick; '
def ns(w,cmd,t):
    full='mount --bind %s/repo /repo; '%w+ENVS%(w,w,w)+cmd
    p=subprocess.Popen(['unshare','-m','bash','-c',full],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''
class NoBuild(Exception): pass
class Killed(Exception): pass
class Odd(Exception): pass
def judge(w,m,extra=None):
    rel=m['file'].replace('/repo/',''); p=w+'/repo/'+rel; orig=open(p).read(); ls=orig.split('\n')
    if ls[m['line']]!=m['old']: return 'STALE',''
    ls[m['line']]=m['new']; open(p,'w').write('\n'.join(ls))
    try:
        order=[]
        for a,cs in AFF:
            if a in rel: order+=cs.split()
        order+=[c for c in ALLC if c not in order]
        aff=len(order)-len([c for c in ALLC if c not in sum([cs.split() for a,cs in AFF if a in rel],[])])
        built=set()
        def one(c,limit):
            if c not in built:
                rc,o=ns(w,'cd %s/harness && cargo build --offline -q --bin %s 2>&1'%(w,c.lower()),600)
                if rc: raise NoBuild(o[-300:])
                built.add(c)
            rc,o=ns(w,'%s/target/debug/%s 2>&1 | tail -5; exit ${PIPESTATUS[0]}'%(w,c.lower()),limit)
            if rc==1 and 'VIOLATION' in o: raise Killed(c)
            if rc not in (0,124): raise Odd(c+' rc=%d '%rc+o[-300:])
            return rc==124
        try:
            slow=[c for c in order[:aff] if one(c,15)]
            slow=[c for c in slow if one(c,400)]
            slow2=[c for c in order[aff:] if one(c,8)]
        except NoBuild as e: return 'NOBUILD',str(e)
        except Killed as e: return 'KILLED',str(e)
        except Odd as e: return 'ODD',str(e)
        rc,o=ns(w,'cd /repo && CARGO_TARGET_DIR=%s/target-t cargo test --offline 2>&1 | grep -c FAILED'%w,600)
        if o.strip() not in ('0',''): return 'TESTS',''
        return 'SURVIVED',' '.join(slow)
    finally: open(p,'w').write(orig)
def run(planf,outf,nw,mx):
    ms=json.load(open(planf)); done=set()
    if os.path.exists(outf):
        for l in open(outf): r=json.loads(l); done.add((r['file'],r['line'],r['new']))
    todo=[m for m in ms if (m['file'],m['line'],m['new']) not in done][:mx]
    q=queue.Queue(); [q.put(m) for m in todo]; lock=threading.Lock()
    def worker(k):
        w=prep(k)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            try: v,d=judge(w,m)
            except Exception as e: v,d='EXC',str(e)
            with lock:
                open(outf,'a').write(json.dumps(dict(m,verdict=v,detail=d))+'\n')
                print(v,d[:20],m['file'][10:],m['line']+1,m['old'].strip(),'=>',m['new'].strip(),flush=True)
    ts=[threading.Thread(target=worker,args=(k,)) for k in range(nw)]; [t.start() for t in ts]; [t.join() for t in ts]
if sys.argv[1]=='plan': plan(sys.argv[2],sys.argv[3:])
else: run(sys.argv[2],sys.argv[3],int(sys.argv[4]),int(sys.argv[5]) if len(sys.argv)>5 else 10**9)
