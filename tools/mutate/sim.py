import json,glob,os,subprocess,sys,concurrent.futures as cf,threading,re
J=int(sys.argv[1]); SEEDS=int(sys.argv[2]) if len(sys.argv)>2 else 12
ENV=dict(os.environ,GOMAXPROCS='1',GOGC='300',GODEBUG='asyncpreemptoff=1')
PROF='core pools mm gov extreme query export auth gas faults'.split()
def sh(c,t,env=None):
    try: return subprocess.run(['bash','-c',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env or os.environ)
    except subprocess.TimeoutExpired:
        class R: returncode=99; stdout=b'timeout'
        return R
def one(m,seeds):
    r=json.load(open(m+'res.json')); sf=m+'sim.json'
    if os.path.exists(sf):
        o=json.load(open(sf))
        if o['sim']=='caught' or o.get('seeds',0)>=seeds: return o
        start=o['seeds']+1
    else: start=1
    b=sh(f"EXTRA_OVERLAY='\"{r['file']}\": \"{m}f.go.txt\"' nice bash /verif/tools/build.sh {m}sim",600)
    if b.returncode: print('BUILD',m,b.stdout[-300:]); return
    out=None
    for s in range(start,seeds+1):
        for p in PROF:
            q=sh(f"nice timeout 300 {m}sim run {s} {p} 2>&1 | grep -a '^\\[C\\|^panic\\|^fatal' | head -3",400,ENV)
            t=q.stdout.decode(errors='replace').strip()
            if t: out=f'seed {s} {p}: '+t[:250]; break
        if out: break
    os.remove(m+'sim')
    o={'sim':'caught' if out else 'missed','seeds':seeds,'how':out,'file':r['file'],'line':r['line'],'desc':r['desc'],'m':m}
    json.dump(o,open(sf,'w')); print(o['sim'],m[-5:-1],r['file'][12:],r['line'],r['desc'],'|',(out or '')[:160],flush=True)
    return o
ms=[os.path.dirname(f)+'/' for f in sorted(glob.glob('/tmp/mut/all/*/res.json')) if json.load(open(f))['status']=='survived']
only=sys.argv[3:]; 
if only: ms=[m for m in ms if m[-5:-1] in only]
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(lambda m:one(m,SEEDS),ms))
