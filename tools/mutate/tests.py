import json,glob,os,random,subprocess,sys,concurrent.futures as cf,time
SEED=int(sys.argv[1]); N=int(sys.argv[2]); J=int(sys.argv[3])
pat=sys.argv[4] if len(sys.argv)>4 else ''
ms=sorted(glob.glob('/tmp/mut/all/*/'))
random.seed(SEED); random.shuffle(ms)
ms=[m for m in ms if pat in json.load(open(m+'meta.json'))['File']][:N]
ENV='. /opt/vp/env.sh; cd /repo; ulimit -v 40000000; '
def sh(c,t):
    try: return subprocess.run(['bash','-c',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    except subprocess.TimeoutExpired as e:
        subprocess.run(['pkill','-f',c[-60:]]) if False else None
        class R: returncode=99; stdout=b'timeout'
        return R
def one(m):
    me=json.load(open(m+'meta.json')); rf=m+'res.json'
    if os.path.exists(rf): return json.load(open(rf))
    ov={'Replace':{me['File']:m+'f.go.txt'}}
    json.dump(ov,open(m+'o.json','w'))
    r={'m':m,'file':me['File'],'line':me['Line'],'desc':me['Desc']}
    pk='./'+os.path.dirname(me['File'])[len('/repo/'):]
    def done(s): r['status']=s; json.dump(r,open(rf,'w')); print(s,r['file'][12:],r['line'],r['desc'],flush=True); return r
    b=sh(ENV+f'go build -overlay {m}o.json {pk}',300)
    if b.returncode: return done('nobuild')
    seq=[pk]+[p for p in ['./x/dex/amm','./x/dex/types','./x/dex/keeper','./x/dex/module','./x/dex/...'] if p!=pk]
    for p in seq:
        t=sh(ENV+f'timeout 200 go test -overlay {m}o.json -vet=off -count=1 {p}',260)
        if t.returncode: return done('killed-by-tests')
    t=sh(ENV+f'timeout 300 go test -overlay {m}o.json -vet=off -count=1 ./app -args -Enabled=true -Commit=true -NumBlocks=30 -BlockSize=30 -Seed=7',320)
    if b'--- FAIL' in t.stdout and b'TestAppStateDeterminism' not in t.stdout: return done('killed-by-app')
    return done('survived')
with cf.ThreadPoolExecutor(J) as ex: list(ex.map(one,ms))
