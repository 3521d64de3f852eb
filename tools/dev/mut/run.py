import json,subprocess,sys,os,time
w,nw,deadline=int(sys.argv[1]),int(sys.argv[2]),time.time()+float(sys.argv[3])
pat=sys.argv[4] if len(sys.argv)>4 else ''
muts=[m for m in json.load(open('/tmp/mut/all.json')) if pat in m['f']][w::nw]
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
C='C01 C02 C03 C04 C06 C07';V='V01 V02 V03';L='L01 L02 L03 L04 L05';S='S02 S03 S04 S05 S06 S07 E01';A='A01 A02 R02';T='T01 T02'
def mods(f):
    if 'codegen' in f: return [C]
    if 'visitor' in f: return [V,T]
    if 'transformer' in f: return [T]
    if 'wasm' in f: return ['W01']
    if 'astgen' in f: return [A]
    if 'lexer' in f: return [L,S]
    if 'parser' in f: return [S,'S01']
    return [A,V,S,C]
cache={}
def run(m):
    try:
        o=subprocess.run(['python3','/tmp/mut/viol.py']+m.split(),cwd='/verif/lib',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=400).stdout
    except subprocess.TimeoutExpired: return None,['TIMEOUT']
    v={l for l in o.splitlines() if l.startswith('VIOL')}
    u=[l[:200] for l in o.splitlines() if l.startswith('UNAN') or 'Traceback' in l]
    return v,u
B={}
done=set()
logf='/tmp/mut/log%d%s.jsonl'%(w,pat.replace('/','_'))
if os.path.exists(logf):
    for l in open(logf): d=json.loads(l); done.add((d['f'],d['n'],d['new']))
log=open(logf,'a')
for m in muts:
    if time.time()>deadline: break
    if (m['f'],m['n'],m['new']) in done: continue
    p='/repo/'+m['f']; s=open(p).read(); ls=s.split('\n')
    if ls[m['n']]!=m['old']: continue
    ls[m['n']]=m['new']; open(p,'w').write('\n'.join(ls))
    r={'f':m['f'],'n':m['n'],'old':m['old'],'new':m['new'],'k':m['k']}
    try:
        try:
            b=subprocess.run('bash /opt/vp/build.sh',shell=True,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=200).returncode
        except subprocess.TimeoutExpired: b=9
        if b: r['res']='nobuild'
        else:
            t='/tmp/mut/t%d%s.json'%(w,pat.replace('/','_'))
            if os.path.exists(t): os.remove(t)
            try: subprocess.run('timeout 100 bash /opt/vp/test.sh %s >/dev/null 2>&1'%t,shell=True,timeout=120)
            except subprocess.TimeoutExpired: pass
            try: ok=set(base)<=set(json.load(open(t))['passed'])
            except Exception: ok=False
            if not ok: r['res']='killed'
            else:
                new={};un={}
                for x in mods(m['f']):
                    if x not in B:
                        open(p,'w').write(s); B[x]=run(x); open(p,'w').write('\n'.join(ls))
                    v,u=run(x)
                    if v is None: un[x]=u; continue
                    nv=sorted(v-B[x][0])
                    if nv: new[x]=nv[:4]
                    nu=[y for y in u if y not in B[x][1]]
                    if nu: un[x]=nu[:3]
                    if nv: break
                r['res']='caught' if new else 'MISSED'
                r['new']=m['new']; r['viol']=new; r['un']=un
    finally:
        open(p,'w').write(s)
    log.write(json.dumps(r)+'\n'); log.flush()
