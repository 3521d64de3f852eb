import subprocess,sys
def bug(name,props,edits,test=True):
    if len(sys.argv)>1 and not any(x in name for x in sys.argv[1:]): return
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read()
            if a not in s: print(name,'NOT FOUND',a[:80]); return
            open(p,'w').write(s.replace(a,b,1))
        r=subprocess.run('bash /opt/vp/build.sh',shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: print(name,'BUILD FAILS',[l for l in r.stdout.splitlines() if l.startswith('error')][:3]); return
        tests=''
        if test:
            subprocess.run('timeout 60 bash /opt/vp/test.sh /tmp/rf/t.json >/dev/null 2>&1',shell=True)
            import json
            base=json.load(open('/opt/vp/BASELINE.json')); 
            t=json.load(open('/tmp/rf/t.json'))
            tests='failed %s'%(t.get('failed') if not isinstance(t.get('failed'),list) else len(t['failed']))
        o=subprocess.run(['python3','/tmp/mut/viol.py']+props.split(),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout
        v=[l for l in o.splitlines() if l.startswith('VIOL')]; u=[l for l in o.splitlines() if l.startswith('UNAN')]
        print('%-8s'%('caught' if v else 'MISSED'),name,tests,'VIOL %d'%len(v),'UN %d'%len(u),(v or u or [o[-150:]])[0][:230],flush=True)
        if v and u: print('          UN:',u[0][:200])
    finally:
        subprocess.call('git -C /repo checkout -- .',shell=True)
