"""apply refactorings to a scratch copy's source? uses /repo and restores"""
import subprocess,sys,json,os
def base():
    out=''.join(subprocess.run(['python3',m+'.py'],cwd='/verif/lib',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout for m in os.environ.get('MODS','parser').split())
    return out
def viols(o): return {l.split(' | ')[0] for l in o.splitlines() if l.startswith('VIOL') or l.startswith('((')}
B=None
def rf(name,edits,cmd=None):
    global B
    if B is None: B=viols(base())
    for f,a,b in edits:
        p='/repo/'+f; s=open(p).read()
        if a not in s: print(name,'NOT FOUND',a[:80]); subprocess.call('git -C /repo checkout -- .',shell=True); return
        s=s.replace(a,b,1) if not a.startswith('ALL') else s
        open(p,'w').write(s)
    try:
        r=subprocess.run('bash /opt/vp/build.sh',shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: print(name,'BUILD FAILS',r.stdout[-800:]); return
        subprocess.run('timeout 60 bash /opt/vp/test.sh /tmp/rf/t.json >/dev/null 2>&1',shell=True)
        o=base()
        new=viols(o)-B; gone=B-viols(o)
        un=[l for l in o.splitlines() if l.startswith('UNAN') or 'Error' in l]
        print(name,'NEW',len(new),'GONE',len(gone),'UN',len(un),o.splitlines()[-1][:80])
        for x in sorted(new)[:6]: print('   ',x[:200])
        for x in un[:4]: print('   ',x[:250])
    finally:
        subprocess.call('git -C /repo checkout -- .',shell=True)
PS='ratel/src/parser/statement.rs'; PE='ratel/src/parser/expression.rs'; PF='ratel/src/parser/function.rs'; PM='ratel/src/parser/mod.rs'; PN='ratel/src/parser/nested.rs'
