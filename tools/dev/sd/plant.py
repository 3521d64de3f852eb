import subprocess,sys
def plant(id,prop,edits,needs,breaks,demo):
    for f,a,b in edits:
        p='/repo/'+f; s=open(p).read()
        n=s.count(a)
        if n<1: print(id,'NOT FOUND',a); subprocess.call('git -C /repo checkout -- .',shell=True); return
        s=s.replace(a,b,1); open(p,'w').write(s)
    r=subprocess.run(['python3','/verif/tools/seed.py','new',id,prop,needs,breaks],input=demo,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    print(r.stdout[:900]); sys.stdout.flush()
VIS='''
use ratel_visitor::*; use ratel::ast::*;
'''
