python3 /tmp/rf/p1.py; bash /opt/vp/build.sh >/dev/null 2>&1; cd /verif/lib; python3 - <<'F'
import sys; sys.path.insert(0,'/verif/lib')
import facts
from engine import Prog
import astgen
p=Prog(facts.extract('harness'))
o=astgen.Dom.slice if hasattr(astgen,'Dom') else None
for n,c in vars(astgen).items():
    if isinstance(c,type) and hasattr(c,'off'):
        oo=c.off
        def off(self,v,oo=oo):
            r=oo(self,v)
            if r is None: print('OFF',v)
            return r
        c.off=off
        ob=c.binop
        def binop(self,st,op,a,b,ty,ob=ob):
            r=ob(self,st,op,a,b,ty)
            if 'lenminus' in repr((a,b)) : print('BIN',op,a,b,r)
            return r
        c.binop=binop
js,un=astgen.jobs(p)
for j in js:
    if 'String' in '%s::%s::%s'%j[1:4]: print(astgen.run_job(p,j)['un'])
F
