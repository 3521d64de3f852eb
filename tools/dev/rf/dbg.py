import sys
sys.path.insert(0,'/verif/lib')
import subprocess
src=open('/tmp/rf/c.py').read()
# apply only first refactor
import re
blk=src[src.index("rf('OK list loop',[")+len("rf('OK list loop',"):]
blk=blk[:blk.index("])\n")+1]
E='ratel-codegen/src/expression.rs'; S='ratel-codegen/src/statement.rs'; F='ratel-codegen/src/function.rs'; L='ratel-codegen/src/lib.rs'
for f,a,b in eval(blk):
    s=open('/repo/'+f).read(); assert a in s; open('/repo/'+f,'w').write(s.replace(a,b))
import facts,codegen,engine
p=engine.Prog(facts.extract('harness'))
js,un=codegen.jobs(p)
oj=engine.Engine.join
n=[0]
def j(self,sts):
    o=oj(self,sts)
    n[0]+=1
    if len(o)>8 and n[0]<400:
        print('JOIN',len(sts),'->',len(o), self.p.fns[sts[0].frames[-1].fid]['name'][-60:], sts[0].frames[-1].bb)
        for s in o[:4]: print('   ',{k:(sorted(v) if isinstance(v,frozenset) else v) for k,v in s.facts.items()})
    return o
engine.Engine.join=j
import collections
KK={}
H=collections.Counter(); ex={}
om=codegen.CG.marked if hasattr(codegen.CG,'marked') else None
def marked(self,st,k):
    w=(self.eng.p.fns[st.frames[-1].fid]['name'][-70:], st.frames[-1].bb, st.park)
    H[w]+=1
    KK.setdefault((w,str(sorted(map(str,st.facts.items()))),str(st.dom)),[]).append(k)
    if H[w] in (500,501,502): ex.setdefault(w,[]).append(({str(k):(sorted(v) if isinstance(v,frozenset) else v) for k,v in st.facts.items()},str(st.dom)[:600]))
codegen.CG.marked=marked
for jb in js:
    if jb[1].startswith('Mini') and jb[3]=='Sequence':
        r=codegen.run_job(p,jb); print(r['states'],r['un'])

for w,c in H.most_common(6):
    print(w,c)
    for e in ex.get(w,[]): print('    ',e)

l=max(KK.values(),key=len)
print(len(l))
for k in l[2:5]:
    print('KEY',[str(x) for x in k[1]], k[2])
