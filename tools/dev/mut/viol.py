import sys,json,functools
sys.path.insert(0,'/verif/lib')
import registry
known=set()
for l in open('/verif/known_findings.jsonl'):
    if l.startswith('{'):
        d=json.loads(l)
        if d.get('status')=='known': known.add((d['property'],d['key']))
import codegen,visitor,lexer,parser,accessors,progress,transform,astgen,wasm,message
def memo(m):
    f=m.run_all; c={}
    def g(*a):
        k=a[1:]
        if k not in c: c[k]=f(*a)
        import copy
        return copy.deepcopy(c[k])
    m.run_all=g
for m in (codegen,visitor,lexer,parser,accessors,progress,transform,astgen,wasm,message): memo(m)
stop=False
for p in sys.argv[1:]:
    try:
        r=registry.run(p,'quick')
    except Exception as e:
        print('UNAN',p,type(e).__name__,str(e)[:200]); continue
    for v in r['violations']:
        if (p,v['key']) not in known: print('VIOL',p,v['key'])
    for u in r['unanalysed'][:3]: print('UNAN',p,u[:200])
    if r.get('vacuous'): print('UNAN',p,'VACUOUS',r['vacuous'])
