import json,glob,collections
c=collections.Counter()
for f in glob.glob('/tmp/mut/log*.jsonl'):
    for l in open(f):
        d=json.loads(l); c[d['res']]+=1
        if d['res']=='MISSED': print(d['f'].split('/src/')[0][-12:]+'/'+d['f'].split('/src/')[1],d['n']+1,d['k'],'|',d['old'].strip()[:90],'=>',d['new'].strip()[:90], '|UN' if d['un'] else '', list(d['un'].values())[0][0][:80] if d['un'] else '')
print(c)
