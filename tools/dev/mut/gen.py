import re,random,glob,json,subprocess
random.seed(7)
files=[f for f in glob.glob('/repo/ratel*/src/**/*.rs',recursive=True)]
out=[]
def code(s):
    i=s.find('#[cfg(test)]\nmod test'); 
    return s if i<0 else s[:i]
for f in sorted(files):
    if f.endswith('error.rs') and 'src/error' in f: continue
    s=open(f).read(); c=code(s)
    lines=c.split('\n')
    fields=set(re.findall(r'self\.(\w+)',c))
    for n,l in enumerate(lines):
        st=l.strip()
        if not st or st.startswith(('//','use ','extern','#[','pub mod','mod ','pub use')): continue
        def m(new,kind):
            if new!=l: out.append({'f':f[6:],'n':n,'old':l,'new':new,'k':kind})
        if re.match(r'^[\w.:&*]+.*;$',st) and not re.match(r'(let|return|pub|type|const|static|fn|use|trait|impl|struct|break|continue)\b',st): m('','del')
        for a,b in (('==','!='),('!=','=='),(' < ',' <= '),(' > ',' >= '),(' <= ',' < '),(' >= ',' > '),('&&','||'),('||','&&'),('true','false'),('false','true'),(' + ',' - '),(' - ',' + '),('is_none','is_some'),('is_some','is_none'),('.start','.end'),('.end','.start'),('Some(','None::<_>; (') ):
            for x in re.finditer(re.escape(a),l):
                if a=='||' and '|' in l.replace('||',''): continue
                m(l[:x.start()]+b+l[x.end():],'%s->%s'%(a.strip(),b.strip()))
        if re.match(r'(} else )?if (?!let)(.+) \{$',st):
            m(re.sub(r'if (?!let)(.+) \{',r'if !(\1) {',l),'neg')
            m(re.sub(r'if (?!let)(.+) \{',r'if false && (\1) {',l),'iffalse')
            m(re.sub(r'if (?!let)(.+) \{',r'if true || (\1) {',l),'iftrue')
        for x in re.finditer(r"(?<![\w.])(\d+)(?![\w.'])",l):
            m(l[:x.start()]+str(int(x.group(1))+1)+l[x.end():],'const+1')
            if int(x.group(1))>0: m(l[:x.start()]+str(int(x.group(1))-1)+l[x.end():],'const-1')
        for x in re.finditer(r"b'([^\\])'",l):
            m(l[:x.start()]+"b'%s'"%('+' if x.group(1)!='+' else '-')+l[x.end():],'byte')
        for x in re.finditer(r'self\.(\w+)\b(?!\()',l):
            o=[y for y in sorted(fields) if y!=x.group(1)]
            if o: m(l[:x.start(1)]+random.choice(o)+l[x.end(1):],'field')
        if re.match(r'^[\w:|& ().{}]+=>.*,$',st): m('','delarm')
        x=re.search(r'^(.*)\b([a-z_]\w*)\b, \b([a-z_]\w*)\b(\).*)$',l)
        if x: m(x.group(1)+x.group(3)+', '+x.group(2)+x.group(4),'swapargs')
        # token / kind names
        for x in re.finditer(r'\b([A-Z]\w+)\b',l):
            w=x.group(1)
            sib=[y for y in re.findall(r'\b([A-Z]\w+)\b','\n'.join(lines[max(0,n-6):n+7])) if y!=w]
            if sib: m(l[:x.start()]+random.choice(sib)+l[x.end():],'name')
        # handler table constants in lexer
        for x in re.finditer(r'\b([A-Z_]{3})\b(?=, |,)',l):
            pass
random.shuffle(out)
by={}
for o in out: by.setdefault(o['f'],[]).append(o)
print(len(out),{k:len(v) for k,v in by.items()})
json.dump(out,open('/tmp/mut/all.json','w'))
