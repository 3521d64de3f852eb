import subprocess
def t(name,*ed):
    old={}
    for F,a,b in ed:
        F='/repo/'+F
        s=open(F).read(); old.setdefault(F,s)
        if a not in s: print(name,'NOTFOUND',a[:40]); break
        open(F,'w').write(s.replace(a,b,1))
    else:
        o=subprocess.run(['python3','/verif/lib/values.py'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout.splitlines()
        v=[l for l in o if l.startswith(('VIOL','UNAN'))]
        print(name,'|',(v or o[-1:])[0][:200], len(v), flush=True)
    for F,s in old.items(): open(F,'w').write(s)
E='ratel/src/error.rs'; C='ratel-transformer/src/scope.rs'
D='#[derive(PartialEq, Clone)]\npub struct Error {'
def eq(x): return (E,D,'impl PartialEq for Error {\n    fn eq(&self, other: &Error) -> bool {\n        '+x+'\n    }\n}\n#[derive(Clone)]\npub struct Error {')
W='write!(f, "Unexpected {:?}({}) at {}:{}", &self.token, &*self.raw, self.start, self.end)'
P='self.as_usize() == other.as_usize()'
t('scope kind',(C,P,'self.kind == other.kind'))
t('scope ne',(C,P,'self.as_usize() <= other.as_usize()'))
t('scope neg',(C,P,'self.as_usize() != other.as_usize()'))
t('scope parent',(C,P,'self.kind == other.kind && self.parent.is_some() == other.parent.is_some()'))
t('scope self',(C,P,'self.as_usize() == self.as_usize()'))
t('scope ref addr',(C,P,'self as *const _ as usize == other as *const _ as usize'))
