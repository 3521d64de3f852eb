import subprocess
def t(name,*ed):
    old={}
    for F,a,b in ed:
        F='/repo/'+F
        s=open(F).read(); old.setdefault(F,s)
        if a not in s: print(name,'NOTFOUND',a[:40]); break
        open(F,'w').write(s.replace(a,b,1))
    else:
        o=subprocess.run(['python3','/verif/lib/values.py'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout.splitlines()
        v=[l for l in o if l.startswith(('VIOL','UNAN'))]
        print(name,'|',(v or o[-1:])[0][:200], len(v), flush=True)
    for F,s in old.items(): open(F,'w').write(s)
E='ratel/src/error.rs'; C='ratel-transformer/src/scope.rs'
D='#[derive(PartialEq, Clone)]\npub struct Error {'
def eq(x): return (E,D,'impl PartialEq for Error {\n    fn eq(&self, other: &Error) -> bool {\n        '+x+'\n    }\n}\n#[derive(Clone)]\npub struct Error {')
W='write!(f, "Unexpected {:?}({}) at {}:{}", &self.token, &*self.raw, self.start, self.end)'
P='self.as_usize() == other.as_usize()'

def eq(x): return (E,D,'impl PartialEq for Error {\n    fn eq(&self, other: &Error) -> bool {\n        '+x+'\n    }\n}\n#[derive(Clone)]\npub struct Error {')
W='write!(f, "Unexpected {:?}({}) at {}:{}", &self.token, &*self.raw, self.start, self.end)'
t('len only',eq('self.token == other.token && self.raw == other.raw && self.end - self.start == other.end - other.start'))
t('OK len and start',eq('self.token == other.token && self.raw == other.raw && self.start == other.start && self.end - self.start == other.end - other.start'))
t('len start ne',eq('if self.end - self.start != other.end - other.start { return false; }\nself.token == other.token && self.raw == other.raw && self.end == other.end + 1'))
t('OK len first',eq('if self.end - self.start != other.end - other.start { return false; }\nself.token == other.token && self.raw == other.raw && self.end == other.end && self.start == other.start'))
t('OK raw len',eq('if self.raw.len() != other.raw.len() { return false; }\nself.token == other.token && self.raw == other.raw && self.end == other.end && self.start == other.start'))
t('show chars',(E,W,W.replace('self.end)','self.start + self.raw.chars().count())')))
t('show len',(E,W,W.replace('self.end)','self.end - self.start)')))
t('show plus',(E,W,W.replace('self.start, self.end)','self.start + 1, self.end)')))
t('OK show let',(E,W,'let start = self.start;\nlet end = self.end;\n'+W.replace('self.start, self.end)','start, end)')))
