import subprocess
F='/repo/ratel/src/ast/operator.rs'
S=open(F).read()
def t(name,*ed):
    s=S
    for a,b in ed:
        if a not in s: print(name,'NOTFOUND',a[:40]); return
        s=s.replace(a,b,1)
    open(F,'w').write(s)
    o=subprocess.run(['python3','/verif/lib/operators.py'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True).stdout.splitlines()
    v=[l for l in o if l.startswith(('VIOL','UNAN'))]
    print(name,'|',(v or o[-1:])[0][:200], len(v), flush=True)
    open(F,'w').write(S)
def body(fn,ret,new):
    i=S.index('pub fn %s('%fn); a=S.index('{',i); d=0
    for k in range(a,len(S)):
        d+= {'{':1,'}':-1}.get(S[k],0)
        if d==0: break
    return (S[a:k+1],'{\n'+new+'\n}')
t('prefix drop',('            Increment        |\n            Decrement        |\n            Addition         |\n            Subtraction      => true','            Addition         |\n            Subtraction      => true'))
t('infix drop',('            Exponent         |\n            StrictEquality','            StrictEquality'))
t('token swap',('OperatorGreaterEquals    => Some(GreaterEquals)','OperatorGreaterEquals    => Some(Greater)'))
t('token none',('            OperatorSpread           => Some(Spread),\n',''))
t('assignment drop',('            BitXorAssign     |\n            BitOrAssign      => true,\n\n            _                => false\n        }\n    }\n\n    #[inline]\n    pub fn category','            BitXorAssign     => true,\n\n            _                => false\n        }\n    }\n\n    #[inline]\n    pub fn category'))
t('bp',('            BitwiseXor       => 8','            BitwiseXor       => 9'))
t('OK matches',body('prefix','','matches!(self, LogicalNot | BitwiseNot | Typeof | Void | Delete | New | Spread | Increment | Decrement | Addition | Subtraction)'))
t('OK assignment bp',body('assignment','','self.binding_power() == 3'))
t('OK assignment eq',body('assignment','','*self == Assign || self.as_str().len() > 1 && self.binding_power() == 3'))
t('OK infix neg',body('infix','','match *self { New | Increment | Decrement | LogicalNot | BitwiseNot | Typeof | Void | Delete | Spread => false, _ => true }'))
t('OK if chain',body('category','','if let In | New | Typeof | Void | Delete | Instanceof = *self { return OperatorCategory::Word; }\nif *self == Addition || *self == Increment { return OperatorCategory::Plus; }\nif *self == Subtraction || *self == Decrement { return OperatorCategory::Minus; }\nOperatorCategory::Safe'))
t('OK array',body('prefix','','[LogicalNot, BitwiseNot, Typeof, Void, Delete, New, Spread, Increment, Decrement, Addition, Subtraction].contains(self)'))
t('OK array any',body('prefix','','const P: [OperatorKind; 11] = [LogicalNot, BitwiseNot, Typeof, Void, Delete, New, Spread, Increment, Decrement, Addition, Subtraction];\nP.iter().any(|o| o == self)'))
t('OK text category',body('category','','match self.as_str() { "in" | "new" | "typeof" | "void" | "delete" | "instanceof" => OperatorCategory::Word, "+" | "++" => OperatorCategory::Plus, "-" | "--" => OperatorCategory::Minus, _ => OperatorCategory::Safe }'))
t('OK let kind',body('assignment','','let bp = self.binding_power();\nlet conditional = Conditional.binding_power();\nbp < conditional && bp > Spread.binding_power()'))
