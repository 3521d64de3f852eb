import sys; sys.path.insert(0,'/tmp/rf')
from xrun import bug
N='ratel/src/ast/node.rs'; M='ratel/src/ast/mod.rs'; F='ratel/src/ast/function.rs'; S='ratel/src/ast/statement.rs'; X='ratel/src/ast/expression.rs'; O='ratel/src/ast/operator.rs'; LI='ratel/src/ast/literal.rs'
NE="self.deref().eq(other.deref())"
if 1: bug('q node true','Q01',[(N,NE,"true")])
if 1: bug('q node discr','Q01',[(N,NE,"::std::mem::size_of::<T>() > 64 || self.deref().eq(other.deref())")])
if 1: bug('q node ptr','Q01',[(N,NE,"(self.inner.get() as *const Loc<T>) == (other.inner.get() as *const Loc<T>)")])
if 1: bug('q node pos','Q01',[(N,NE,"self.start == other.start && self.deref().eq(other.deref())")])
if 1: bug('q node self','Q01',[(N,NE,"self.deref().eq(self.deref())")])
if 1: bug('q loc end','Q01',[(M,"self.item.eq(&other.item)","self.end == other.end && self.item.eq(&other.item)")])
if 1: bug('q loc len','Q01',[(M,"self.item.eq(&other.item)","self.end - self.start == other.end - other.start && self.item.eq(&other.item)")])
if 1: bug('q loc or','Q01',[(M,"self.item.eq(&other.item)","(self.start, self.end) == (other.start, other.end) || self.item.eq(&other.item)")])
FN="""#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Function<"""
FI="""
impl<'ast, N: Name<'ast> + PartialEq> PartialEq for Function<'ast, N> {
    fn eq(&self, other: &Self) -> bool {
        BODY
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum MethodKind {"""
FK="\n#[derive(Debug, PartialEq, Clone, Copy)]\npub enum MethodKind {"
def fun(b): return [(F,FN,FN.replace('PartialEq, ','')),(F,FK,FI.replace('BODY',b))]
if 1: bug('q fun nogen','Q01',fun("self.name == other.name && self.params == other.params && self.body == other.body"))
if 1: bug('q fun params len','Q01',fun("self.name == other.name && self.generator == other.generator && self.params.iter().count() == other.params.iter().count() && self.body == other.body"))
if 1: bug('q fun swapped','Q01',fun("self.name == other.name && self.generator == self.generator && self.params == other.params && self.body == other.body"))
CM="#[derive(Debug, PartialEq, Clone, Copy)]\npub enum ClassMember"
CT="\n#[derive(Debug, PartialEq, Clone, Copy)]\npub struct Class<"
CI="""
impl<'ast> PartialEq for ClassMember<'ast> {
    fn eq(&self, other: &Self) -> bool {
        use self::ClassMember::*;
        match (self, other) {
            (Error, Error) => true,
            BODY
            _ => false
        }
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Class<"""
def cm(b): return [(F,CM,CM.replace('PartialEq, ','')),(F,CT,CI.replace('BODY',b))]
L="(Literal { is_static: a, key: b, value: c }, Literal { is_static: x, key: y, value: z }) => a == x && b == y && c == z,"
MM="(Method { is_static: a, key: b, kind: c, value: d }, Method { is_static: x, key: y, kind: w, value: z }) => a == x && b == y && c == w && d == z,"
if 1: bug('q OK classmember','Q01',cm(L+MM))
if 1: bug('q cm nostatic','Q01',cm(L+MM.replace('a == x && ','')))
if 1: bug('q cm err','Q01',cm(L+MM+"(Error, _) => true,"))
if 1: bug('q cm kind','Q01',cm(L+MM.replace('c == w','(c == w || b == y)')))
if 1: bug('q op kind','Q01',[(O,"#[derive(Debug, PartialEq, Clone, Copy)]\npub enum OperatorKind","#[derive(Debug, Clone, Copy)]\npub enum OperatorKind"),(O,"impl OperatorKind {","impl PartialEq for OperatorKind { fn eq(&self, o: &Self) -> bool { self.as_str() == o.as_str() } }\nimpl OperatorKind {")])
LB="#[derive(Debug, PartialEq, Clone, Copy)]\npub enum Literal"
def lit(b):
    s=open('/repo/'+LI).read()
    return [(LI,s,s.replace('PartialEq, ','')+"\n\nimpl<'ast> PartialEq for Literal<'ast> {\n    fn eq(&self, other: &Self) -> bool {\n        use self::Literal::*;\n"+b+"\n    }\n}\n")]
if 1: bug('q lit ci','Q01',lit("match (self,other) { (Undefined,Undefined)|(Null,Null)|(True,True)|(False,False) => true, (Number(a),Number(b)) => a.eq_ignore_ascii_case(b), (Binary(a),Binary(b))|(String(a),String(b))|(RegEx(a),RegEx(b)) => a == b, _ => false }"))
if 1: bug('q lit cross','Q01',lit("match (self,other) { (Undefined,Undefined)|(Null,Null)|(True,True)|(False,False) => true, (Number(a),Binary(b)) => a == b, (Number(a),Number(b))|(Binary(a),Binary(b))|(String(a),String(b))|(RegEx(a),RegEx(b)) => a == b, _ => false }"))
if 1: bug('q lit trim','Q01',lit("match (self,other) { (Undefined,Undefined)|(Null,Null)|(True,True)|(False,False) => true, (String(a),String(b)) => a[1..] == b[1..], (Number(a),Number(b))|(Binary(a),Binary(b))|(RegEx(a),RegEx(b)) => a == b, _ => false }"))
if 1: bug('q lit discr','Q01',lit("use std::mem::discriminant; discriminant(self) == discriminant(other) && match (self,other) { (Number(a),Number(b))|(Binary(a),Binary(b))|(String(a),String(b)) => a == b, _ => true }"))
if 1: bug('q OK lit','Q01',lit("use std::mem::discriminant; if discriminant(self) != discriminant(other) { return false; } match (*self,*other) { (Number(a),Number(b))|(Binary(a),Binary(b))|(String(a),String(b))|(RegEx(a),RegEx(b)) => a.len() == b.len() && a.as_bytes() == b.as_bytes(), _ => true }"))
if 1: bug('q OK node','Q01',[(N,NE,"::std::ptr::eq(self.inner.get(), other.inner.get()) || self.item == other.item")])
if 1: bug('q OK loc','Q01',[(M,"self.item.eq(&other.item)","let Loc { ref item, .. } = *self; !(*item != other.item)")])
if 1: bug('q OK fun','Q01',fun("if self.generator != other.generator { return false; } let n = self.name.eq(&other.name); n && self.body.body == other.body.body && !self.params.ne(&other.params)"))
if 1: bug('q OK fun2','Q01',fun("let Function { name, generator, params, body } = *self; (name, generator) == (other.name, other.generator) && (&params, &body) == (&other.params, &other.body)"))
if 1: bug('q OK fun3','Q01',fun("fn same<T: PartialEq>(a: &T, b: &T) -> bool { a == b } match (self.generator, other.generator) { (true, true) | (false, false) => same(&self.name, &other.name) && same(&self.params, &other.params) && same(&self.body, &other.body), _ => false }"))
if 1: bug('q OK fun4','Q01',fun("self.name == other.name && self.generator == other.generator && self.params.iter().eq(other.params.iter()) && self.body == other.body"))
