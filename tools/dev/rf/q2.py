import sys; sys.path.insert(0,'/tmp/rf')
from xrun import bug
N='ratel/src/ast/node.rs'; M='ratel/src/ast/mod.rs'; F='ratel/src/ast/function.rs'; S='ratel/src/ast/statement.rs'; X='ratel/src/ast/expression.rs'; O='ratel/src/ast/operator.rs'; LI='ratel/src/ast/literal.rs'; MO='ratel/src/module.rs'
NE="Debug::fmt(self.deref(), f)"
bug('d node item','Q02',[(N,NE,"Debug::fmt(&self.deref().item, f)")])
bug('d node const','Q02',[(N,NE,"f.write_str(\"Node\")")])
LO="#[derive(Debug, Clone)]\npub struct Loc<T>"
def loc(b): return [(M,LO,LO.replace('Debug, ','')),(M,"impl<T: Copy> Copy for Loc<T> {}","impl<T: Copy> Copy for Loc<T> {}\nimpl<T: ::std::fmt::Debug> ::std::fmt::Debug for Loc<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {\n"+b+"\n} }\n")]
bug('d loc swapped','Q02',loc('f.debug_struct("Loc").field("start", &self.end).field("end", &self.start).field("item", &self.item).finish()'))
bug('d loc noend','Q02',loc('f.debug_struct("Loc").field("start", &self.start).field("item", &self.item).finish()'))
bug('d loc nofinish','Q02',loc('f.debug_struct("Loc").field("start", &self.start).field("end", &self.end).field("item", &self.item); Ok(())'))
bug('d OK loc','Q02',loc('let mut b = f.debug_struct("Loc"); b.field("start", &self.start); let Loc { ref end, ref item, .. } = *self; b.field("end", end).field("item", item); b.finish()'))
bug('d loc fmt','Q02',loc('write!(f, "{:?}", self.item)'))
bug('d OK loc write','Q02',loc('write!(f, "Loc {{ start: {:?}, end: {:?}, item: {:?} }}", self.start, self.end, self.item)'))
FN="#[derive(Debug, PartialEq, Clone, Copy)]\npub struct Function<"
FK="\n#[derive(Debug, PartialEq, Clone, Copy)]\npub enum MethodKind {"
FI="\nimpl<'ast, N: Name<'ast> + ::std::fmt::Debug> ::std::fmt::Debug for Function<'ast, N> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {\nBODY\n} }\n"
def fun(b): return [(F,FN,FN.replace('Debug, ','')),(F,FK,FI.replace('BODY',b)+FK)]
bug('d fun nogen','Q02',fun('f.debug_struct("Function").field("name", &self.name).field("params", &self.params).field("body", &self.body).finish()'))
bug('d OK fun gen if','Q02',fun('let mut b = f.debug_struct("Function"); b.field("name", &self.name); if self.generator { b.field("generator", &true); } b.field("params", &self.params).field("body", &self.body).finish()'))
bug('d fun gen neg','Q02',fun('let mut b = f.debug_struct("Function"); b.field("name", &self.name); b.field("generator", &!self.generator); b.field("params", &self.params).field("body", &self.body).finish()'))
bug('d OK fun q','Q02',fun('let s = self; f.debug_struct("Function").field("name", &s.name).field("generator", &s.generator).field("params", &s.params).field("body", &s.body).finish()'))
bug('d fun params twice','Q02',fun('f.debug_struct("Function").field("name", &self.name).field("generator", &self.generator).field("params", &self.params).field("body", &self.params).finish()'))
bug('d fun params len','Q02',fun('f.debug_struct("Function").field("name", &self.name).field("generator", &self.generator).field("params", &self.params.iter().count()).field("body", &self.body).finish()'))
OK_="#[derive(Debug, PartialEq, Clone, Copy)]\npub enum OperatorKind"
def op(b): return [(O,OK_,OK_.replace('Debug, ','')),(O,"impl OperatorKind {","impl ::std::fmt::Debug for OperatorKind { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {\n"+b+"\n} }\nimpl OperatorKind {")]
bug('d op str','Q02',op('f.write_str(self.as_str())'))
CK="#[derive(Debug, PartialEq, Clone, Copy)]\npub enum DeclarationKind"
L=open('/repo/'+LI).read()
def lit(b): return [(LI,L,L.replace('Debug, ','')+"\n\nimpl<'ast> ::std::fmt::Debug for Literal<'ast> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { use self::Literal::*;\n"+b+"\n} }\n")]
bug('d lit swap','Q02',lit('match *self { Undefined => f.write_str("Undefined"), Null => f.write_str("Null"), True => f.write_str("True"), False => f.write_str("False"), Number(ref a) => f.debug_tuple("Number").field(a).finish(), Binary(ref a) => f.debug_tuple("Number").field(a).finish(), String(ref a) => f.debug_tuple("String").field(a).finish(), RegEx(ref a) => f.debug_tuple("RegEx").field(a).finish() }'))
bug('d OK lit','Q02',lit('let (n, a) = match *self { Undefined => return f.write_str("Undefined"), Null => return f.write_str("Null"), True => return f.write_str("True"), False => return f.write_str("False"), Number(ref a) => ("Number", a), Binary(ref a) => ("Binary", a), String(ref a) => ("String", a), RegEx(ref a) => ("RegEx", a)}; f.debug_tuple(n).field(a).finish()'))
bug('d lit true','Q02',lit('let (n, a) = match *self { Undefined => return f.write_str("Undefined"), Null => return f.write_str("Null"), True | False => return f.write_str("True"), Number(ref a) => ("Number", a), Binary(ref a) => ("Binary", a), String(ref a) => ("String", a), RegEx(ref a) => ("RegEx", a)}; f.debug_tuple(n).field(a).finish()'))
bug('d mod first','Q02',[(MO,'for elem in self.statements().iter() {','for elem in self.statements().iter().take(1) {')])
bug('d mod skip','Q02',[(MO,'for elem in self.statements().iter() {','for elem in self.statements().iter().skip(1) {')])
bug('d mod break','Q02',[(MO,'write!(f, "\\n\\t{:?}", elem).unwrap()','write!(f, "\\n\\t{:?}", elem).unwrap();\n            if elem.end == 0 { break; }')])
bug('d mod twice','Q02',[(MO,'write!(f, "\\n\\t{:?}", elem).unwrap()','write!(f, "\\n\\t{:?}", elem).unwrap();\n            if elem.end == 99 { write!(f, "\\n\\t{:?}", elem).unwrap(); }')])
bug('d mod cond','Q02',[(MO,'write!(f, "\\n\\t{:?}", elem).unwrap()','if elem.start < elem.end { write!(f, "\\n\\t{:?}", elem).unwrap() }')])
bug('d mod item','Q02',[(MO,'write!(f, "\\n\\t{:?}", elem).unwrap()','write!(f, "\\n\\t{:?}", elem.item).unwrap()')])
bug('d OK mod','Q02',[(MO,'        for elem in self.statements().iter() {\n            write!(f, "\\n\\t{:?}", elem).unwrap()\n        }\n        Ok(())','        let list = self.statements();\n        let mut it = list.iter();\n        while let Some(elem) = it.next() {\n            f.write_str("\\n\\t")?;\n            fmt::Debug::fmt(elem, f)?;\n        }\n        Ok(())')])
