import sys; sys.path.insert(0,'/tmp/sd')
from plant import *
CE='ratel-codegen/src/expression.rs'; CS='ratel-codegen/src/statement.rs'; CL='ratel-codegen/src/lib.rs'; VS='ratel-visitor/src/statement.rs'
plant('c02-throw-space','C02',[(CS,"""        gen.write_bytes(b"throw ");""","""        gen.write_bytes(b"throw");
        gen.write_pretty(b' ');""")],"a throw statement, minified","minified output glues `throw` to its operand",
r'''fn main() {
    let m = ratel::parse("throw a;").unwrap();
    let o = ratel_codegen::codegen(&m, true);
    assert!(o.contains("throw a"), "{}", o);
}
''')
plant('v02-switch-scope','V02',[(VS,"""        self.discriminant.visit_with(visitor);
        visitor.on_enter_scope(ScopeKind::Block);""","""        visitor.on_enter_scope(ScopeKind::Block);
        self.discriminant.visit_with(visitor);""")],"a switch statement","the discriminant of a switch is visited inside of the scope of its cases",
r'''use ratel_visitor::*; use ratel::ast::*;
struct V { d: usize, log: Vec<(String, usize)> }
impl<'ast> Visitor<'ast> for V {
    fn on_enter_scope(&mut self, _: ScopeKind) { self.d += 1; }
    fn on_leave_scope(&mut self) { self.d -= 1; }
    fn on_reference_use(&mut self, i: &Identifier<'ast>) { self.log.push((i.to_string(), self.d)); }
}
fn main() {
    let m = ratel::parse("switch (a) { case b: c; }").unwrap();
    let mut v = V { d: 0, log: Vec::new() };
    m.visit_with(&mut v);
    assert_eq!(v.log, [("a".to_string(), 0), ("b".to_string(), 1), ("c".to_string(), 1)]);
}
''')
plant('v03-label','V03',[(VS,"""    fn visit_with<V: Visitor<'ast>>(&self, _visitor: &mut V) {
        // FIXME:
        // INTENTIONALLY KEPT EMPTY FOR NOW!
        // The identifier here is a label reference, _not_ a variable!
    }""","""    fn visit_with<V: Visitor<'ast>>(&self, visitor: &mut V) {
        if let Some(ref label) = self.label {
            visitor.on_reference_use(&label.item);
        }
    }""")],"a break statement with a label","the label of a break statement is reported as a use of a variable",
r'''use ratel_visitor::*; use ratel::ast::*;
struct V(Vec<String>);
impl<'ast> Visitor<'ast> for V { fn on_reference_use(&mut self, i: &Identifier<'ast>) { self.0.push(i.to_string()); } }
fn main() {
    let m = ratel::parse("foo: while (a) { break foo; }").unwrap();
    let mut v = V(Vec::new());
    m.visit_with(&mut v);
    assert_eq!(v.0, ["a"]);
}
''')
plant('v01-default-before-params','V01',[('ratel-visitor/src/expression.rs',"""        self.tag.visit_with(visitor);
        self.quasi.visit_with(visitor);
""","""        self.quasi.visit_with(visitor);
        self.tag.visit_with(visitor);
""")],"a visitor that depends on source order in tagged templates","the tag of a template is visited after its substitutions",
r'''use ratel_visitor::*; use ratel::ast::*;
struct V(Vec<String>);
impl<'ast> Visitor<'ast> for V { fn on_reference_use(&mut self, i: &Identifier<'ast>) { self.0.push(i.to_string()); } }
fn main() {
    let m = ratel::parse("a`${b}${c}`").unwrap();
    let mut v = V(Vec::new());
    m.visit_with(&mut v);
    assert_eq!(v.0, ["a", "b", "c"]);
}
''')
