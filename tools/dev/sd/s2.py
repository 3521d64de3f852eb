import sys; sys.path.insert(0,'/tmp/sd')
from plant import *
CE='ratel-codegen/src/expression.rs'; CS='ratel-codegen/src/statement.rs'; CL='ratel-codegen/src/lib.rs'
plant('c07-empty-object','C07',[(CE,"""        let mut properties = self.body.iter();

        match properties.next() {
            Some(property) => {
                gen.write_byte(b'{');
                gen.indent();
                gen.new_line();
""","""        let mut properties = self.body.iter();

        gen.indent();

        match properties.next() {
            Some(property) => {
                gen.write_byte(b'{');
                gen.new_line();
""")],"an empty object literal followed by another statement","the indentation is not reset behind an empty object",
r'''fn main() {
    let m = ratel::parse("a = {}; b;").unwrap();
    assert_eq!(ratel_codegen::codegen(&m, false), "a = {};\nb;");
}
''')
plant('c02-word-else','C02',[(CS,"""            if alternate.is_block() {
                gen.write_pretty(b' ');
            } else {
                gen.write_byte(b' ');
            }""","""            if alternate.is_block() || self.consequent.is_block() {
                gen.write_pretty(b' ');
            } else {
                gen.write_byte(b' ');
            }""")],"an if statement with a block and an else branch that is no block, minified","minified output glues `else` to the word behind it",
r'''fn main() {
    let m = ratel::parse("if (a) { b } else c").unwrap();
    let o = ratel_codegen::codegen(&m, true);
    assert!(o.contains("else c"), "{}", o);
}
''')
plant('c04-tag','C04',[(CE,"gen.write_expression(&self.tag, 17);","gen.write_expression(&self.tag, 15);")],"a tagged template whose tag is a parenthesised unary expression","the parentheses around the tag are lost",
r'''fn main() {
    for min in &[true, false] {
        let m = ratel::parse("(!a)`b`").unwrap();
        assert_eq!(ratel_codegen::codegen(&m, *min), "(!a)`b`;");
    }
}
''')
plant('c06-char-pieces','C06',[(CL,"""        for item in items {
            self.write_byte(b',');
            self.write_pretty(b' ');
            self.write(item);
        }
    }
""","""        for item in items {
            self.write_byte(b',');
            self.write_pretty(0xA0);
            self.write(item);
        }
    }
""")],"a declaration of two variables, pretty printed","the output is not valid UTF-8",
r'''fn main() {
    let m = ratel::parse("var a, b;").unwrap();
    let o = ratel_codegen::codegen(&m, false);
    assert!(String::from_utf8(o.into_bytes()).is_ok());
}
''')
0 and plant("v02-block-scope","V02",[("ratel-visitor/src/statement.rs","""
        self.body.visit_with(visitor);
        visitor.on_leave_scope();
    }
}

impl<'ast> Visitable<'ast> for Node""","""        visitor.on_enter_scope(ScopeKind::Block);
        self.body.visit_with(visitor);
        if self.body.only_element().is_none() || self.body.iter().next().is_some() {
            visitor.on_leave_scope();
        }
    }
}

impl<'ast> Visitable<'ast> for Node""")],"x","x","fn main(){}") if 0 else None
plant('v02-single-statement-block','V02',[('ratel-visitor/src/statement.rs',"""        visitor.on_enter_scope(ScopeKind::Block);
        self.body.visit_with(visitor);
        visitor.on_leave_scope();
    }
}

impl<'ast> Visitable<'ast> for Node""","""        if let Some(statement) = self.body.only_element() {
            return statement.visit_with(visitor);
        }

        visitor.on_enter_scope(ScopeKind::Block);
        self.body.visit_with(visitor);
        visitor.on_leave_scope();
    }
}

impl<'ast> Visitable<'ast> for Node""")],"a nested block with exactly one statement","no scope is opened for such a block",
r'''use ratel_visitor::*; use ratel::ast::*;
struct V(usize);
impl<'ast> Visitor<'ast> for V { fn on_enter_scope(&mut self, _: ScopeKind) { self.0 += 1; } }
fn main() {
    for (s, n) in &[("{ let a; }", 1), ("{ let a; let b; }", 1), ("{ { a; } b; }", 2)] {
        let m = ratel::parse(s).unwrap();
        let mut v = V(0);
        m.visit_with(&mut v);
        assert_eq!(v.0, *n, "{}", s);
    }
}
''')
plant('v03-default-param','V03',[('ratel-visitor/src/function.rs',"""impl<'ast> Visitable<'ast> for OptionalName<'ast> {
    type Parent = ExpressionNode<'ast>;

    #[inline]
    fn visit_with<V>(&'ast self, _: &mut V)
    where
        V: Visitor<'ast>,
    {}
""","""impl<'ast> Visitable<'ast> for OptionalName<'ast> {
    type Parent = ExpressionNode<'ast>;

    #[inline]
    fn visit_with<V>(&'ast self, visitor: &mut V)
    where
        V: Visitor<'ast>,
    {
        if let Some(ref name) = self.0 {
            visitor.on_reference_use(&name.item);
        }
    }
""")],"a named function or class expression","the name of a function expression is reported as a use of a variable",
r'''use ratel_visitor::*; use ratel::ast::*;
struct V(Vec<String>);
impl<'ast> Visitor<'ast> for V { fn on_reference_use(&mut self, i: &Identifier<'ast>) { self.0.push(i.to_string()); } }
fn main() {
    let m = ratel::parse("x = function foo() {}; y = class Bar {};").unwrap();
    let mut v = V(Vec::new());
    m.visit_with(&mut v);
    assert_eq!(v.0, ["x", "y"]);
}
''')
