import sys; sys.path.insert(0,'/tmp/sd')
from plant import *
LM='ratel/src/lexer/mod.rs'
plant('l01-escape-at-end','L01',[(LM,"""                lex.bump();
                expect_byte!(lex);
""","""                lex.bump();
                lex.bump();
""")],"a source that ends with a backslash inside of a string literal","a string with a backslash as the last byte of the source is read on behind the terminator",
r'''use ratel::lexer::{Lexer, Token};
fn main() {
    // what stands behind the terminator must not matter
    let src = b"\"a\\\0\" + x\0";
    let mut lex = unsafe { Lexer::from_ptr(src.as_ptr()) };
    assert!(lex.token == Token::UnexpectedEndOfProgram);
    lex.consume();
    assert!(lex.token == Token::EndOfProgram);
    assert!(lex.end() <= 3);
}
''')
plant('l02-accessor-table','L02',[(LM,"                if ch > 127 {","                if ch > 0xE0 {")],"a member access whose name starts with a two-byte character","`a.\\u{e9}` indexes behind the table of label bytes and panics",
r'''fn main() { let m = ratel::parse("a.\u{e9}"); assert!(m.is_ok()); }
''')
plant('l03-dollar-in-label','L03',[('ratel/src/lexer/util.rs',"__, __, __, __, DO,","__, __, __, __, __,")],"an identifier with a dollar sign behind its first character","`a$b` is split into two identifiers",
r'''fn main() { assert!(ratel::parse("a$b;").is_ok()); assert!(ratel::parse("var in$ = 1, x = a$;").is_ok()); }
''')
plant('l04-exponent-plus','L04',[(LM,"            b'-' | b'+' => self.bump(),","            b'-' => self.bump(),")],"an exponent with an explicit plus sign","`1e+5` is not a number any more",
r'''use ratel::lexer::{Lexer, Token};
fn main() {
    let a = toolshed::Arena::new();
    for s in &["1e+5", "1.5E+10", "0e+1", ".5e+1", "1e-5"] {
        let lex = Lexer::new(&a, s);
        assert!(lex.token == Token::LiteralNumber && lex.token_as_str() == *s, "{}", s);
    }
}
''')
plant('l04-regex-class-escape','L04',[(LM,"""                    self.bump();
                    in_class = false;
""","""                    self.bump();
                    in_class = self.read_byte() == b'/';
""")],"a regular expression whose last item is a class","`/[a]/` is read on behind its closing slash",
r'''fn main() { assert!(ratel::parse("x = /[a]/;").is_ok()); assert!(ratel::parse("x = /[/]/g;").is_ok()); }
''')
plant('l05-indented-line','L05',[(LM,"""            if ch == b'\\n' {
                self.asi = Asi::ImplicitSemicolon;
            }
""","""            if ch == b'\\n' {
                self.asi = Asi::ImplicitSemicolon;
            } else if ch == b'\\t' {
                self.asi = Asi::NoSemicolon;
            }
""")],"a line break followed by a tab, without an explicit semicolon","the line break before an indented line is forgotten",
r'''fn main() { assert!(ratel::parse("a\n\tb").is_ok()); }
''')
plant('v01-tagged-quasi','V01',[('ratel-visitor/src/expression.rs',"""        self.tag.visit_with(visitor);
        self.quasi.visit_with(visitor);
""","""        self.tag.visit_with(visitor);
        if !self.quasi.expressions.only_element().is_some() {
            self.quasi.visit_with(visitor);
        }
""")],"a tagged template with exactly one substitution","the substitution of a tagged template is not visited",
r'''use ratel_visitor::*; use ratel::ast::*;
struct V(usize);
impl<'ast> Visitor<'ast> for V { fn on_reference_use(&mut self, _: &Identifier<'ast>) { self.0 += 1; } }
fn main() {
    for (s, n) in &[("a`${b}`", 2), ("a`${b}${c}`", 3), ("a``", 1)] {
        let m = ratel::parse(s).unwrap();
        let mut v = V(0);
        m.visit_with(&mut v);
        assert_eq!(v.0, *n, "{}", s);
    }
}
''')
