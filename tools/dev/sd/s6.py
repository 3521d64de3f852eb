import sys; sys.path.insert(0,'/tmp/sd')
from plant import *
PS='ratel/src/parser/statement.rs'; PE='ratel/src/parser/expression.rs'; PF='ratel/src/parser/function.rs'; PM='ratel/src/parser/mod.rs'; PN='ratel/src/parser/nested.rs'
plant('s05-template-piece','S05',[(PE,"""                TemplateOpen => {
                    let quasi = self.lexer.quasi;
                    quasis.push(self.arena, self.alloc_in_loc(quasi));
                    self.lexer.consume();
""","""                TemplateOpen => {
                    let (first, last) = self.lexer.loc();
                    self.lexer.consume();
                    let quasi = self.lexer.quasi;
                    quasis.push(self.arena, self.alloc_at_loc(first, last, quasi));
""")],"a template whose second or later expression begins with a template","the text between two expressions of a template is replaced by text of a nested template",r'''fn main() {
    let m = ratel::parse("`a${b}c${`x`}d`").unwrap();
    let o = ratel_codegen::codegen(&m, true);
    assert!(o.starts_with("`a${b}c${`x`}d`"), "{}", o);
}
''')
plant('s06-static-start','S06',[(PF,"""        let start = par.lexer.start();

        let is_static = match par.lexer.token {
            Static => {
                par.lexer.consume();
                true
            }
            _ => false
        };
""","""        let is_static = match par.lexer.token {
            Static => {
                par.lexer.consume();
                true
            }
            _ => false
        };

        let start = par.lexer.start();
""")],"a static class member","a static member of a class begins behind the keyword",r'''fn main() {
    let m = ratel::parse("class A { static foo() {} }").unwrap();
    let d = format!("{:?}", m.body());
    assert!(d.contains("Loc { start: 10, end: 25, item: Method"), "{}", d);
}
''')
