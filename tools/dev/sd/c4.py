import sys; sys.path.insert(0,'/tmp/sd')
from plant import plant
X='ratel/src/ast/expression.rs'
plant('c04-conditional-or','C04',[(X,"            Conditional(_) => 4,","            Conditional(_) => 5,")],
 'a conditional as an operand of ||','`(a?b:c)||d` is printed without its parentheses.',
 '''fn main() {
    for min in [true, false] {
        let m = ratel::parse("x = (a ? b : c) || d;").unwrap();
        let s: String = ratel_codegen::codegen(&m, min).chars().filter(|c| !c.is_whitespace()).collect();
        assert_eq!(s, "x=(a?b:c)||d;");
    }
}
''')
plant('c04-negated-base','C04',[(X,"            Prefix(_) => 15,","            Prefix(_) => 16,")],
 'an exponentiation whose base is a prefix expression','`(-a)**b` is printed as `-a**b`.',
 '''fn main() {
    for min in [true, false] {
        let m = ratel::parse("x = (-a) ** b;").unwrap();
        let s: String = ratel_codegen::codegen(&m, min).chars().filter(|c| !c.is_whitespace()).collect();
        assert_eq!(s, "x=(-a)**b;");
    }
}
''')
