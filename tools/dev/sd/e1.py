import sys; sys.path.insert(0,'/tmp/sd')
from plant import plant
plant('e01-error-text','E01',[('ratel/src/lexer/mod.rs','raw: self.slice_source(start, end).to_owned()','raw: self.slice_source(start, self.token_start).to_owned()')],
 'a rejected token that is followed by blanks or a comment',
 'The text of an error contains the white space and comments after the offending token.',
 '''fn main() {
    for (src, raw) in &[("a ? ; b", ";"), ("x = )  /* y */ z", ")"), ("foo(1 2)", "2"), ("if (a] b", "]")] {
        match ratel::parse(src) {
            Ok(_) => panic!("accepted"),
            Err(e) => { assert_eq!(&*e[0].raw, *raw); assert_eq!(&src[e[0].start..e[0].end], *raw); }
        }
    }
}
''')
