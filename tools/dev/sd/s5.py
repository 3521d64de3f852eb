import sys; sys.path.insert(0,'/tmp/sd')
from plant import *
PS='ratel/src/parser/statement.rs'; PE='ratel/src/parser/expression.rs'; PF='ratel/src/parser/function.rs'; PM='ratel/src/parser/mod.rs'; PN='ratel/src/parser/nested.rs'
TIMED=r'''use std::sync::mpsc::channel; use std::time::Duration;
fn main() {
    let (tx, rx) = channel();
    std::thread::spawn(move || { for s in &[%s] { let _ = ratel::parse(s); } tx.send(()).unwrap(); });
    if rx.recv_timeout(Duration::from_millis(400)).is_err() { eprintln!("the parser does not return"); std::process::exit(1); }
}
'''
REJ=r'''fn main() {
    assert!(ratel::parse(%r).is_ok());
    assert!(ratel::parse(%r).is_err(), "accepted");
}
'''
plant('s01-import-list','S01',[(PS,"""                            _ => {
                                self.error::<()>();
                                break;
                            }
                        }
                    }
                },
                OperatorMultiplication""","""                            _ => {
                                self.error::<()>();
                            }
                        }
                    }
                },
                OperatorMultiplication""")],"an import list that is cut off","the parser reports errors forever when the source ends inside of an import list",TIMED%'"import {a} from \'b\'", "import {a,"')
plant('s02-rest-paren','S02',[(PF,"""            _ => self.error()
        };

        expect!(self, ParenClose);
""","""            _ => self.error()
        };

        if self.lexer.token == ParenClose {
            self.lexer.consume();
        }
""")],"a rest parameter without the parenthesis that closes the list","`function f(a, ...b {}` is accepted",(REJ%("function f(a, ...b) {}","function f(a, ...b {}")).replace("'",'"'))
plant('s02-property-comma','S02',[(PE,"""                BraceClose => break,
                Comma      => self.lexer.consume(),
                _          => {
                    self.error::<()>();
                    break;
                }""","""                BraceClose => break,
                Comma      => self.lexer.consume(),
                BracketOpen => {},
                _          => {
                    self.error::<()>();
                    break;
                }""")],"two properties without a comma, the second computed","`({a: b [c]: d})`... the comma before a computed property is optional",r'''fn main() {
    assert!(ratel::parse("x = {a(){}, [c]: d}").is_ok());
    assert!(ratel::parse("x = {a(){} [c]: d}").is_err(), "accepted");
}
''')
plant('s03-const-of','S03',[(PS,"DeclarationConst => Some(self.for_init(DeclarationKind::Const))","DeclarationConst => Some(self.for_init(DeclarationKind::Let))")],"a for statement that declares a constant","the constant of a for statement is stored as a let declaration",r'''fn main() {
    let m = ratel::parse("for (const a of b) {}").unwrap();
    let o = ratel_codegen::codegen(&m, true);
    assert!(o.contains("const a of"), "{}", o);
}
''')
plant('s04-instanceof','S04',[(PN,"binary!(INOF , B11 =>","binary!(INOF , B10 =>")],"instanceof followed by a relational operator","`a instanceof b < c` is grouped as `a instanceof (b < c)`",r'''fn main() {
    let m = ratel::parse("a instanceof b < c").unwrap();
    let o = ratel_codegen::codegen(&m, true);
    assert!(o.starts_with("a instanceof b<c"), "{}", o);
    let d = format!("{:?}", m.body());
    let lt = d.find("Lesser").unwrap(); let i = d.find("Instanceof").unwrap();
    assert!(lt < i, "{}", d);
}
''')
plant('s05-static-constructor','S05',[(PF,'} else if !is_static && label == "constructor" {','} else if label == "constructor" {')],"a static method called constructor","a static method named constructor becomes the constructor of the class",r'''fn main() {
    let m = ratel::parse("class A { static constructor() {} }").unwrap();
    let d = format!("{:?}", m.body());
    assert!(d.contains("is_static: true") && d.contains("kind: Method"), "{}", d);
}
''')
plant('s06-else-end','S06',[(PS,"(Some(alternate), alternate.end)","(Some(alternate), consequent.end)")],"an if statement with an alternative","an if statement with an else ends before it",r'''fn main() {
    let s = "if (a) { b } else { ccc }";
    let m = ratel::parse(s).unwrap();
    let n = m.body().iter().next().unwrap();
    assert_eq!((n.start as usize, n.end as usize), (0, s.len()));
}
''')
plant('s07-continue','S07',[(PS,"""            Asi::NoSemicolon => {
                let label = self.identifier();
                end = label.end;

                self.expect_semicolon();

                Some(label)
            }
        };

        self.alloc_at_loc(start, end, ContinueStatement""","""            Asi::NoSemicolon => {
                let label = self.identifier();
                end = label.end;

                if self.lexer.token == Semicolon {
                    self.lexer.consume();
                }

                Some(label)
            }
        };

        self.alloc_at_loc(start, end, ContinueStatement""")],"a labelled continue followed by something on the same line","`continue a b` is accepted without a terminator",r'''fn main() {
    assert!(ratel::parse("a: for (;;) { continue a\nb }").is_ok());
    assert!(ratel::parse("a: for (;;) { continue a b }").is_err(), "accepted");
}
''')
