import sys; sys.path.insert(0,'/tmp/sd')
from plant import plant
X='ratel/src/error.rs'
D='''use ratel::error::ParseError;
fn message(s: &str) -> String {
    let e = match ratel::parse(s) { Err(mut e) => e.remove(0), Ok(_) => panic!("no error") };
    format!("{}", ParseError::UnexpectedToken { source: s.to_string(), start: e.start, end: e.end })
}
'''
plant('r03-tenth-line','R03',[(X,"let width = log10(lineno + 3);","let width = log10(lineno.max(1));")],
 'an error on line 10, 100, ...','The column of line numbers is too narrow, so that the marker is shifted against the source line.',
 D+r'''fn main() {
    let s = format!("{}ab = );", "x;\n".repeat(9));
    let m = message(&s);
    let l: Vec<&str> = m.lines().collect();
    let i = l.iter().position(|x| x.contains("ab = );")).unwrap();
    assert_eq!(l[i].find(')'), l[i + 1].find('^'), "{}", m);
}
''')
