import sys; sys.path.insert(0,'/tmp/sd')
from plant import plant
W='ratel-wasm/src/lib.rs'
plant('w01-error-span','W01',[(W,'Error { start, end, .. } => {','Error { start, end, .. } => {\n               let end = if end > start + 1 { end - 1 } else { end };')],
 'a syntax error at a token of two or more bytes','The last character of the offending token is left out of the reported error.',
 '''fn main() {
    let s = "let a = 1;\\nfoo bar;\\n";
    let out = ratel_wasm_lib::transform(s, true);
    let e = ratel::parse(s).err().unwrap();
    let want = ratel::error::ParseError::UnexpectedToken { start: e[0].start, end: e[0].end, source: s.to_string() };
    assert_eq!(out, format!("Error: {}", want));
    assert_eq!(ratel_wasm_lib::transform("a=1", true), "a=1;");
}
''')
plant('w01-compact-estree','W01',[(W,'				serde_json::to_string_pretty(&module).unwrap()','				serde_json::to_string(&module).unwrap()')],
 'a call of generateASTEstree without minify','The option is ignored: the ESTree output is always compact.',
 '''fn main() {
    let a = ratel_wasm_lib::generate_ast_estree("a=1", true);
    let b = ratel_wasm_lib::generate_ast_estree("a=1", false);
    assert!(!a.contains('\\n'));
    assert!(b.contains('\\n'));
    let (a, b): (serde_json::Value, serde_json::Value) = (serde_json::from_str(&a).unwrap(), serde_json::from_str(&b).unwrap());
    assert_eq!(a, b);
}
''')
