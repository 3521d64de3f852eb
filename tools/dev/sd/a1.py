import sys; sys.path.insert(0,'/tmp/sd')
from plant import plant
V='ratel/src/astgen/value.rs'; E='ratel/src/astgen/expression.rs'; F='ratel/src/astgen/function.rs'; S='ratel/src/astgen/statement.rs'
plant('r02-long-hex','R02',[(V,"let value = unsafe { number.get_unchecked(2..number.len()) };","let value = unsafe { number.get_unchecked(2..std::cmp::min(number.len(), 18)) };")],
 'a hexadecimal or octal literal with more than 16 digits','Only the first 16 digits of the literal count.',
 '''fn main() {
    let m = ratel::parse("a = 0x10000000000000000;").unwrap();
    let v = serde_json::to_value(&m).unwrap();
    assert_eq!(v["body"][0]["expression"]["right"]["value"].as_f64().unwrap(), 18446744073709551616.0);
    assert_eq!(v["body"][0]["expression"]["right"]["raw"], "0x10000000000000000");
}
''')
plant('a02-upper-octal','A02',[(V,'let is_octal = prefix == "0o" || prefix == "0O";','let is_octal = prefix == "0o";')],
 'an octal literal with an upper-case prefix','The literal is taken for a decimal number, which it is not, and the serializer aborts.',
 '''fn main() {
    let m = ratel::parse("a = 0O17;").unwrap();
    let v = serde_json::to_value(&m).unwrap();
    assert_eq!(v["body"][0]["expression"]["right"]["value"], 15);
}
''')
plant('a01-computed-static','A01',[(F,'("static", &is_static)','("static", &(is_static && kind != MethodKind::Get))')],
 'a static getter','Static getters are serialized as if they were not static.',
 '''fn main() {
    let m = ratel::parse("class A { static get b() { return 1; } static c() {} }").unwrap();
    let v = serde_json::to_value(&m).unwrap();
    let b = &v["body"][0]["body"]["body"];
    assert_eq!(b[0]["static"], true);
    assert_eq!(b[1]["static"], true);
}
''')
plant('a01-bitwise-not','A01',[(E,'''        LogicalNot          |
        BitwiseNot          =>''','''        LogicalNot          =>''')],
 'a bitwise negation','`~a` is serialized as a BinaryExpression.',
 '''fn main() {
    let m = ratel::parse("b = ~a;").unwrap();
    let v = serde_json::to_value(&m).unwrap();
    assert_eq!(v["body"][0]["expression"]["right"]["type"], "UnaryExpression");
}
''')
plant('a01-template-tail','A01',[(V,'tail: quasis.peek().is_none(),','tail: quasis.peek().map_or(true, |next| next.item.is_empty()),')],
 'a template whose last piece is empty','The piece before the empty last one is marked as the last, too.',
 '''fn main() {
    let m = ratel::parse("a = `b${c}d${e}`;").unwrap();
    let v = serde_json::to_value(&m).unwrap();
    let q = &v["body"][0]["expression"]["right"]["quasis"];
    assert_eq!((&q[0]["tail"], &q[1]["tail"], &q[2]["tail"]), (&false.into(), &false.into(), &true.into()));
}
''')
plant('a02-regex-flags','A02',[(V,'for index in (0..value.len()).rev() {','for index in (0..end).rev() {'),(V,'if "/" == &value[index..=index] {','if "/" == &value[index..=index] || index == 1 {')],
 'x','x','fn main(){}') if 0 else None
