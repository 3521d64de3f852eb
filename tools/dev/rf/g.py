from run import rf
V='ratel/src/astgen/value.rs'; E='ratel/src/astgen/expression.rs'; F='ratel/src/astgen/function.rs'; M='ratel/src/astgen/mod.rs'; S='ratel/src/astgen/statement.rs'; C='ratel/src/astgen/macros.rs'
NUM="""                    if number.len() > 2 {
                        let prefix = &number[0..2];
                        let is_hexdecimal = prefix == "0x" || prefix == "0X";
                        let is_octal = prefix == "0o" || prefix == "0O";
                        if is_hexdecimal || is_octal {
                            let value = unsafe { number.get_unchecked(2..number.len()) };
                            let radix = if is_hexdecimal { 16 } else { 8 };
                            serialize_integer(state, value, radix)?;
                            return state.serialize_field("raw", &number)
                        }
                    }
"""
IMPL="impl<'ast> SerializeInLoc for Literal<'ast> {"
rf('OK radix helper match',[(V,NUM,"""                    if let Some(radix) = prefix_radix(number) {
                        serialize_integer(state, &number[2..], radix)?;
                        return state.serialize_field("raw", &number)
                    }
"""),(V,IMPL,"""fn prefix_radix(number: &str) -> Option<u32> {
    if number.len() <= 2 {
        return None;
    }

    match &number[..2] {
        "0x" | "0X" => Some(16),
        "0o" | "0O" => Some(8),
        _           => None,
    }
}

"""+IMPL)])
rf('OK starts_with',[(V,NUM,"""                    let radix = if number.starts_with("0x") || number.starts_with("0X") {
                        16
                    } else if number.starts_with("0o") || number.starts_with("0O") {
                        8
                    } else {
                        10
                    };

                    if radix != 10 {
                        serialize_integer(state, &number[2..], radix)?;
                        return state.serialize_field("raw", &number)
                    }
""")])
rf('OK get prefix',[(V,NUM,"""                    let radix = match number.get(..2) {
                        Some("0x") | Some("0X") => 16,
                        Some("0o") | Some("0O") => 8,
                        _ => 0,
                    };

                    if radix > 0 {
                        serialize_integer(state, &number[2..], radix)?;
                        return state.serialize_field("raw", &number)
                    }
""")])
rf('OK bytes prefix',[(V,NUM,"""                    let radix = match number.as_bytes() {
                        [b'0', b'x', ..] | [b'0', b'X', ..] => 16,
                        [b'0', b'o', ..] | [b'0', b'O', ..] => 8,
                        _ => 0,
                    };

                    if radix > 0 {
                        serialize_integer(state, &number[2..], radix)?;
                        return state.serialize_field("raw", &number)
                    }
""")])
rf('OK float find',[(V,"value.bytes().any(|c| c == b'.')","value.find('.').is_some()")])
rf('OK float contains',[(V,"value.bytes().any(|c| c == b'.')","value.contains('.')")])
rf('OK float loop',[(V,"value.bytes().any(|c| c == b'.')","""for c in value.bytes() {
        if c == b'.' {
            return true;
        }
    }

    false""")])
rf('OK match parse',[(V,"""                    if !is_float(number) {
                        if let Ok(value) = number.parse::<i64>() {
                            state.serialize_field("value", &value)?;
                            return state.serialize_field("raw", &number)
                        }
                    }

                    let value: f64 = number.parse().expect("Invalid number");
                    state.serialize_field("value", &value)?;
                    state.serialize_field("raw", &number)""","""                    match number.parse::<i64>() {
                        Ok(value) => state.serialize_field("value", &value)?,
                        Err(_) => {
                            let value: f64 = number.parse().expect("Invalid number");
                            state.serialize_field("value", &value)?;
                        }
                    }
                    state.serialize_field("raw", &number)""")])
rf('OK regex rfind',[(V,"""    let mut end = value.len() - 1;
    for index in (0..value.len()).rev() {
        if "/" == &value[index..=index] {
            end = index;
            break;
        }
    }
""","""    let end = value.rfind('/').unwrap_or(value.len() - 1);
""")])
rf('OK string slice',[(V,"unsafe { value.get_unchecked(1..value.len() - 1) }","&value[1..value.len() - 1]")])
rf('OK quasis loop',[(V,"""        while let Some(q) = quasis.next() {
            seq.serialize_element(&Loc::new(
                q.start + 1,
                q.end - 1,
                TemplateElement {
                    tail: quasis.peek().is_none(),
                    value: q.item,
                },
            ))?;
        }
""","""        loop {
            let quasi = match quasis.next() {
                Some(quasi) => quasi,
                None => break,
            };
            let tail = !quasis.peek().is_some();
            let element = TemplateElement { tail, value: quasi.item };
            let start = quasi.start + 1;
            let end = quasi.end - 1;

            seq.serialize_element(&Loc::new(start, end, element))?;
        }
""")])
rf('OK computed helper',[(V,"impl<'ast> SerializeInLoc for Property<'ast> {","""fn is_computed(key: &PropertyKey) -> bool {
    match *key {
        PropertyKey::Computed(_) => true,
        _ => false,
    }
}

impl<'ast> SerializeInLoc for Property<'ast> {"""),(V,"""                let computed = if let PropertyKey::Computed(_) = key.item {
                    true
                } else {
                    false
                };
""","""                let computed = is_computed(&key.item);
"""),(V,"""                let computed = if let PropertyKey::Computed(_) = key.item {
                    true
                } else {
                    false
                };
""","""                let computed = is_computed(&key.item);
""")])
rf('OK kind match',[(F,"""        match *self {
            Constructor => serializer.serialize_str("constructor"),
            Method => serializer.serialize_str("method"),
            Get => serializer.serialize_str("get"),
            Set => serializer.serialize_str("set"),
        }
""","""        let kind = match *self {
            Constructor => "constructor",
            Method => "method",
            Get => "get",
            Set => "set",
        };

        serializer.serialize_str(kind)
""")])
rf('OK module match',[(M,"""        let mut start = 0;
        let mut end = 0;
        let mut iter = body.iter();

        if let Some(node) = iter.next() {
            start = node.start;
            end = node.end;
        }

        if let Some(node) = iter.last() {
            end = node.end;
        }
""","""        let start = body.iter().next().map(|node| node.start).unwrap_or(0);
        let end = body.iter().last().map(|node| node.end).unwrap_or(0);
""")])
rf('OK module loop',[(M,"""        if let Some(node) = iter.last() {
            end = node.end;
        }
""","""        for node in iter {
            end = node.end;
        }
""")])
rf('OK array loop',[(E,"""            let mut elems = self.body.iter()
                                     .map(|loc| if loc.item != Expression::Void { Some(loc) } else { None } )
                                     .collect::<Vec<_>>();
            loop {
                let should_pop = match elems.last() {
                    Some(&None) => true,
                    Some(&Some(_)) => break,
                    None => break,
                };

                if should_pop {
                    elems.pop();
                }
            }
""","""            let mut elems = Vec::new();

            for loc in self.body.iter() {
                match loc.item {
                    Expression::Void => elems.push(None),
                    _ => elems.push(Some(loc)),
                }
            }

            while let Some(&None) = elems.last() {
                elems.pop();
            }
""")])
rf('OK new call',[(E,"""            use self::Expression::*;
            match self.operand.item {
                Call(CallExpression { ref callee, ref arguments }) => {
                    self.in_loc(serializer, expr_type, 2, |state| {
                        state.serialize_field("callee", callee)?;
                        state.serialize_field("arguments", arguments)
                    })
                },
                _ => {
                    self.in_loc(serializer, expr_type, 2, |state| {
                        // 0 byte array, will be optimized away
                        let arguments: [(); 0] = [];
                        state.serialize_field("callee", &self.operand)?;
                        state.serialize_field("arguments", &arguments)
                    })
                }
            }
        } else {""","""            if let Expression::Call(ref call) = self.operand.item {
                return self.in_loc(serializer, "NewExpression", 2, |state| {
                    state.serialize_field("callee", &call.callee)?;
                    state.serialize_field("arguments", &call.arguments)
                });
            }

            let none: &[()] = &[];

            self.in_loc(serializer, "NewExpression", 2, |state| {
                state.serialize_field("callee", &self.operand)?;
                state.serialize_field("arguments", none)
            })
        } else {""")])
rf('OK in_loc',[(M,"        build(&mut state).map(move |_| state)","        build(&mut state)?;\n        Ok(state)")])
rf('OK reorder',[(S,"""            state.serialize_field("block", &self.block)?;
            state.serialize_field("handler", &self.handler)?;
            state.serialize_field("finalizer", &self.finalizer)""","""            state.serialize_field("handler", &self.handler)?;
            state.serialize_field("finalizer", &self.finalizer)?;
            state.serialize_field("block", &self.block)""")])
rf('OK fold loop',[(V,"""    let value = digits.bytes().fold(0.0, |value: f64, digit| {
        value * f64::from(radix) + f64::from((digit as char).to_digit(radix).unwrap_or(0))
    });
""","""    let mut value = 0.0;

    for digit in digits.chars() {
        value = value * f64::from(radix) + f64::from(digit.to_digit(radix).unwrap_or(0));
    }
""")])
rf('OK fold chars',[(V,"""    let value = digits.bytes().fold(0.0, |value: f64, digit| {
        value * f64::from(radix) + f64::from((digit as char).to_digit(radix).unwrap_or(0))
    });
""","""    let base = f64::from(radix);
    let value = digits.chars().fold(0.0, |sum: f64, c| sum * base + f64::from(c.to_digit(radix).unwrap_or(0)));
""")])
# bugs
rf('BUG 0X',[(V,'prefix == "0x" || prefix == "0X"','prefix == "0x"')])
rf('BUG len 3',[(V,'if number.len() > 2 {','if number.len() > 3 {')])
rf('BUG radix',[(V,'let radix = if is_hexdecimal { 16 } else { 8 };','let radix = if is_hexdecimal || number.len() > 8 { 16 } else { 8 };')])
rf('BUG fold',[(V,'unwrap_or(0))','unwrap_or(0) & 7)')])
rf('BUG expect',[(V,"""                        if let Ok(value) = number.parse::<i64>() {
                            state.serialize_field("value", &value)?;
                            return state.serialize_field("raw", &number)
                        }
""","""                        let value = number.parse::<i64>().expect("Invalid integer");
                        state.serialize_field("value", &value)?;
                        return state.serialize_field("raw", &number)
""")])
rf('BUG f32',[(V,'let value: f64 = number.parse().expect("Invalid number");','let value: f32 = number.parse().expect("Invalid number");')])
rf('BUG as i32',[(V,'return state.serialize_field("value", &value);\n    }','return state.serialize_field("value", &(value as i32));\n    }')])
rf('BUG regex first',[(V,"(0..value.len()).rev()","0..value.len()")])
rf('BUG rest',[(V,'RestElement { argument } => self.in_loc(serializer, "RestElement"','RestElement { argument } => self.in_loc(serializer, "SpreadElement"')])
rf('BUG tail',[(V,'tail: quasis.peek().is_none()','tail: q.item.is_empty() || quasis.peek().is_none()')])
rf('BUG hole',[(E,'Some(&None) => true,','Some(&None) => elems.len() > 1,')])
rf('BUG setter',[(F,'Set => serializer.serialize_str("set")','Set => serializer.serialize_str("get")')])
rf('BUG finally',[(S,'("finalizer", &self.finalizer)','("finalizer", &self.handler)')])
rf('BUG update',[(S,'("update", &self.update)','("update", &self.test)')])
rf('BUG module end',[(M,"""            start = node.start;
            end = node.end;
        }
""","""            start = node.start;
        }
""")])
rf('BUG optype',[(E,"        LogicalNot          |\n        BitwiseNot          =>","        BitwiseNot          =>")])
rf('BUG static',[(F,'("static", &is_static)','("static", &(is_static && !computed))')])
rf('BUG regex find',[(V,"""    let mut end = value.len() - 1;
    for index in (0..value.len()).rev() {
        if "/" == &value[index..=index] {
            end = index;
            break;
        }
    }
""","""    let end = value[1..].find('/').map(|index| index + 1).unwrap_or(value.len() - 1);
""")])
