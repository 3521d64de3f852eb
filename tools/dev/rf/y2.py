import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
PE='ratel/src/parser/expression.rs'; PS='ratel/src/parser/statement.rs'; PM='ratel/src/parser/mod.rs'; PN='ratel/src/parser/nested.rs'; PF='ratel/src/parser/function.rs'
P='S01 S02 S03 S04 S05 S06 S07 E01'
AE='ratel/src/ast/expression.rs'; AO='ratel/src/ast/operator.rs'
bug('p2 for in seq',P,[(PS,"                    let left = self.alloc_at_loc(left.start, left.end, left);\n","                    let left = self.alloc_at_loc(init.start, left.end, left);\n")])
bug('p2 for in paren',P,[(PS,"                    operator: In,\n                    left,","                    operator: In,\n                    right: left,\n                    left: _right,"),(PS,"                    right,\n                    ..\n                }) = init.item {","                    ..\n                }) = init.item {\n                    let right = left; let left = _right;")])
bug('p2 for of word',P,[(PS,'Identifier if self.lexer.token_as_str() == "of" =>','Identifier if self.lexer.token_as_str().starts_with("of") =>')])
bug('p2 import as',P,[(PS,'if self.lexer.token == Identifier && self.lexer.token_as_str() == "as" {\n                                    self.lexer.consume();','if self.lexer.token == Identifier {\n                                    self.lexer.consume();')])
bug('p2 import from',P,[(PS,'if self.lexer.token == Identifier && self.lexer.token_as_str() == "from" {\n            self.lexer.consume()\n        } else {','if self.lexer.token == Identifier && self.lexer.token_as_str().len() == 4 {\n            self.lexer.consume()\n        } else {')])
bug('p2 import source',P,[(PS,"let str_ltr = self.lexer.token_as_str();\n                &str_ltr[1..str_ltr.len() - 1]","let str_ltr = self.lexer.token_as_str();\n                str_ltr.trim_matches(|c| c == '\"' || c == '\\'')")])
bug('p2 import swap',P,[(PS,"                                    import.local = local;","                                    import.imported = local;")])
bug('p2 switch case end',P,[(PS,"                    end = statement.end;\n","                    if statement.end > end + 1 { end = statement.end; }\n")])
bug('p2 switch default twice',P,[(PS,"                Case | Default | BraceClose | EndOfProgram => break,","                Case | Default | BraceClose | EndOfProgram => break,\n                Semicolon => { par.lexer.consume(); }")])
bug('p2 var decl comma',P,[(PS,"        while let Comma = self.lexer.token {\n            self.lexer.consume();\n            last","        while let Comma = self.lexer.token {\n            self.lexer.consume();\n            if self.lexer.token == Semicolon { break; }\n            last")])
bug('p2 do while asi',P,[(PS,"        if self.lexer.token == Semicolon {\n            self.lexer.consume();\n        }\n\n        self.alloc_at_loc(start, end, DoStatement","        self.expect_semicolon();\n\n        self.alloc_at_loc(start, end, DoStatement")])
bug('p2 if else newline',P,[(PS,"            Else => {\n                self.lexer.consume();","            Else if self.asi() != Asi::ImplicitSemicolon => {\n                self.lexer.consume();")])
bug('p2 throw nl',P,[(PS,"        let value = self.expression::<ANY>();\n\n        self.expect_semicolon();\n\n        self.alloc_at_loc(start, value.end, ThrowStatement","        let value = self.expression::<B0>();\n\n        self.expect_semicolon();\n\n        self.alloc_at_loc(start, value.end, ThrowStatement")])
bug('p2 labeled nl',P,[(PS,"        if self.lexer.token == Colon {\n            self.lexer.consume();\n\n            let body","        if self.lexer.token == Colon {\n            self.lexer.consume();\n            let label = if self.lexer.token == BraceOpen { \"\" } else { label };\n            let body")])
bug('p2 return paren',P,[(PS,"            Asi::NoSemicolon => {\n                let expression = self.expression::<ANY>();\n                end","            Asi::NoSemicolon if self.lexer.token == ParenClose => None,\n            Asi::NoSemicolon => {\n                let expression = self.expression::<ANY>();\n                end")])
bug('p2 class extends body',P,[(PF,"                Some(par.expression::<B0>())\n            },","                Some(par.expression::<::parser::B16>())\n            },")])
bug('p2 params rest only',P,[(PF,"            OperatorSpread => return NodeList::from(self.arena, self.rest_element()),","            OperatorSpread => { let r = self.rest_element(); if self.lexer.token == Comma { self.lexer.consume(); } return NodeList::from(self.arena, r) },")])
bug('p2 params trailing twice',P,[(PF,"                Comma => {\n                    self.lexer.consume();\n                },\n                ParenClose","                Comma => {\n                    self.lexer.consume();\n                    if self.lexer.token == Comma { self.lexer.consume(); }\n                },\n                ParenClose")])
bug('p2 gen name',P,[(PF,"        let name = N::parse(par);\n\n        Function","        let name = N::parse(par);\n        let generator = generator || par.lexer.token == OperatorMultiplication && { par.lexer.consume(); true };\n\n        Function")])
bug('p2 static key',P,[(PF,"                par.lexer.consume();\n                true\n            }\n            _ => false\n        };\n\n        let mut kind","                par.lexer.consume();\n                par.lexer.token != BracketOpen\n            }\n            _ => false\n        };\n\n        let mut kind")])
bug('p2 member bin',P,[(PF,"PropertyKey::Binary(num)","PropertyKey::Literal(num)")])
bug('p2 prop bin',P,[(PE,"PropertyKey::Binary(num)","PropertyKey::Literal(num)")])
bug('p2 array trailing',P,[(PE,"            builder.push(self.arena, get(self))\n        }","            if self.lexer.token == BracketClose { break; }\n            builder.push(self.arena, get(self))\n        }")])
bug('p2 tpl expr',P,[(PE,"expressions.push(self.arena, self.expression::<ANY>());","expressions.push(self.arena, self.expression::<B0>());")])
bug('p2 paren arrow nl',P,[(PE,"                expect!(self, OperatorFatArrow);\n","                if self.lexer.token == OperatorFatArrow || self.lexer.token == OperatorAssign { self.lexer.consume(); } else { self.error::<()>(); }\n")])
bug('p2 arrow body obj',P,[(PE,"            _         => ArrowBody::Expression(self.expression::<B0>()),","            _         => ArrowBody::Expression(self.expression::<ANY>()),")])
bug('p2 meta',P,[(PE,'        if property != "target" {','        if !property.starts_with("target") {')])
bug('p2 new args',P,[(PE,"            if par.lexer.token == ParenOpen {\n                operand","            while par.lexer.token == ParenOpen {\n                operand")])
bug('p2 call trailing',P,[(PE,"                    if self.lexer.token == ParenClose {\n                        break\n                    }\n","                    while self.lexer.token == Comma { self.lexer.consume(); }\n                    if self.lexer.token == ParenClose {\n                        break\n                    }\n")])
bug('p2 inc asi',P,[(PN,"                OperatorIncrement | OperatorDecrement => return None,","                OperatorIncrement => return None,")])
bug('p2 asi tmpl',P,[(PN,"                OperatorIncrement | OperatorDecrement => return None,","                OperatorIncrement | OperatorDecrement | TemplateClosed => return None,")])
bug('p2 lvalue paren',P,[(AE,"fn is_lvalue","fn is_lvalue_")]) if 0 else None
bug('p2 cond alt',P,[(PN,"    let alternate = par.expression::<B1>();","    let alternate = par.expression::<B5>();")])
bug('p2 arrow params seq',P,[(PN,"        Expression::Sequence(SequenceExpression { body }) => body,","        Expression::Sequence(SequenceExpression { body }) if left.end - left.start > 3 => body,")])
bug('p2 cmem end',P,[(PN,"    let end = par.lexer.end();\n    expect!(par, BracketClose);","    let end = par.lexer.end().max(property.end + 1);\n    expect!(par, BracketClose);")]) if 0 else None
bug('p2 conv default',P,[(PM,"                    left: self.pattern_from_expression(left),\n                    right","                    left: self.pattern_from_expression(left),\n                    right: if let Expression::Void = right.item { left } else { right }")])
bug('p2 block dup',P,[(PM,"        let statement = I::parse(self);\n        let builder = ListBuilder::new(self.arena, statement);\n\n        while self.lexer.token != BraceClose &&","        let statement = I::parse(self);\n        let builder = ListBuilder::new(self.arena, statement);\n\n        while self.lexer.token != BraceClose && self.lexer.token != UnexpectedToken &&")])
