import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
L='ratel/src/lexer/mod.rs'; PE='ratel/src/parser/expression.rs'; PS='ratel/src/parser/statement.rs'; PM='ratel/src/parser/mod.rs'; PN='ratel/src/parser/nested.rs'; PF='ratel/src/parser/function.rs'
GE='ratel-codegen/src/expression.rs'; GS='ratel-codegen/src/statement.rs'; GF='ratel-codegen/src/function.rs'; G='ratel-codegen/src/lib.rs'
P='S01 S02 S03 S04 S05 S06 S07 E01'; LX='L01 L02 L03 L04 L05'; C='C01 C02 C03 C04 C06 C07'
bug('l tpl dollar',LX,[(L,"                        b'{' => self.bump(),\n                        _    => continue","                        b'{' => self.bump(),\n                        0    => continue,\n                        _    => { self.bump(); continue }")])
bug('l unicode 4',LX,[(L,"            0xE0..=0xEF => 3,\n            _           => 4,","            _           => 3,")])
bug('l comment stars',LX,[(L,"                            0 => return lex.token = UnexpectedEndOfProgram,\n                            _ => {}\n                        }\n                    },\n                    0 =>","                            0 => return lex.token = UnexpectedEndOfProgram,\n                            b'\\n' => lex.asi = Asi::ImplicitSemicolon,\n                            _ => lex.bump()\n                        }\n                    },\n                    0 =>")])
bug('l comment eof',LX+' S02',[(L,"                    0 => return lex.token = UnexpectedEndOfProgram,\n                    b'\\n' => {","                    0 => return lex.scan(),\n                    b'\\n' => {")])
bug('l asi stale',LX+' S07',[(L,"        self.asi = Asi::NoSemicolon;\n        self.scan();","        if self.token != BracketClose {\n            self.asi = Asi::NoSemicolon;\n        }\n        self.scan();")])
bug('l asi initial',LX,[(L,"            asi: Asi::NoSemicolon,","            asi: Asi::ImplicitSemicolon,")])
bug('l str style',LX,[(L,"            ch if ch == style => {","            ch if ch == style || ch == style ^ 5 && lex.index - lex.token_start > 64 => {")])
bug('l accessor start',LX+' S05',[(L,"                self.accessor_start = self.index;\n\n                if ch > 127","                if ch != b'$' { self.accessor_start = self.index; }\n\n                if ch > 127")])
bug('l zero dot',LX,[(L,"            b'.' => {\n                lex.bump();\n\n                return lex.read_float();\n            },\n            b'e' | b'E' => {\n                lex.bump();\n\n                return lex.read_scientific();\n            }\n            _ => break,","            b'.' => {\n                lex.bump();\n                if lex.read_byte() == b'.' { break; }\n\n                return lex.read_float();\n            },\n            b'e' | b'E' => {\n                lex.bump();\n\n                return lex.read_scientific();\n            }\n            _ => break,")])
bug('l eof once',LX,[(L,"    lex.asi = Asi::ImplicitSemicolon;\n\n    lex.token = EndOfProgram;","    if lex.token != UnexpectedEndOfProgram { lex.asi = Asi::ImplicitSemicolon; }\n\n    lex.token = EndOfProgram;")])
bug('p seq trailing',P,[(PN,"    while let Comma = par.lexer.token {\n        par.lexer.consume();\n        builder","    while let Comma = par.lexer.token {\n        par.lexer.consume();\n        if par.lexer.token == ParenClose { break; }\n        builder")])
bug('p static ctor',P,[(PF,"} else if !is_static && label == \"constructor\" {","} else if label == \"constructor\" {")])
bug('p get ctor',P,[(PF,"                    token_end = par.lexer.end_then_consume();\n                } else","                    token_end = par.lexer.end_then_consume();\n                    if label == \"constructor\" { kind = MethodKind::Constructor; }\n                } else")])
bug('p pattern void',P,[(PM,"            _ => self.error()\n        };\n\n        self.alloc_at_loc(expression.start, expression.end, pattern)","            Expression::Literal(_) => Pattern::Void,\n            _ => self.error()\n        };\n\n        self.alloc_at_loc(expression.start, expression.end, pattern)")])
bug('p errors body',P,[(PM,"        0 => Ok(Module::new(body, arena)),","        0 => Ok(Module::new(body, arena)),\n        n if n == 1 && errors[0].start == errors[0].end && errors[0].start == 0 => Ok(Module::new(body, arena)),")])
bug('p class semi',P,[(PF,"        if par.lexer.token == Semicolon {\n            par.lexer.consume();\n        }\n\n        par.alloc_at_loc(start, end, member)","        while par.lexer.token == Semicolon || par.lexer.token == Comma {\n            par.lexer.consume();\n        }\n\n        par.alloc_at_loc(start, end, member)")])
bug('p for in brace',P,[(PS,"        let right = self.expression::<ANY>();\n\n        expect!(self, ParenClose);\n\n        let body = self.statement();\n\n        self.alloc_at_loc(start, body.end, ForOfStatement","        let right = self.expression::<ANY>();\n\n        if self.lexer.token == ParenClose { self.lexer.consume(); }\n\n        let body = self.statement();\n\n        self.alloc_at_loc(start, body.end, ForOfStatement")])
bug('p for of kind',P,[(PS,"                OperatorIn => {\n                    self.lexer.consume();\n                    return self.for_in_statement(start, *init);","                OperatorIn => {\n                    self.lexer.consume();\n                    if self.lexer.token == BracketOpen { return self.for_of_statement(start, *init); }\n                    return self.for_in_statement(start, *init);")])
bug('p return label',P,[(PS,"            Asi::NoSemicolon => {\n                let expression = self.expression::<ANY>();\n                end = expression.end;\n\n                self.expect_semicolon();","            Asi::NoSemicolon => {\n                let expression = self.expression::<ANY>();\n                end = expression.end;\n\n                if self.lexer.token != Colon { self.expect_semicolon(); }")])
bug('p catch param',P,[(PS,"                let param = Pattern::parse(self);\n                expect!(self, ParenClose);","                let param = Pattern::parse(self);\n                if self.lexer.token == OperatorAssign { self.lexer.consume(); self.expression::<B0>(); }\n                expect!(self, ParenClose);")])
bug('p if empty else',P,[(PS,"                self.lexer.consume();\n                let alternate = self.statement();\n                (Some(alternate), alternate.end)","                self.lexer.consume();\n                let alternate = self.statement();\n                if let Statement::Empty = alternate.item { (None, alternate.end) } else { (Some(alternate), alternate.end) }")])
bug('p rest param',P,[(PF,"            OperatorSpread => return NodeList::from(self.arena, self.rest_element()),\n","            OperatorSpread => { self.rest_element(); return NodeList::empty() },\n")])
bug('p extends any',P,[(PF,"Some(par.expression::<B0>())","Some(par.expression::<ANY>())")])
bug('p arrow nl',P,[(PN,"const ARRW: NestedHandler = Some(|par, left| {\n    par.lexer.consume();\n","const ARRW: NestedHandler = Some(|par, left| {\n    par.lexer.consume();\n    if par.asi() == Asi::ImplicitSemicolon && par.lexer.token == Semicolon { par.lexer.consume(); }\n")])
bug('p label kind',P,[(PS,"            return self.alloc_at_loc(start, body.end, LabeledStatement {\n                label,\n                body,\n            });","            if let Statement::Labeled(inner) = body.item { return self.alloc_at_loc(start, body.end, LabeledStatement { label: inner.label, body: inner.body }); }\n            return self.alloc_at_loc(start, body.end, LabeledStatement {\n                label,\n                body,\n            });")])
bug('c import list',C,[(GS,"if import.imported.item == import.local.item {","if import.imported.item.len() == import.local.item.len() {")])
bug('c if block',C,[(GS,"            if alternate.is_block() {\n                gen.write_pretty(b' ');","            if alternate.is_block() || alternate.start == alternate.end {\n                gen.write_pretty(b' ');")])
bug('c do block',C,[(GS,"        gen.write_bytes(b\"do\");\n        if self.body.is_block() {","        gen.write_bytes(b\"do\");\n        if self.body.is_block() || self.body.start == self.test.start {")])
bug('c getter gen',C,[(GF,"                if value.generator {\n                    gen.write_byte(b'*');","                if value.generator && kind == MethodKind::Method {\n                    gen.write_byte(b'*');")])
bug('c fn name',C,[(GF,"            Some(ref name) => {\n                gen.write_byte(b' ');","            Some(ref name) => {\n                if gen.last_byte() == Some(b'*') { gen.write_pretty(b' ') } else { gen.write_byte(b' ') }")])
bug('c class literal semi',C,[(GF,"                gen.write_expression(value, ASSIGNMENT);\n                gen.write_byte(b';');","                gen.write_expression(value, ASSIGNMENT);\n                if !is_static || gen.last_byte() != Some(b'}') { gen.write_byte(b';'); }")])
bug('c forof right',C,[(GS,"gen.write_expression(&self.right, ASSIGNMENT);","gen.write(&self.right);")])
bug('c forinit',C,[(GS,"ForInit::Expression(ref expression) => gen.write(expression),","ForInit::Expression(ref expression) => if expression.start > 0 { gen.write(expression) },")])
bug('c case',C,[(GS,"        gen.write_block(&self.consequent);","        if self.consequent.only_element().map(|s| s.is_block()).unwrap_or(false) { gen.write(self.consequent.first_element().unwrap()) } else { gen.write_block(&self.consequent); }")])
bug('c catch empty',C,[(GS,"            gen.write(&handler.param);","            if let ::ratel::ast::Pattern::ObjectPattern{ ref properties } = handler.param.item { if properties.is_empty() { gen.write_bytes(b\"_\") } else { gen.write(&handler.param) } } else { gen.write(&handler.param); }")])
bug('c extends',C,[(GF,"gen.write_expression(super_class, 17);","gen.write_expression(super_class, if super_class.item.is_allowed_as_bare_body() { 0 } else { 17 });")])
