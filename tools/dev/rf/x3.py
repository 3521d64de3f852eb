import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
L='ratel/src/lexer/mod.rs'; G='ratel-codegen/src/lib.rs'; GE='ratel-codegen/src/expression.rs'; GS='ratel-codegen/src/statement.rs'; PM='ratel/src/parser/mod.rs'; PE='ratel/src/parser/expression.rs'; PS='ratel/src/parser/statement.rs'; PN='ratel/src/parser/nested.rs'; ER='ratel/src/error.rs'
LX='L01 L02 L03 L04 L05 S01'
P='S01 S02 S03 S04 S05 S06 S07 E01'
bug('l template memo',LX,[(L,"                _ => self.bump()\n            }\n        }\n    }\n\n    /// Get a definition","                b'\\r' => { self.bump(); if self.read_byte() == b'\\n' { self.bump(); } },\n                _ => self.bump()\n            }\n        }\n    }\n\n    /// Get a definition")])
bug('l string nl',LX,[(L,"            0 => {\n                return lex.token = UnexpectedEndOfProgram;\n            },\n            _ => lex.bump()","            0 => {\n                return lex.token = UnexpectedEndOfProgram;\n            },\n            b'\\n' if lex.index - lex.token_start > 1 => { return lex.token = UnexpectedToken; },\n            _ => lex.bump()")])
bug('l token len cap',LX+' S03',[(L,"        let start = self.token_start;\n        self.slice_from(start)","        let start = self.token_start;\n        if self.index - start > 4096 { return self.slice_source(start, start + 4096); }\n        self.slice_from(start)")])
bug('l asi cr',LX,[(L,"            if ch == b'\\n' {","            if ch == b'\\n' && self.index > 1 {")])
bug('l asi tab',LX,[(L,"            if ch == b'\\n' {","            if ch == b'\\n' && self.read_byte() != b'\\t' {")])
bug('l digits limit',LX,[(L,"            b'0'..=b'9' => {},\n            b'.'","            b'0'..=b'9' if lex.index - lex.token_start < 32 => {},\n            b'.'")])
bug('l octal zero',LX,[(L,"        self.token = match self.index == start {","        self.token = match self.index <= start + (token == LiteralBinary) as usize {")])
bug('l unicode',LX,[(L,"        if !first.is_alphanumeric() {","        if !first.is_alphabetic() {")])
bug('l unicode upper',LX,[(L,"        if !first.is_alphanumeric() {","        if !first.is_alphanumeric() || first as u32 > 0xFFFF {")])
bug('l accessor ws',LX,[(L,"            if ch > 0x20 {\n                self.accessor_start","            if ch > 0x20 || ch == b'\\t' {\n                self.accessor_start")])
bug('l accessor asi',LX+' S07',[(L,"            self.bump();\n        })\n    }\n\n    #[inline]\n    fn read_label","            if ch == b'\\n' { self.asi = Asi::ImplicitSemicolon; }\n            self.bump();\n        })\n    }\n\n    #[inline]\n    fn read_label")])
bug('e error end',P+' E01',[(L,"        let end = self.index;\n        let token = self.token;","        let end = self.index.min(start + 64);\n        let token = self.token;")])
bug('e error raw trunc',P,[(L,"raw: self.slice_source(start, end).to_owned()","raw: self.slice_source(start, end).chars().take(80).collect::<String>()")])
bug('e error skip',P,[(L,"        if token != EndOfProgram {\n            self.consume();","        if token != EndOfProgram && token != BraceClose {\n            self.consume();")])
bug('p template odd',P,[(PE,"                    quasis.push(self.arena, self.alloc_in_loc(quasi));\n                    self.lexer.consume();\n                    expressions.push","                    if !quasi.is_empty() { quasis.push(self.arena, self.alloc_in_loc(quasi)); }\n                    self.lexer.consume();\n                    expressions.push")])
bug('p array limit',P,[(PE,"        loop {\n            match self.lexer.token {\n                Comma        => self.lexer.consume(),\n                BracketClose","        let mut n = 0u16;\n        loop {\n            n += 1;\n            match self.lexer.token {\n                Comma        => self.lexer.consume(),\n                BracketClose")])
bug('p args dup',P,[(PE,"            builder.push(self.arena, expression);\n        }\n\n        builder.as_list()\n    }\n\n    #[inline]\n    pub fn paren","            if let Expression::Void = expression.item { continue; }\n            builder.push(self.arena, expression);\n        }\n\n        builder.as_list()\n    }\n\n    #[inline]\n    pub fn paren")])
bug('p block limit',P,[(PM,"        while self.lexer.token != BraceClose && self.lexer.token != EndOfProgram {","        while self.lexer.token != BraceClose && self.lexer.token != EndOfProgram && self.errors.len() < 100 {")])
bug('p decl last',P,[(PS,"        while let Comma = self.lexer.token {\n            self.lexer.consume();\n            last","        while let Comma = self.lexer.token {\n            self.lexer.consume();\n            if self.lexer.token == Semicolon { break; }\n            last")])
bug('p if else nl',P,[(PS,"            Else => {\n                self.lexer.consume();\n                let alternate","            Else if self.lexer.asi() != Asi::ImplicitSemicolon || consequent.end > start + 2 => {\n                self.lexer.consume();\n                let alternate")])
bug('p label nested',P,[(PS,"        if self.lexer.token == Colon {\n            self.lexer.consume();","        if self.lexer.token == Colon && self.lexer.asi() == Asi::NoSemicolon {\n            self.lexer.consume();")])
bug('p for of name',P,[(PS,"Identifier if self.lexer.token_as_str() == \"of\" =>","Identifier if self.lexer.token_as_str().starts_with(\"of\") =>")])
bug('p for of case',P,[(PS,"Identifier if self.lexer.token_as_str() == \"of\" =>","Identifier if self.lexer.token_as_str().eq_ignore_ascii_case(\"of\") =>")])
bug('p import as',P,[(PS,"if self.lexer.token == Identifier && self.lexer.token_as_str() == \"as\" {","if self.lexer.token == Identifier && self.lexer.token_as_str().len() == 2 {")])
bug('p import source',P,[(PS,"let source = &str_ltr[1..str_ltr.len() - 1];","let source = str_ltr.trim_matches(|c| c == '\"' || c == '\\'');")])
bug('p params dup',P,[(PM,"        for &expression in expressions {\n            builder.push","        for &expression in expressions.filter(|e| e.start != e.end) {\n            builder.push")])
bug('p depth',P,[(PS,"        let start = self.lexer.start_then_consume();\n        let body = self.statement();\n        expect!(self, While);","        let start = self.lexer.start_then_consume();\n        let body = self.statement();\n        if self.lexer.token == Semicolon { self.lexer.consume(); }\n        expect!(self, While);")])
bug('p asi postfix',P,[(PN,"                OperatorIncrement | OperatorDecrement => return None,","                OperatorIncrement | OperatorDecrement | TemplateClosed | TemplateOpen => return None,")])
bug('c return paren','C01 C02 C03 C04',[(GS,"                gen.write_bytes(b\"return \");\n                gen.write(value);","                gen.write_bytes(b\"return \");\n                if let ::ratel::ast::Expression::Void = value.item { return; }\n                gen.write(value);")])
bug('c template','C01 C03',[(GE,"                for (quasi, expression) in quasis.zip(&self.expressions) {","                for (quasi, expression) in quasis.zip(&self.expressions).take(100) {")])
bug('c template nest','C01 C03',[(GE,"                    gen.write_bytes(b\"${\");\n                    gen.write_pretty(b' ');\n                    gen.write(expression);","                    gen.write_bytes(b\"${\");\n                    gen.write_pretty(b' ');\n                    gen.write_expression(expression, ::ASSIGNMENT * (quasi.item.len() == 0) as u8);")])
bug('c word','C01 C03',[(GE,"        if self.operator.category() == OperatorCategory::Word {\n            gen.write_byte(b' ');","        if self.operator.category() == OperatorCategory::Word {\n            if self.operand.start > 0 || self.operand.end == 0 { gen.write_byte(b' '); } else { gen.write_pretty(b' '); }")])
bug('c regex','C03',[(GE,"if gen.last_byte() == Some(b'/') {","if gen.last_byte() == Some(b'/') && val.len() > 3 {")])
bug('c string esc','C01',[(GE,"            String(ref val)   => gen.write(val),","            String(ref val)   => for part in val.split('\\r') { gen.write_bytes(part.as_bytes()); },")])
bug('c num','C01',[(GE,"            Binary(n)         => gen.write(&n),\n            Number(ref val)   |","            Binary(n)         => gen.write(&n),\n            Number(ref val) if val.ends_with(\".0\") => gen.write_bytes(val[..val.len() - 2].as_bytes()),\n            Number(ref val)   |")])
bug('c indent u8','C01 C06',[(G,"    dent: usize,","    dent: u8,"),(G,"..self.dent","..self.dent as usize")])
bug('c dup specifier','C01',[(GE,"            Shorthand(ref label) => gen.write(label),","            Shorthand(ref label) => if *label == \"__proto__\" { gen.write_bytes(b\"['__proto__']:__proto__\") } else { gen.write(label) },")])
bug('m lines','R03',[(ER,"index < lineno + 3);","index < lineno + 3 && index < 9999);")])
bug('m col u8','R03',[(ER,"let colno = line.chars().count();","let colno = line.chars().filter(|c| !c.is_control()).count();")])
bug('m caret','R03',[(ER,"for _ in 0..token_len {","for _ in 0..token_len.min(line.len() + 1) {")])
