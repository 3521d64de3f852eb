import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
L='ratel/src/lexer/mod.rs'; G='ratel-codegen/src/lib.rs'; GE='ratel-codegen/src/expression.rs'; GS='ratel-codegen/src/statement.rs'; PM='ratel/src/parser/mod.rs'; PE='ratel/src/parser/expression.rs'; PS='ratel/src/parser/statement.rs'; AE='ratel/src/parser/error.rs'
bug('start u16','S06 E01',[(L,"self.token_start as u32","self.token_start as u16 as u32")])
bug('end u16','S06 E01',[(L,"self.index as u32","(self.index & 0xFFFF) as u32")])
bug('list max','C01',[(G,"        for item in items {\n            self.write_byte(b',');\n            self.write_pretty(b' ');\n            self.write(item);","        for item in items.take(255) {\n            self.write_byte(b',');\n            self.write_pretty(b' ');\n            self.write(item);")])
bug('list skip','C01',[(G,"        for item in items {\n            self.write_byte(b',');\n            self.write_pretty(b' ');\n            self.write(item);","        for item in items.skip(1) {\n            self.write_byte(b',');\n            self.write_pretty(b' ');\n            self.write(item);")])
bug('list filter','C01',[(G,"        for item in items {\n            self.new_line();","        for item in items.filter(|i| i.start != i.end) {\n            self.new_line();")])
bug('bytes cap','C01',[(G,"    fn write_bytes(&mut self, slice: &[u8]) {\n        extend_from_slice(&mut self.code, slice);","    fn write_bytes(&mut self, slice: &[u8]) {\n        extend_from_slice(&mut self.code, &slice[..slice.len().min(4096)]);")])
bug('newline dedupe','C01 C03',[(G,"    fn write_byte(&mut self, ch: u8) {\n        self.code.push(ch);","    fn write_byte(&mut self, ch: u8) {\n        if ch == b';' && self.code.last() == Some(&b';') { return; }\n        self.code.push(ch);")])
bug('pop semicolon','C01 C03',[(G,"        unsafe { String::from_utf8_unchecked(self.code) }","        let mut code = self.code;\n        if code.last() == Some(&b';') { code.pop(); }\n        unsafe { String::from_utf8_unchecked(code) }")])
bug('truncate','C01 C06',[(G,"        unsafe { String::from_utf8_unchecked(self.code) }","        let mut code = self.code;\n        code.truncate(1 << 20);\n        unsafe { String::from_utf8_unchecked(code) }")])
bug('errors limit','S02',[(PM,"    match errors.len() {\n        0 => Ok","    match errors.len() & 0xFF {\n        0 => Ok")])
bug('errors trivial','S02',[(PM,"(parser.body.into_unsafe(), parser.errors)","(parser.body.into_unsafe(), parser.errors.into_iter().filter(|e| !e.raw.is_empty()).collect::<Vec<_>>())")])
bug('errors dedup','S02 E01',[(PM,"    match errors.len() {","    let mut errors = errors; errors.dedup_by_key(|e| e.start);\n    match errors.len() {")])
bug('body take','S03',[(PM,"        while self.lexer.token != EndOfProgram {\n            builder.push(self.arena, self.statement());\n        }","        let mut last = statement;\n        while self.lexer.token != EndOfProgram {\n            let next = self.statement();\n            if next.item != last.item { builder.push(self.arena, next); }\n            last = next;\n        }")])
bug('label trim','S03',[(PS,"let label = self.lexer.token_as_str();","let label = self.lexer.token_as_str().trim_left_matches('_');")])
bug('ident ascii','S05',[(PE,"        let ident = par.lexer.token_as_str();\n","        let ident = par.lexer.token_as_str();\n        let ident = if ident.is_ascii() { ident } else { \"_\" };\n")])
