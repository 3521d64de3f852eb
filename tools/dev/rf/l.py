import os; os.environ['MODS']='lexer'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
M='ratel/src/lexer/mod.rs'; U='ratel/src/lexer/util.rs'; B='ratel/src/lexer/labels.rs'
rf('OK string loop',[(M,"""    unwind_loop!({
        match lex.read_byte() {
            ch if ch == style => {
                lex.bump();
                return lex.token = LiteralString;
            },
            b'\\\\' => {
                lex.bump();
                expect_byte!(lex);
            },
            0 => {
                return lex.token = UnexpectedEndOfProgram;
            },
            _ => lex.bump()
        }
    });""","""    lex.token = loop {
        let ch = lex.read_byte();
        if ch == 0 { break UnexpectedEndOfProgram; }
        lex.bump();
        if ch == style { break LiteralString; }
        if ch == b'\\\\' {
            if lex.read_byte() == 0 { break UnexpectedEndOfProgram; }
            lex.bump();
        }
    };""")])
rf('OK while template',[(M,"""                    match self.read_byte() {
                        b'{' => self.bump(),
                        _    => continue
                    }

                    self.quasi = self.slice_source(start, end);
                    self.token = TemplateOpen;
                    return;""","""                    if self.read_byte() == b'{' {
                        self.bump();
                        self.quasi = self.slice_source(start, end);
                        self.token = TemplateOpen;
                        return;
                    }""")])
rf('OK comment helper',[(M,"""        b'*' => {
            lex.bump();
            // Keep consuming bytes until */ happens in a row
            unwind_loop!({
                match lex.read_byte() {
                    b'*' => {
                        match lex.next_byte() {
                            b'/' => {
                                lex.bump();
                                return lex.scan();
                            },
                            0 => return lex.token = UnexpectedEndOfProgram,
                            _ => {}
                        }
                    },
                    0 => return lex.token = UnexpectedEndOfProgram,
                    b'\\n' => {
                        lex.bump();
                        lex.asi = Asi::ImplicitSemicolon;
                    },
                    _ => lex.bump()
                }
            });
        },""","""        b'*' => {
            lex.bump();
            if !lex.skip_block_comment() {
                return lex.token = UnexpectedEndOfProgram;
            }
            return lex.scan();
        },"""),(M,"""    #[inline]
    fn read_binary(&mut self) {""","""    fn skip_block_comment(&mut self) -> bool {
        let mut previous = 0;
        loop {
            let ch = self.read_byte();
            if ch == 0 { return false; }
            self.bump();
            match (previous, ch) {
                (b'*', b'/') => return true,
                (_, b'\\n') => self.asi = Asi::ImplicitSemicolon,
                _ => {}
            }
            previous = ch;
        }
    }

    #[inline]
    fn read_binary(&mut self) {""")])
rf('OK line comment',[(M,"""            unwind_loop!({
                match lex.next_byte() {
                    0 | b'\\n' => {
                        return lex.scan();
                    }
                    _ => {}
                }
            });""","""            while lex.read_byte() != 0 && lex.read_byte() != b'\\n' {
                lex.bump();
            }
            return lex.scan();""")])
rf('OK scan loop',[(M,"""        let mut ch;

        unwind_loop!({
            ch = self.read_byte();

            if let Some(handler) = self.handler_from_byte(ch) {
                self.token_start = self.index;
                return handler(self);
            }

            self.bump();

            if ch == b'\\n' {
                self.asi = Asi::ImplicitSemicolon;
            }
        })""","""        loop {
            let ch = self.read_byte();
            match self.handler_from_byte(ch) {
                Some(handler) => {
                    self.token_start = self.index;
                    handler(self);
                    break;
                }
                None => {
                    if ch == b'\\n' {
                        self.asi = Asi::ImplicitSemicolon;
                    }
                    self.bump();
                }
            }
        }""")])
rf('OK digits helper',[(M,"""        while match self.read_byte() {
            b'0'..=b'7' => true,
            _ => false,
        } {
            self.bump();
        }""","""        self.skip_while(|b| b >= b'0' && b <= b'7');"""),(M,"""        while match self.read_byte() {
            b'0'..=b'9' |
            b'a'..=b'f' |
            b'A'..=b'F' => true,
            _ => false,
        } {
            self.bump();
        }""","""        self.skip_while(|b| b.is_ascii_hexdigit());"""),(M,"""    #[inline]
    fn read_octal(&mut self) {""","""    #[inline]
    fn skip_while<F: Fn(u8) -> bool>(&mut self, f: F) {
        while f(self.read_byte()) {
            self.bump();
        }
    }

    #[inline]
    fn read_octal(&mut self) {""")])
rf('OK binary loop',[(M,"""        loop {
            match self.read_byte() {
                b'0' => {
                    self.bump();
                },
                b'1' => {
                    self.bump();
                },
                _ => break
            }
        }""","""        while (self.read_byte() | 1) == b'1' {
            self.bump();
        }""")])
rf('OK legal_in_label',[(U,"""    unsafe { *(&TABLE as *const bool).offset(byte as isize) }""","""    let _ = &TABLE;
    match byte {
        b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'$' | b'_' | b'\\\\' => true,
        _ => byte >= 0x80,
    }""")])
rf('OK handlers index',[(M,"unsafe { *(&BYTE_HANDLERS as *const ByteHandler).offset(byte as isize) }","BYTE_HANDLERS[byte as usize]")])
rf('OK keywords by table',[(B,"""    match_label!(lex [b'r' b'e' b'a' b'k' => Break]);

    lex.read_label();
    lex.token = Identifier;""","""    lex.bump();
    lex.read_label();
    lex.token = match lex.token_as_str() {
        "break" => Break,
        _ => Identifier,
    };""")])
rf('OK three op',[(M,"""        b'=' => {
            match lex.next_byte() {
                b'=' => {
                    lex.bump();

                    OperatorStrictEquality
                },

                _ => OperatorEquality
            }
        },

        b'>' => {""","""        b'=' => {
            let strict = lex.next_byte() == b'=';
            if strict {
                lex.bump();
                OperatorStrictEquality
            } else {
                OperatorEquality
            }
        },

        b'>' => {""")])
rf('OK accessor',[(M,"""        let mut ch;

        unwind_loop!({
            ch = self.read_byte();

            if ch == 0 {
                return self.token = UnexpectedEndOfProgram;
            }

            if ch > 0x20 {
                self.accessor_start = self.index;

                if ch > 127 {
                    return self.read_unicode(Accessor);
                } else if TABLE[ch as usize] {
                    self.read_label();
                    return self.token = Accessor;
                } else {
                    return self.token = UnexpectedToken;
                }
            }

            self.bump();
        })""","""        let ch = loop {
            match self.read_byte() {
                0 => { self.token = UnexpectedEndOfProgram; return; }
                1..=0x20 => self.bump(),
                ch => break ch,
            }
        };
        self.accessor_start = self.index;
        match ch {
            128..=255 => self.read_unicode(Accessor),
            _ if TABLE[ch as usize] => {
                self.read_label();
                self.token = Accessor;
            }
            _ => self.token = UnexpectedToken,
        }""")])
rf('OK regex toggles',[(M,"""                b'/'  => {
                    self.bump();
                    if !in_class {
                        break;
                    }
                },""","""                b'/' if in_class => self.bump(),
                b'/' => {
                    self.bump();
                    break;
                },"""),(M,"""        while let b'g' | b'i' | b'm' | b'u' | b'y' = self.read_byte() {
            self.bump();
        }
""","""        loop {
            match self.read_byte() {
                b'g' | b'i' | b'm' | b'u' | b'y' => self.bump(),
                _ => break,
            }
        }
""")])
rf('OK float',[(M,"""        loop {
            match self.read_byte() {
                b'0'..=b'9'  => self.bump(),
                b'e' | b'E'  => {
                    self.bump();
                    return self.read_scientific();
                },
                _            => break
            }
        }

        self.token = LiteralNumber;""","""        while self.read_byte().is_ascii_digit() {
            self.bump();
        }
        if self.read_byte() | 0x20 == b'e' {
            self.bump();
            self.read_scientific();
        } else {
            self.token = LiteralNumber;
        }""")])
rf('OK unicode len',[(M,"""        self.index += match self.read_byte() {
            0..=0xDF    => 2,
            0xE0..=0xEF => 3,
            _           => 4,
        };""","""        let byte = self.read_byte();
        self.index += if byte < 0xE0 { 2 } else if byte < 0xF0 { 3 } else { 4 };""")])
