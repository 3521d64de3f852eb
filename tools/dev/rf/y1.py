import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
L='ratel/src/lexer/mod.rs'; LB='ratel/src/lexer/labels.rs'; TK='ratel/src/lexer/token.rs'; UT='ratel/src/lexer/util.rs'
LX='L01 L02 L03 L04 L05'
bug('l2 unicode EF',LX,[(L,"            0xE0..=0xEF => 3,","            0xE0..=0xEE => 3,")])
bug('l2 unicode numeric',LX,[(L,"if !first.is_alphanumeric()","if !first.is_alphabetic()")])
bug('l2 unicode lower',LX,[(L,"if !first.is_alphanumeric()","if !first.is_lowercase()")])
bug('l2 comment sets asi for //',LX+' S07',[(L,"""                    0 | b'\\n' => {
                        return lex.scan();
                    }
                    _ => {}
                }
            });
        },

        // block""","""                    0 => {
                        return lex.scan();
                    }
                    b'\\n' => {
                        lex.bump();
                        return lex.scan();
                    }
                    _ => {}
                }
            });
        },

        // block""")])
bug('l2 line comment backslash',LX,[(L,"""                    0 | b'\\n' => {
                        return lex.scan();
                    }
                    _ => {}
                }
            });
        },

        // block""","""                    0 | b'\\n' => {
                        return lex.scan();
                    }
                    b'\\\\' => { if lex.next_byte() == 0 { return lex.scan(); } }
                    _ => {}
                }
            });
        },

        // block""")])
bug('l2 nested comment',LX,[(L,"""                    0 => return lex.token = UnexpectedEndOfProgram,
                    b'\\n' => {
                        lex.bump();
                        lex.asi""","""                    0 => return lex.token = UnexpectedEndOfProgram,
                    b'\\r' => {
                        lex.bump();
                        lex.asi = Asi::NoSemicolon;
                    },
                    b'\\n' => {
                        lex.bump();
                        lex.asi""")])
bug('l2 asi explicit',LX+' S07',[(L,"    lex.asi = Asi::ExplicitSemicolon;","    if lex.asi != Asi::ImplicitSemicolon { lex.asi = Asi::ExplicitSemicolon; }")])
bug('l2 brace asi',LX+' S07',[(L,"""    lex.asi = Asi::ImplicitSemicolon;

    lex.token = BraceClose;""","""    if lex.token != ParenClose { lex.asi = Asi::ImplicitSemicolon; }

    lex.token = BraceClose;""")])
bug('l2 keyword $',LX,[(UT,"__, __, __, __, DO, __","__, __, __, __, __, __")])
bug('l2 tpl escape newline',LX,[(L,"""                        0 => {
                            self.token = UnexpectedEndOfProgram;
                            return;
                        },
                        _ => self.bump()
                    }
                },
                0 => {
                    self.token""","""                        0 => {
                            self.token = UnexpectedEndOfProgram;
                            return;
                        },
                        b'`' if self.quasi.len() > 0 => {},
                        _ => self.bump()
                    }
                },
                0 => {
                    self.token""")])
bug('l2 tpl quasi stale',LX+' S05',[(L,"                    self.quasi = self.slice_source(start, end);\n                    self.token = TemplateClosed;","                    if end > start { self.quasi = self.slice_source(start, end); }\n                    self.token = TemplateClosed;")])
bug('l2 regex flag twice',LX,[(L,"""        while let b'g' | b'i' | b'm' | b'u' | b'y' = self.read_byte() {""","""        if let b'y' = self.read_byte() { self.bump(); }
        while let b'g' | b'i' | b'm' | b'u' = self.read_byte() {""")])
bug('l2 regex class slash',LX,[(L,"""                b'['  => {
                    self.bump();
                    in_class = true;""","""                b'['  => {
                    self.bump();
                    in_class = !in_class;""")])
bug('l2 regex close',LX,[(L,"""                b'\\n' => {
                    self.bump();
                    self.token = UnexpectedToken;""","""                b'\\n' if !in_class => {
                    self.bump();
                    self.token = UnexpectedToken;""")])
bug('l2 invalid token eof','S01',[(L,"        if token != EndOfProgram {","        if token != EndOfProgram && token != UnexpectedEndOfProgram {")])
bug('l2 invalid end',LX+' E01',[(L,"        let end = self.index;\n        let token","        let end = if self.token == Accessor { self.accessor_start } else { self.index };\n        let token")])
bug('l2 exponent digits',LX,[(L,"""        let start = self.index;

        while match self.read_byte() {
            b'0'..=b'9' => true,
            _ => false,
        } {
            self.bump();
        }

        self.end_digits(start, LiteralNumber);
    }

    #[inline]
    pub fn read_reg""","""        let start = self.index;

        while match self.read_byte() {
            b'0'..=b'9' => true,
            _ => false,
        } {
            if self.index - start > 3 { break; }
            self.bump();
        }

        self.end_digits(start, LiteralNumber);
    }

    #[inline]
    pub fn read_reg""")])
bug('l2 float e',LX,[(L,"""                b'e' | b'E'  => {
                    self.bump();
                    return self.read_scientific();""","""                b'e' | b'E' if self.index > self.token_start + 1 => {
                    self.bump();
                    return self.read_scientific();""")])
bug('l2 hex G',LX,[(L,"            b'A'..=b'F' => true","            b'A'..=b'G' => true")])
bug('l2 octal 8',LX,[(L,"            b'0'..=b'7' => true","            b'0'..=b'7' | b'_' => true")])
bug('l2 dots',LX+' S02',[(L,"""                _ => UnexpectedToken
            }
        },

        _ => lex.read_accessor()""","""                _ => OperatorSpread
            }
        },

        _ => lex.read_accessor()""")])
bug('l2 accessor table backslash',LX,[(L,"          AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, __, BS, __, __, US, // 5\n          __, AL","          AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, AL, __, __, __, __, US, // 5\n          __, AL")])
bug('l2 accessor ws',LX,[(L,"            if ch > 0x20 {\n                self.accessor","            if ch >= 0x20 {\n                self.accessor")])
bug('l2 accessor comment',LX,[(L,"""            if ch == 0 {
                return self.token = UnexpectedEndOfProgram;
            }

            if ch > 0x20""","""            if ch == 0 {
                return self.token = UnexpectedEndOfProgram;
            }

            if ch == b'\\n' { self.asi = Asi::ImplicitSemicolon; }
            if ch > 0x20""")])
bug('l2 is_word',LX+' S02 S05',[(TK,"            LiteralUndefined   => true","            EnumReserved | LiteralUndefined   => true")])
bug('l2 is_word2',LX+' S02 S05',[(TK,"            Yield              |\n            Deb","            Deb")])
bug('l2 qot newline',LX,[(L,"            0 => {\n                return lex.token = UnexpectedEndOfProgram;\n            },","            0 | b'\\r' => {\n                return lex.token = UnexpectedEndOfProgram;\n            },")])
bug('l2 expect byte',LX,[(L,"            0 => return $lex.token = UnexpectedEndOfProgram,\n            _ => $lex.bump()","            0 => return $lex.token = UnexpectedEndOfProgram,\n            b'x' => { $lex.bump(); $lex.bump() }\n            _ => $lex.bump()")])
