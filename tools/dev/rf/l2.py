import os; os.environ['MODS']='lexer'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
M='ratel/src/lexer/mod.rs'
rf('BUG star',[(M,"""                        match lex.next_byte() {
                            b'/' => {
                                lex.bump();
                                return lex.scan();
                            },
                            0 => return lex.token = UnexpectedEndOfProgram,
                            _ => {}""","""                        let at = lex.index;
                        match lex.next_byte() {
                            b'/' => {
                                lex.bump();
                                return lex.scan();
                            },
                            0 => return lex.token = UnexpectedEndOfProgram,
                            b'$' => lex.index = at,
                            _ => {}""")])
if 0: rf("BUG binary",[(M,"""                b'1' => {
                    self.bump();
                },""","""                b'1' => {
                },""")])
