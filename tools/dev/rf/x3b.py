import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
PE='ratel/src/parser/expression.rs'
P='S02 S03 S04 S07 S01'
bug('benign counter',P,[(PE,"        loop {\n            match self.lexer.token {\n                Comma        => self.lexer.consume(),\n                BracketClose","        let mut n = 0usize;\n        loop {\n            n += 1;\n            match self.lexer.token {\n                Comma        => self.lexer.consume(),\n                BracketClose")],test=False)
