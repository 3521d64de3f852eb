import sys; sys.path.insert(0,'/tmp/rf')
from run import *
rf('paren_test',[(PS,"""    pub fn if_statement(&mut self) -> StatementNode<'ast> {
        let start = self.lexer.start_then_consume();
        expect!(self, ParenOpen);
        let test = self.expression::<ANY>();
        expect!(self, ParenClose);
""","""    fn paren_test(&mut self) -> ExpressionNode<'ast> {
        expect!(self, ParenOpen);
        let test = self.expression::<ANY>();
        expect!(self, ParenClose);
        test
    }

    pub fn if_statement(&mut self) -> StatementNode<'ast> {
        let start = self.lexer.start_then_consume();
        let test = self.paren_test();
"""),(PS,"""        expect!(self, ParenOpen);
        let test = self.expression::<ANY>();
        expect!(self, ParenClose);

        let body = self.statement();
""","""        let test = self.paren_test();
        let body = self.statement();
""")])
rf('property_list while',[(PE,"""        let builder = ListBuilder::new(self.arena, self.property());
        loop {
            match self.lexer.token {
                BraceClose => break,
                Comma      => self.lexer.consume(),
                _          => {
                    self.error::<()>();
                    break;
                }
            }

            match self.lexer.token {
                BraceClose => break,
                _          => builder.push(self.arena, self.property()),
            }
        }
""","""        let first = self.property();
        let builder = ListBuilder::new(self.arena, first);
        while self.lexer.token != BraceClose {
            if self.lexer.token == Comma {
                self.lexer.consume();
            } else {
                self.error::<()>();
                break;
            }
            if self.lexer.token != BraceClose {
                let next = self.property();
                builder.push(self.arena, next);
            }
        }
""")])
rf('nest loop',[(PN,"""        while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
            left = handler(self, left);
        }

        left
""","""        loop {
            let asi = self.asi();
            let token = self.lexer.token;
            match B::handler(asi, token) {
                Some(handler) => left = handler(self, left),
                None => return left,
            }
        }
""")])
rf('nest rec',[(PN,"""        while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
            left = handler(self, left);
        }

        left
""","""        let asi = self.asi();
        let mut next = B::handler(asi, self.lexer.token);
        while next.is_some() {
            left = next.unwrap()(self, left);
            next = B::handler(self.asi(), self.lexer.token);
        }
        left
""")])
rf('declarators loop',[(PS,"""        while let Comma = self.lexer.token {
            self.lexer.consume();
            last = self.variable_declarator();
            builder.push(self.arena, last);
        }
""","""        loop {
            if self.lexer.token != Comma {
                break;
            }
            self.lexer.consume();
            let next = self.variable_declarator();
            builder.push(self.arena, next);
            last = next;
        }
""")])
rf('raw_block loop',[(PM,"""        while self.lexer.token != BraceClose && self.lexer.token != EndOfProgram {
            builder.push(self.arena, I::parse(self));
        }

        Block""","""        loop {
            match self.lexer.token {
                BraceClose | EndOfProgram => break,
                _ => {
                    let item = I::parse(self);
                    builder.push(self.arena, item);
                }
            }
        }

        Block""")])
rf('binary helper',[(PN,"""                par.lexer.consume();

                let right = par.expression::<$bp>();

                par.alloc_at_loc(left.start, right.end, BinaryExpression {
                    operator: $op,
                    left,
                    right,
                })
""","""                binary_with::<$bp>(par, left, $op)
"""),(PN,"""postfix!(INC =>""","""fn binary_with<'ast, B: BindingPower>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>, operator: OperatorKind) -> ExpressionNode<'ast> {
    par.lexer.consume();

    let start = left.start;
    let right = par.expression::<B>();
    let binary = BinaryExpression { operator, left, right };

    par.alloc_at_loc(start, right.end, binary)
}

postfix!(INC =>"""),(PN,"use ast::OperatorKind::*;","use ast::OperatorKind::*;\nuse ast::OperatorKind;")])
rf('expect_semicolon if',[(PS,"""        match self.asi() {
            Asi::ExplicitSemicolon => self.lexer.consume(),
            Asi::ImplicitSemicolon => {},
            Asi::NoSemicolon       => self.error(),
        }
""","""        if self.lexer.token == Semicolon {
            return self.lexer.consume();
        }

        if let Asi::NoSemicolon = self.asi() {
            self.error::<()>();
        }
""")])
rf('break continue helper',[(PS,"""        let (start, mut end) = self.lexer.loc();
        self.lexer.consume();

        let label = match self.asi() {
            Asi::ExplicitSemicolon => {
                self.lexer.consume();
                None
            },
            Asi::ImplicitSemicolon => None,
            Asi::NoSemicolon => {
                let label = self.identifier();
                end = label.end;

                self.expect_semicolon();

                Some(label)
            }
        };

        self.alloc_at_loc(start, end, BreakStatement { label })
    }
""","""        let (start, mut end) = self.lexer.loc();
        self.lexer.consume();

        let label = self.optional_label(&mut end);

        self.alloc_at_loc(start, end, BreakStatement { label })
    }

    fn optional_label(&mut self, end: &mut u32) -> Option<::ast::IdentifierNode<'ast>> {
        match self.asi() {
            Asi::ImplicitSemicolon => return None,
            Asi::ExplicitSemicolon => {
                self.lexer.consume();
                return None;
            },
            Asi::NoSemicolon => {}
        }
        let label = self.identifier();
        *end = label.end;
        self.expect_semicolon();
        Some(label)
    }
"""),(PS,"""        let label = match self.asi() {
            Asi::ExplicitSemicolon => {
                self.lexer.consume();
                None
            },
            Asi::ImplicitSemicolon => None,
            Asi::NoSemicolon => {
                let label = self.identifier();
                end = label.end;

                self.expect_semicolon();

                Some(label)
            }
        };

        self.alloc_at_loc(start, end, ContinueStatement""","""        let label = self.optional_label(&mut end);

        self.alloc_at_loc(start, end, ContinueStatement""")])
rf('of order',[(PS,"""Identifier if self.lexer.token_as_str() == "of" => {""","""Identifier if "of" == self.lexer.token_as_str() => {""")])
rf('import listbuilder',[(PS,"""                                if self.lexer.token == Identifier && self.lexer.token_as_str() == "as" {
                                    self.lexer.consume();
                                    let local = self.identifier();
                                    import.local = local;
                                }
                                let end""","""                                let renamed = self.lexer.token == Identifier && self.lexer.token_as_str() == "as";
                                if renamed {
                                    self.lexer.consume();
                                    import.local = self.identifier();
                                }
                                let end""")])
rf('pattern conv',[(PM,"""        let pattern = match expression.item {
            Expression::Binary(BinaryExpression {
                operator: OperatorKind::Assign,
                left,
                right,
            }) => {
                Pattern::AssignmentPattern {
                    left: self.pattern_from_expression(left),
                    right
                }
            },
            Expression::Identifier(ident) => {
                Pattern::Identifier(ident)
            },
            _ => self.error()
        };
""","""        let pattern = if let Expression::Identifier(ident) = expression.item {
            Pattern::Identifier(ident)
        } else if let Expression::Binary(ref binary) = expression.item {
            if binary.operator == OperatorKind::Assign {
                let left = self.pattern_from_expression(binary.left);
                Pattern::AssignmentPattern { left, right: binary.right }
            } else {
                self.error()
            }
        } else {
            self.error()
        };
""")])
rf('params helper',[(PF,"""                OperatorSpread => {
                    builder.push(self.arena, self.rest_element());

                    break;
                },
                _ => {
                    builder.push(self.arena, self.pattern_param());
                }""","""                token => {
                    let rest = token == OperatorSpread;
                    let param = if rest { self.rest_element() } else { self.pattern_param() };

                    builder.push(self.arena, param);

                    if rest {
                        break;
                    }
                }""")])
rf('stmt match',[(PS,"unsafe { (*(&STMT_HANDLERS as *const StatementHandler).offset(self.lexer.token as isize))(self) }","STMT_HANDLERS[self.lexer.token as usize](self)")])
rf('stmt brace',[(PS,"unsafe { (*(&STMT_HANDLERS as *const StatementHandler).offset(self.lexer.token as isize))(self) }","""if self.lexer.token == BraceOpen {
            return self.block_statement();
        }
        let handler = unsafe { *STMT_HANDLERS.get_unchecked(self.lexer.token as usize) };
        handler(self)""")])
