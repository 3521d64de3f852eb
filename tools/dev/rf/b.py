import os; os.environ['MODS']='parser progress'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
T=[]
def t(n,*e): T.append((n,list(e)))
t('OK array while',(PE,"""        loop {
            match self.lexer.token {
                Comma        => self.lexer.consume(),
                BracketClose => break,
                _            => {
                    self.error::<()>();
                    break;
                }
            }

            builder.push(self.arena, get(self))
        }
""","""        while self.lexer.token == Comma {
            self.lexer.consume();
            builder.push(self.arena, get(self));
        }

        if self.lexer.token != BracketClose {
            self.error::<()>();
        }
"""))
t('OK call args while',(PE,"""        loop {
            let expression = match self.lexer.token {
                ParenClose => break,
                Comma      => {
                    self.lexer.consume();

                    if self.lexer.token == ParenClose {
                        break
                    }

                    self.expression_in_context::<B0>(CALL_CONTEXT)
                }
                _ => {
                    self.error::<()>();
                    break;
                }
            };

            builder.push(self.arena, expression);
        }
""","""        while self.lexer.token != ParenClose {
            if self.lexer.token != Comma {
                self.error::<()>();
                break;
            }
            self.lexer.consume();
            if self.lexer.token != ParenClose {
                let expression = self.expression_in_context::<B0>(CALL_CONTEXT);
                builder.push(self.arena, expression);
            }
        }
"""))
t('OK computed key helper',(PE,"""                let start = self.lexer.start_then_consume();
                let expression = self.expression::<ANY>();
                let end = self.lexer.end();

                expect!(self, BracketClose);

                self.alloc_at_loc(start, end, PropertyKey::Computed(expression))
""","""                self.computed_key()
"""),(PE,"""    #[inline]
    pub fn array_expression(""","""    fn computed_key(&mut self) -> Node<'ast, PropertyKey<'ast>> {
        let start = self.lexer.start_then_consume();
        let expression = self.expression::<ANY>();
        let end = self.lexer.end();
        expect!(self, BracketClose);
        self.alloc_at_loc(start, end, PropertyKey::Computed(expression))
    }

    #[inline]
    pub fn array_expression("""))
t('OK accessor kind helper',(PF,"""                    kind = match label {
                        "get" => MethodKind::Get,
                        "set" => MethodKind::Set,
                        _     => return par.error()
                    };
""","""                    kind = match accessor_kind(label) {
                        Some(kind) => kind,
                        None       => return par.error()
                    };
"""),(PF,"""impl<'ast> Parse<'ast> for EmptyName {""","""fn accessor_kind(label: &str) -> Option<MethodKind> {
    if label == "get" { Some(MethodKind::Get) }
    else if label == "set" { Some(MethodKind::Set) }
    else { None }
}

impl<'ast> Parse<'ast> for EmptyName {"""))
t('OK new method',(PE,"""        let (start, op_end) = par.lexer.loc();

        par.lexer.consume();

        if par.lexer.token == Accessor {
            let meta = par.alloc_at_loc(start, op_end, "new");
            let expression = par.meta_property_expression(meta);
            let end = par.lexer.end();
            par.lexer.consume();
            par.alloc_at_loc(start, end, expression)
        } else {
            let mut operand = par.expression::<B16>();

            // Only the first arguments belong to `new`
            if par.lexer.token == ParenOpen {
                operand = par.call_expression(operand);
            }

            let end = par.lexer.end();
            par.alloc_at_loc(start, end, PrefixExpression {
                operator: OperatorKind::New,
                operand,
            })
        }
""","""        par.new_expression()
"""),(PE,"""    #[inline]
    pub fn array_expression(""","""    fn new_expression(&mut self) -> ExpressionNode<'ast> {
        let (start, op_end) = self.lexer.loc();
        self.lexer.consume();
        if self.lexer.token == Accessor {
            let meta = self.alloc_at_loc(start, op_end, "new");
            let expression = self.meta_property_expression(meta);
            let end = self.lexer.end_then_consume();
            return self.alloc_at_loc(start, end, expression);
        }
        let callee = self.expression::<B16>();
        // Only the first arguments belong to `new`
        let operand = match self.lexer.token {
            ParenOpen => self.call_expression(callee),
            _         => callee,
        };
        let end = self.lexer.end();
        self.alloc_at_loc(start, end, PrefixExpression { operator: OperatorKind::New, operand })
    }

    #[inline]
    pub fn array_expression("""))
body="""        let (start, mut end) = self.lexer.loc();
        self.lexer.consume();

        let label = match self.asi() {
            Asi::ExplicitSemicolon => {
                self.lexer.consume();
                None
            },
            Asi::ImplicitSemicolon => None,
            Asi::NoSemicolon => {
                let label = self.identifier();
                end = label.end;

                self.expect_semicolon();

                Some(label)
            }
        };
"""
t('OK jump argument generic',(PS,body,"""        let (start, end) = self.lexer.loc();
        self.lexer.consume();
        let (label, end) = self.until_semicolon(end, |par| par.identifier());
"""),(PS,body,"""        let (start, end) = self.lexer.loc();
        self.lexer.consume();
        let (label, end) = self.until_semicolon(end, |par| par.identifier());
"""),(PS,"""        let (start, mut end) = self.lexer.loc();
        self.lexer.consume();

        let value = match self.asi() {
            Asi::NoSemicolon => {
                let expression = self.expression::<ANY>();
                end = expression.end;

                self.expect_semicolon();

                Some(expression)
            }

            Asi::ImplicitSemicolon => None,
            Asi::ExplicitSemicolon => {
                self.lexer.consume();

                None
            }
        };
""","""        let (start, end) = self.lexer.loc();
        self.lexer.consume();
        let (value, end) = self.until_semicolon(end, |par| par.expression::<ANY>());
"""),(PS,"""    #[inline]
    pub fn block_statement(""","""    fn until_semicolon<T: 'ast + Copy, F: FnOnce(&mut Self) -> Node<'ast, T>>(&mut self, end: u32, get: F) -> (Option<Node<'ast, T>>, u32) {
        match self.asi() {
            Asi::NoSemicolon => {
                let item = get(self);
                self.expect_semicolon();
                (Some(item), item.end)
            },
            Asi::ImplicitSemicolon => (None, end),
            Asi::ExplicitSemicolon => {
                self.lexer.consume();
                (None, end)
            }
        }
    }

    #[inline]
    pub fn block_statement("""))
i0="""        let (handler, finalizer, end) = match self.lexer.token {
            Catch => {
                let start = self.lexer.start_then_consume();
                expect!(self, ParenOpen);
                let param = Pattern::parse(self);
                expect!(self, ParenClose);
                let body = self.block();

                let handler = self.alloc_at_loc(start, body.end, CatchClause {
                    param,
                    body,
                });

                match self.lexer.token {
                    Finally => {
                        self.lexer.consume();
                        let block = self.block();

                        (Some(handler), Some(block), block.end)
                    },
                    _ => (Some(handler), None, handler.end)
                }
            },
            Finally => {
                self.lexer.consume();
                let block = self.block();

                (None, Some(block), block.end)
            },
            _ => {
                self.error::<()>();

                (None, None, block.end)
            }
        };
"""
t('OK try in steps',(PS,i0,"""        let mut end = block.end;
        let mut handler = None;
        let mut finalizer = None;

        if self.lexer.token != Catch && self.lexer.token != Finally {
            self.error::<()>();
            return self.alloc_at_loc(start, end, TryStatement { block, handler, finalizer });
        }

        if self.lexer.token == Catch {
            let start = self.lexer.start_then_consume();
            expect!(self, ParenOpen);
            let param = Pattern::parse(self);
            expect!(self, ParenClose);
            let body = self.block();
            end = body.end;
            handler = Some(self.alloc_at_loc(start, end, CatchClause { param, body }));
        }

        if self.lexer.token == Finally {
            self.lexer.consume();
            let block = self.block();
            end = block.end;
            finalizer = Some(block);
        }
"""))
t('OK for test',(PS,"""        let test = match self.lexer.token {
            Semicolon => {
                self.lexer.consume();
                None
            },
            _ => {
                let test = self.expression::<ANY>();
                expect!(self, Semicolon);

                Some(test)
            }
        };
""","""        let test = if self.lexer.token == Semicolon {
            None
        } else {
            Some(self.expression::<ANY>())
        };
        expect!(self, Semicolon);
"""))
t('OK safe index',(PS,"unsafe { (*(&STMT_HANDLERS as *const StatementHandler).offset(self.lexer.token as isize))(self) }","STMT_HANDLERS[self.lexer.token as usize](self)"),
 (PE,"unsafe { (*(DEF_CONTEXT as *const ExpressionHandler).offset(self.lexer.token as isize))(self) }","self.context_bound_expression(DEF_CONTEXT)"),
 (PE,"unsafe { (*(context as *const ExpressionHandler).offset(self.lexer.token as isize))(self) }","context[self.lexer.token as usize](self)"))
t('OK handler if',(PN,"""        if asi == Asi::ImplicitSemicolon {
            match token {
                OperatorIncrement | OperatorDecrement => return None,
                _ => {}
            }
        }

        Self::LUT[token as usize]
""","""        let postfix = token == OperatorIncrement || token == OperatorDecrement;

        if postfix && asi == Asi::ImplicitSemicolon {
            None
        } else {
            Self::LUT[token as usize]
        }
"""))
t('OK generator flag',(PF,"""        let generator: bool = if par.lexer.token == OperatorMultiplication {
            par.lexer.consume();
            true
        } else {
            false
        };
""","""        let generator = par.lexer.token == OperatorMultiplication;

        if generator {
            par.lexer.consume();
        }
"""),(PF,"""        let is_static = match par.lexer.token {
            Static => {
                par.lexer.consume();
                true
            }
            _ => false
        };
""","""        let is_static = par.eat(Static);
"""),(PE,"""    #[inline]
    pub fn array_expression(""","""    pub fn eat(&mut self, token: ::lexer::Token) -> bool {
        let found = self.lexer.token == token;
        if found { self.lexer.consume(); }
        found
    }

    #[inline]
    pub fn array_expression("""))
t('OK literal helper',(PE,"""        let value = par.lexer.token_as_str();
        let expr = par.alloc_in_loc(Literal::String(value));

        par.lexer.consume();
        expr
""","""        par.text_literal(Literal::String)
"""),(PE,"""        let value = par.lexer.token_as_str();
        let expr = par.alloc_in_loc(Literal::Number(value));

        par.lexer.consume();
        expr
""","""        par.text_literal(Literal::Number)
"""),(PE,"""    #[inline]
    pub fn array_expression(""","""    fn text_literal<F: FnOnce(&'ast str) -> Literal<'ast>>(&mut self, make: F) -> ExpressionNode<'ast> {
        let value = self.lexer.token_as_str();
        let (start, end) = self.lexer.loc();
        self.lexer.consume();
        self.alloc_at_loc(start, end, make(value))
    }

    #[inline]
    pub fn array_expression("""))
t('OK switch case while',(PS,"""        loop {
            match par.lexer.token {
                Case | Default | BraceClose | EndOfProgram => break,
                _ => {
                    let statement = par.statement();
                    end = statement.end;
                    builder.push(par.arena, statement);
                }
            }
        }
""","""        while !ends_case(par.lexer.token) {
            let statement = par.statement();
            end = statement.end;
            builder.push(par.arena, statement);
        }
"""),(PS,"""impl<'ast> Parse<'ast> for SwitchCase<'ast> {""","""fn ends_case(token: ::lexer::Token) -> bool {
    match token {
        Case | Default | BraceClose | EndOfProgram => true,
        _ => false,
    }
}

impl<'ast> Parse<'ast> for SwitchCase<'ast> {"""))
t('OK paren if',(PE,"""        match self.lexer.token {
            ParenClose => {
                self.lexer.consume();
                expect!(self, OperatorFatArrow);
                let expression = self.arrow_function_expression(NodeList::empty());
                self.alloc_at_loc(start, expression.body.end(), expression)
            },
            _ => {
                let expression = self.expression::<ANY>();

                expect!(self, ParenClose);

                expression
            }
        }
""","""        if self.lexer.token != ParenClose {
            let expression = self.expression::<ANY>();
            expect!(self, ParenClose);
            return expression;
        }

        self.lexer.consume();
        expect!(self, OperatorFatArrow);
        let arrow = self.arrow_function_expression(NodeList::empty());
        let end = arrow.body.end();
        self.alloc_at_loc(start, end, arrow)
"""))
t('OK declaration end',(PS,"""        let end = match self.lexer.token {
            Semicolon => self.lexer.end(),
            _         => end,
        };
        let declaration = self.alloc_at_loc(start, end, DeclarationStatement {
            kind,
            declarators
        });

        self.expect_semicolon();

        declaration
""","""        let end = if self.lexer.token == Semicolon { self.lexer.end() } else { end };

        self.expect_semicolon();

        self.alloc_at_loc(start, end, DeclarationStatement { kind, declarators })
"""))
t('OK property list loop',(PE,"""            match self.lexer.token {
                BraceClose => break,
                Comma      => self.lexer.consume(),
                _          => {
                    self.error::<()>();
                    break;
                }
            }

            match self.lexer.token {
                BraceClose => break,
                _          => builder.push(self.arena, self.property()),
            }
""","""            let more = match self.lexer.token {
                BraceClose => false,
                Comma      => {
                    self.lexer.consume();
                    self.lexer.token != BraceClose
                },
                _          => { self.error::<()>(); false }
            };

            if !more {
                break;
            }

            let property = self.property();
            builder.push(self.arena, property);
"""))
t('OK labeled match',(PS,"""        if self.lexer.token == Colon {
            self.lexer.consume();

            let body = self.statement();

            return self.alloc_at_loc(start, body.end, LabeledStatement {
                label,
                body,
            });
        }

        let expression = self.alloc_at_loc(start, end, label);
        let expression = self.nested_expression::<ANY>(expression);

        self.expect_semicolon();

        self.alloc_at_loc(start, expression.end, expression)
""","""        match self.lexer.token {
            Colon => {
                self.lexer.consume();
                let body = self.statement();
                self.alloc_at_loc(start, body.end, LabeledStatement { label, body })
            },
            _ => {
                let expression = self.alloc_at_loc(start, end, label);
                self.expression_statement(expression)
            }
        }
"""))
t('OK do semicolon eat',(PS,"""        // The semicolon is optional here, even without a line break
        if self.lexer.token == Semicolon {
            self.lexer.consume();
        }

        self.alloc_at_loc(start, end, DoStatement {
            body,
            test,
        })
""","""        let statement = self.alloc_at_loc(start, end, DoStatement { body, test });

        // The semicolon is optional here, even without a line break
        match self.lexer.token {
            Semicolon => self.lexer.consume(),
            _         => {}
        }

        statement
"""))
t('OK if else eat',(PS,"""        let (alternate, end) = match self.lexer.token {
            Else => {
                self.lexer.consume();
                let alternate = self.statement();
                (Some(alternate), alternate.end)
            },
            _ => (None, consequent.end)
        };
""","""        let alternate = if self.lexer.token == Else {
            self.lexer.consume();
            Some(self.statement())
        } else {
            None
        };
        let end = alternate.map(|a| a.end).unwrap_or(consequent.end);
"""))
t('OK declarators loop',(PS,"""        while let Comma = self.lexer.token {
            self.lexer.consume();
            last = self.variable_declarator();
            builder.push(self.arena, last);
        }
""","""        loop {
            if self.lexer.token != Comma {
                break;
            }
            self.lexer.consume();
            let next = self.variable_declarator();
            builder.push(self.arena, next);
            last = next;
        }
"""))
sel=sys.argv[1:]
for n,e in T:
    if not sel or any(x in n for x in sel): rf(n,e)
