from run import rf
E='ratel-codegen/src/expression.rs'; S='ratel-codegen/src/statement.rs'; F='ratel-codegen/src/function.rs'; L='ratel-codegen/src/lib.rs'
rf('OK list loop',[(L,"""        let mut items = items.into_iter();

        if let Some(item) = items.next() {
            self.write(item);
        }

        for item in items {
            self.write_byte(b',');
            self.write_pretty(b' ');
            self.write(item);
        }
""","""        let mut first = true;

        for item in items {
            if !first {
                self.write_byte(b',');
                self.write_pretty(b' ');
            }
            first = false;
            self.write(item);
        }
"""),(L,"""        let mut items = items.iter();

        if let Some(item) = items.next() {
            self.write_expression(item, ASSIGNMENT);
        }

        for item in items {
            self.write_byte(b',');
            self.write_pretty(b' ');
            self.write_expression(item, ASSIGNMENT);
        }
""","""        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                self.write_byte(b',');
                self.write_pretty(b' ');
            }
            self.write_expression(item, ASSIGNMENT);
        }
""")])
rf('OK paren helper',[(L,"""    /// Helper that adds""","""    #[inline]
    fn write_parenthesized<'ast>(&mut self, item: &ExpressionNode<'ast>) {
        self.write_byte(b'(');
        item.to_code(self);
        self.write_byte(b')');
    }

    /// Helper that adds"""),(L,"""        if item.binding_power() < bp {
            self.write_byte(b'(');
            item.to_code(self);
            self.write_byte(b')');
        } else {
            item.to_code(self);
        }
""","""        if item.binding_power() >= bp {
            return item.to_code(self);
        }

        self.write_parenthesized(item);
"""),(L,"""        if item.is_allowed_as_bare_statement() {
            self.write_expression(item, bp);
        } else {
            self.write_byte(b'(');
            item.to_code(self);
            self.write_byte(b')');
        }
""","""        if !item.is_allowed_as_bare_statement() {
            self.write_parenthesized(item);
        } else {
            self.write_expression(item, bp);
        }
""")])
rf('OK write_operator helper',[(E,"""        if spacing_left {
            gen.write_byte(b' ');
        } else {
            gen.write_pretty(b' ');
        }

        gen.write(&self.operator);

        if spacing_right {
            gen.write_byte(b' ');
        } else {
            gen.write_pretty(b' ');
        }
""","""        write_space(gen, spacing_left);
        gen.write(&self.operator);
        write_space(gen, spacing_right);
"""),(E,"""impl<'ast, G: Generator> ToCode<G> for Literal<'ast> {""","""#[inline]
fn write_space<G: Generator>(gen: &mut G, required: bool) {
    match required {
        true  => gen.write_byte(b' '),
        false => gen.write_pretty(b' '),
    }
}

impl<'ast, G: Generator> ToCode<G> for Literal<'ast> {"""),(E,"""        if self.operator.assignment() {
            gen.write_expression(&self.right, bp);
        } else {
            gen.write_expression(&self.right, bp + 1);
        }
""","""        let right_bp = if self.operator.assignment() { bp } else { bp + 1 };
        gen.write_expression(&self.right, right_bp);
"""),(E,"""        if self.operator == OperatorKind::Exponent {
            gen.write_expression(&self.left, 16);
        } else {
            gen.write_expression(&self.left, bp);
        }
""","""        gen.write_expression(&self.left, match self.operator {
            OperatorKind::Exponent => 16,
            _ => bp,
        });
""")])
rf('OK template manual',[(E,"""                for (quasi, expression) in quasis.zip(&self.expressions) {
                    gen.write_bytes(b"${");""","""                let mut expressions = self.expressions.iter();

                while let (Some(quasi), Some(expression)) = (quasis.next(), expressions.next()) {
                    gen.write_bytes(b"${");""")])
rf('OK template no fast path',[(E,"""        match self.quasis.only_element() {
            Some(quasi) => gen.write(quasi),
            None => {
                let mut quasis = self.quasis.iter();

                if let Some(quasi) = quasis.next() {
                    gen.write(quasi);
                }

                for (quasi, expression) in quasis.zip(&self.expressions) {
                    gen.write_bytes(b"${");
                    gen.write_pretty(b' ');
                    gen.write(expression);
                    gen.write_pretty(b' ');
                    gen.write_byte(b'}');
                    gen.write(quasi);
                }
            }
        }
""","""        let mut quasis = self.quasis.iter();

        if let Some(quasi) = quasis.next() {
            gen.write(quasi);
        }

        for (quasi, expression) in quasis.zip(&self.expressions) {
            gen.write_bytes(b"${");
            gen.write_pretty(b' ');
            gen.write(expression);
            gen.write_pretty(b' ');
            gen.write_byte(b'}');
            gen.write(quasi);
        }
""")])
rf('OK object loop',[(E,"""        let mut properties = self.body.iter();

        match properties.next() {
            Some(property) => {
                gen.write_byte(b'{');
                gen.indent();
                gen.new_line();
                gen.write(property);
            },
            None => {
                gen.write_bytes(b"{}");
                return;
            }
        }

        for property in properties {
            gen.write_byte(b',');
            gen.new_line();
            gen.write(property);
        }
        gen.dedent();
        gen.new_line();
        gen.write_byte(b'}');
""","""        gen.write_byte(b'{');
        let mut properties = self.body.iter();

        if let Some(property) = properties.next() {
            gen.indent();
            gen.new_line();
            gen.write(property);

            for property in properties {
                gen.write_byte(b',');
                gen.new_line();
                gen.write(property);
            }

            gen.dedent();
            gen.new_line();
        }

        gen.write_byte(b'}');
""")])
rf('OK keyword paren helper',[(S,"""        gen.write_bytes(b"while");
        gen.write_pretty(b' ');
        gen.write_byte(b'(');
        gen.write(&self.test);
        gen.write_byte(b')');
        gen.write_pretty(b' ');
        write_body(gen, &self.body);""","""        write_head(gen, b"while", &self.test);
        gen.write_pretty(b' ');
        write_body(gen, &self.body);"""),(S,"""        gen.write_bytes(b"if");
        gen.write_pretty(b' ');
        gen.write_byte(b'(');
        gen.write(&self.test);
        gen.write_byte(b')');
""","""        write_head(gen, b"if", &self.test);
"""),(S,"""impl<G: Generator> ToCode<G> for DeclarationKind {""","""#[inline]
fn write_head<'ast, G: Generator>(gen: &mut G, keyword: &[u8], test: &::ratel::ast::ExpressionNode<'ast>) {
    gen.write_bytes(keyword);
    gen.write_pretty(b' ');
    gen.write_byte(b'(');
    gen.write(test);
    gen.write_byte(b')');
}

impl<G: Generator> ToCode<G> for DeclarationKind {""")])
rf('OK if spacing helper',[(S,"""            if self.consequent.is_block() {
                gen.write_pretty(b' ');
            } else {
                gen.write_byte(b' ');
            }
            gen.write_bytes(b"else");
            if alternate.is_block() {
                gen.write_pretty(b' ');
            } else {
                gen.write_byte(b' ');
            }
""","""            separate(gen, &self.consequent);
            gen.write_bytes(b"else");
            separate(gen, alternate);
"""),(S,"""impl<G: Generator> ToCode<G> for DeclarationKind {""","""#[inline]
fn separate<'ast, G: Generator>(gen: &mut G, neighbour: &StatementNode<'ast>) {
    if neighbour.is_block() {
        return gen.write_pretty(b' ');
    }

    gen.write_byte(b' ');
}

impl<G: Generator> ToCode<G> for DeclarationKind {""")])
rf('OK jump helper',[(S,"""        match self.label {
            Some(ref label) => {
                gen.write_bytes(b"break ");
                gen.write(label);
                gen.write_byte(b';');
            },
            None => gen.write_bytes(b"break;")
        }""","""        gen.write_bytes(b"break");
        if let Some(ref label) = self.label {
            gen.write_byte(b' ');
            gen.write(label);
        }
        gen.write_byte(b';');"""),(S,"""        match self.value {
            Some(ref value) => {
                gen.write_bytes(b"return ");
                gen.write(value);
                gen.write_byte(b';');
            },
            None => gen.write_bytes(b"return;")
        }""","""        gen.write_bytes(b"return");
        self.value.as_ref().map(|value| {
            gen.write_byte(b' ');
            gen.write(value);
        });
        gen.write_byte(b';');""")])
rf('OK import partition',[(S,"""        let default_ns_specs =
            self.specifiers.iter().filter(|spec| !is_import_specifier(spec)).collect::<Vec<_>>();
        gen.write_list(default_ns_specs.clone());

        let selective_specs =
            self.specifiers.iter().filter(|spec| is_import_specifier(spec)).collect::<Vec<_>>();
        if !selective_specs.is_empty() {""","""        let (selective_specs, default_ns_specs): (Vec<_>, Vec<_>) =
            self.specifiers.iter().partition(|spec| is_import_specifier(spec));
        gen.write_list(default_ns_specs.clone());

        if !selective_specs.is_empty() {""")])
rf('OK import dedupe',[(S,"""                if import.imported.item == import.local.item {
                    gen.write(&import.imported);
                } else {
                    gen.write(&import.imported);
                    gen.write_bytes(b" as ");""","""                gen.write(&import.imported);
                if import.imported.item != import.local.item {
                    gen.write_bytes(b" as ");""")])
rf('OK statement semicolons',[(S,"""            Expression(ref expression) => {
                gen.write_leading_expression(expression, 0);
                gen.write_byte(b';');
            },
            Declaration(ref declaration) => {
                gen.write(declaration);
                gen.write_byte(b';');
            },
            Return""","""            Expression(_) | Declaration(_) => {
                match *self {
                    Expression(ref expression) => gen.write_leading_expression(expression, 0),
                    Declaration(ref declaration) => gen.write(declaration),
                    _ => unreachable!(),
                }
                gen.write_byte(b';');
            },
            Return""")])
rf('OK class member prefix',[(F,"""                if is_static {
                    gen.write_bytes(b"static ");
                }
                match kind {
                    MethodKind::Get => gen.write_bytes(b"get "),
                    MethodKind::Set => gen.write_bytes(b"set "),
                    _               => {},
                }
                if""","""                let prefix: &[u8] = match (is_static, kind) {
                    (true, MethodKind::Get) => b"static get ",
                    (true, MethodKind::Set) => b"static set ",
                    (true, _) => b"static ",
                    (false, MethodKind::Get) => b"get ",
                    (false, MethodKind::Set) => b"set ",
                    (false, _) => b"",
                };
                gen.write_bytes(prefix);
                if""")])
rf('OK regex via prefix',[(E,"""        match (self.operator.category(), gen.last_byte()) {
            (OperatorCategory::Plus, Some(b'+')) |
            (OperatorCategory::Minus, Some(b'-')) => gen.write_byte(b' '),
            _ => {},
        }
        gen.write(&self.operator);
        if self.operator.category() == OperatorCategory::Word {
            gen.write_byte(b' ');
        }
""","""        let category = self.operator.category();
        let clash = match category {
            OperatorCategory::Plus  => gen.last_byte() == Some(b'+'),
            OperatorCategory::Minus => gen.last_byte() == Some(b'-'),
            _                       => false,
        };
        if clash {
            gen.write_byte(b' ');
        }
        gen.write(&self.operator);
        if let OperatorCategory::Word = category {
            gen.write_byte(b' ');
        }
""")])
rf('OK try helper',[(S,"""            gen.write_pretty(b' ');
            gen.write_bytes(b"catch");
            gen.write_pretty(b' ');
            gen.write_byte(b'(');
            gen.write(&handler.param);
            gen.write_byte(b')');
            gen.write_pretty(b' ');
            gen.write(&handler.body);
        }
        if let Some(ref finalizer) = self.finalizer {
            gen.write_pretty(b' ');
            gen.write_bytes(b"finally");
            gen.write_pretty(b' ');
            gen.write(finalizer);
        }""","""            gen.write_pretty(b' ');
            gen.write(handler);
        }
        match self.finalizer {
            Some(ref finalizer) => {
                gen.write_pretty(b' ');
                gen.write_bytes(b"finally");
                gen.write_pretty(b' ');
                gen.write(finalizer);
            },
            None => {},
        }"""),(S,"""impl<'ast, G: Generator> ToCode<G> for LabeledStatement<'ast> {""","""impl<'ast, G: Generator> ToCode<G> for CatchClause<'ast> {
    #[inline]
    fn to_code(&self, gen: &mut G) {
        gen.write_bytes(b"catch");
        gen.write_pretty(b' ');
        gen.write_byte(b'(');
        gen.write(&self.param);
        gen.write_byte(b')');
        gen.write_pretty(b' ');
        gen.write(&self.body);
    }
}

impl<'ast, G: Generator> ToCode<G> for LabeledStatement<'ast> {""")])
rf('OK fields rename',[(L,"ALL","x")]) if 0 else None
