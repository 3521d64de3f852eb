from run import rf
E='ratel-codegen/src/expression.rs'; S='ratel-codegen/src/statement.rs'; F='ratel-codegen/src/function.rs'; L='ratel-codegen/src/lib.rs'
rf('OK list loop',[(L,"""        let mut items = items.into_iter();

        if let Some(item) = items.next() {
            self.write(item);
        }

        for item in items {
            self.write_byte(b',');
            self.write_pretty(b' ');
            self.write(item);
        }
""","""        let mut first = true;

        for item in items {
            if !first {
                self.write_byte(b',');
                self.write_pretty(b' ');
            }
            first = false;
            self.write(item);
        }
"""),(L,"""        let mut items = items.iter();

        if let Some(item) = items.next() {
            self.write_expression(item, ASSIGNMENT);
        }

        for item in items {
            self.write_byte(b',');
            self.write_pretty(b' ');
            self.write_expression(item, ASSIGNMENT);
        }
""","""        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                self.write_byte(b',');
                self.write_pretty(b' ');
            }
            self.write_expression(item, ASSIGNMENT);
        }
""")])
