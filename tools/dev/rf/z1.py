import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
CL='ratel-codegen/src/lib.rs'; CS='ratel-codegen/src/statement.rs'; CE='ratel-codegen/src/expression.rs'; CF='ratel-codegen/src/function.rs'
P='C01 C02 C03 C04 C06 C07'
bug('z we le',P,[(CL,"if item.binding_power() < bp {","if item.binding_power() + 1 < bp {")])
bug('z lead neg',P,[(CL,"        if item.is_allowed_as_bare_statement() {\n            self.write_expression(item, bp);\n        } else {","        if item.is_allowed_as_bare_statement() || bp > 0 {\n            self.write_expression(item, bp);\n        } else {")])
bug('z list first',P,[(CL,"        if let Some(item) = items.next() {\n            self.write_expression(item, ASSIGNMENT);\n        }","        if let Some(item) = items.next() {\n            self.write(item);\n        }")])
bug('z block dedent',P,[(CL,"            None => return,\n        }\n\n        for item in items {","            None => { self.indent(); return },\n        }\n\n        for item in items {")])
bug('z pretty body first',P,[(CL,"gen.write(&body.next().cloned());","body.next();")])
bug('z exponent 15',P,[(CE,"gen.write_expression(&self.left, 16);","gen.write_expression(&self.left, 14);")])
bug('z exp right',P,[(CE,"            gen.write_expression(&self.right, bp + 1);","            gen.write_expression(&self.right, if bp == 14 { bp } else { bp + 1 });")])
bug('z assign right',P,[(CE,"        if self.operator.assignment() {\n            gen","        if bp == 0 || self.operator.binding_power() < 1 {\n            gen")])
bug('z spacing left',P,[(CE,"                let spacing_left = match self.left.item {\n                    Expression::Postfix(PostfixExpression { operator, .. }) => {\n                        category == operator.category()","                let spacing_left = match self.left.item {\n                    Expression::Postfix(PostfixExpression { operator, .. }) => {\n                        category != operator.category()")])
bug('z spacing right',P,[(CE,"                    Expression::Prefix(PrefixExpression { operator, .. }) => {\n                        category == operator.category()","                    Expression::Prefix(PrefixExpression { operator, .. }) => {\n                        category == operator.category() && operator.as_str().len() == 1")])
bug('z word left',P,[(CE,"OperatorCategory::Word => (true, true),","OperatorCategory::Word => (false, true),")])
bug('z prefix minus',P,[(CE,"            (OperatorCategory::Minus, Some(b'-')) => gen.write_byte(b' '),","            (OperatorCategory::Minus, Some(b'+')) => gen.write_byte(b' '),")])
bug('z new call 17',P,[(CE,"gen.write_expression(&call.callee, 18);","gen.write_expression(&call.callee, 17);")])
bug('z new operand',P,[(CE,"_ if self.operator == OperatorKind::New => gen.write_expression(&self.operand, 17),","_ if self.operator == OperatorKind::New => gen.write_expression(&self.operand, 15),")])
bug('z prefix operand',P,[(CE,"            _ => gen.write_expression(&self.operand, 15),","            _ => gen.write_expression(&self.operand, 14),")])
bug('z postfix op',P,[(CE,"        gen.write_expression(&self.operand, 17);\n        gen.write(&self.operator);","        gen.write_expression(&self.operand, 15);\n        gen.write(&self.operator);")])
bug('z cond test',P,[(CE,"gen.write_expression(&self.test, 5);","gen.write_expression(&self.test, 4);")])
bug('z cond cons',P,[(CE,"gen.write_expression(&self.consequent, ASSIGNMENT);","gen.write_expression(&self.consequent, 0);")])
bug('z cond alt',P,[(CE,"gen.write_expression(&self.alternate, ASSIGNMENT);","gen.write(&self.alternate);")])
bug('z arrow params',P,[(CE,"            Some(&Pattern::Identifier(ref ident)) => gen.write(ident),\n","            Some(&Pattern::Identifier(ref ident)) => gen.write(ident),\n            Some(pat @ &Pattern::RestElement { .. }) => gen.write(&Loc { start: 0, end: 0, item: *pat }),\n"),(CE,"OperatorCategory, Property, PropertyKey, Pattern};","OperatorCategory, Property, PropertyKey, Pattern, Loc};")])
bug('z arrow body',P,[(CE,"ArrowBody::Expression(ref expression) => gen.write_leading_expression(expression, ASSIGNMENT),","ArrowBody::Expression(ref expression) => gen.write_expression(expression, ASSIGNMENT),")])
bug('z object dedent',P,[(CE,"        gen.dedent();\n        gen.new_line();\n        gen.write_byte(b'}');","        gen.new_line();\n        gen.dedent();\n        gen.write_byte(b'}');")])
bug('z else space',P,[(CS,"            gen.write_bytes(b\"else\");\n            if alternate.is_block() {","            gen.write_bytes(b\"else\");\n            if alternate.is_block() || self.consequent.is_block() {")])
bug('z else space2',P,[(CS,"            if self.consequent.is_block() {\n                gen.write_pretty(b' ');\n            } else {\n                gen.write_byte(b' ');\n            }\n            gen.write_bytes(b\"else\");","            gen.write_pretty(b' ');\n            gen.write_bytes(b\"else\");")])
bug('z do space',P,[(CS,"        gen.write_bytes(b\"do\");\n        if self.body.is_block() {","        gen.write_bytes(b\"do\");\n        if self.body.is_block() || gen.last_byte() == Some(b'o') {")])
bug('z body empty',P,[(CS,"        Statement::Empty => gen.write_byte(b';'),\n        _ ","        Statement::Empty => gen.write_pretty(b';'),\n        _ ")])
bug('z dangling else',P,[(CS,"        write_body(gen, &self.consequent);","        gen.write(&self.consequent);")])
bug('z forof right',P,[(CS,"gen.write_expression(&self.right, ASSIGNMENT);","gen.write(&self.right);")])
bug('z forof sp',P,[(CS,'gen.write_bytes(b" of ");','gen.write_bytes(b" of"); gen.write_pretty(b\' \');')])
bug('z for test',P,[(CS,"        gen.write(&self.test);\n        gen.write_byte(b';');\n        gen.write_pretty(b' ');\n        gen.write(&self.update);","        gen.write(&self.test);\n        if self.update.is_some() { gen.write_byte(b';'); }\n        gen.write_pretty(b' ');\n        gen.write(&self.update);")])
bug('z try finally',P,[(CS,"        if let Some(ref finalizer) = self.finalizer {\n            gen","        if let (Some(ref finalizer), &None) = (self.finalizer, &self.handler) {\n            gen")])
bug('z import default',P,[(CS,"            if !default_ns_specs.is_empty() {","            if default_ns_specs.len() == 1 && selective_specs.len() == 1 {")])
bug('z import empty',P,[(CS,"        if self.specifiers.is_empty() {\n            gen.write_byte(b'\\'');","        if self.specifiers.is_empty() {\n            gen.write_pretty(b' ');\n            gen.write_byte(b'\"');")])
bug('z import spec',P,[(CS,"                if import.imported.item == import.local.item {","                if import.imported.item.len() == import.local.item.len() {")])
bug('z ns',P,[(CS,'gen.write_bytes(b"* as ");','gen.write_bytes(b"* as"); gen.write_pretty(b\' \');')])
bug('z declinit',P,[(CS,"            gen.write_expression(init, ASSIGNMENT);","            gen.write_expression(init, 0);")])
bug('z get set',P,[(CF,'MethodKind::Set => gen.write_bytes(b"set "),','MethodKind::Set if !is_static => gen.write_bytes(b"set "),')])
bug('z gen static',P,[(CF,"                if value.generator {\n                    gen.write_byte(b'*');","                if value.generator && !is_static {\n                    gen.write_byte(b'*');")])
bug('z extends',P,[(CF,"gen.write_expression(super_class, 17);","gen.write_expression(super_class, 15);")])
bug('z opt name',P,[(CF,"            Some(ref name) => {\n                gen.write_byte(b' ');\n                gen.write(name);","            Some(ref name) => {\n                gen.write_pretty(b' ');\n                gen.write(name);")])
bug('z literal member',P,[(CF,"                gen.write_expression(value, ASSIGNMENT);\n                gen.write_byte(b';');","                gen.write(value);\n                gen.write_byte(b';');")])
bug('z literal member semi',P,[(CF,"                gen.write_expression(value, ASSIGNMENT);\n                gen.write_byte(b';');","                gen.write_expression(value, ASSIGNMENT);\n                gen.write_pretty(b';');")])
bug('z pattern default',P,[(CL,"                gen.write_expression(right, ASSIGNMENT);","                gen.write(right);")])
bug('z pattern rest',P,[(CL,"                gen.write_bytes(b\"...\");\n                gen.write(argument);","                gen.write(argument);")])
bug('z extend',P,[(CL,"    dst.reserve(src_len);","    dst.reserve(src_len.saturating_sub(1));")])
bug('z extend2',P,[(CL,"            dst.as_mut_ptr().add(dst_len),\n            src_len);","            dst.as_mut_ptr().add(dst_len),\n            src_len & 0xffff);")])
bug('z template zip',P,[(CE,"Some(quasi) => gen.write(quasi),\n            None => {","Some(quasi) if self.expressions.is_empty() => gen.write(quasi),\n            _ => {")])
bug('z template quasi',P,[(CE,"                    gen.write_pretty(b' ');\n                    gen.write_byte(b'}');\n                    gen.write(quasi);","                    gen.write_pretty(b' ');\n                    gen.write_byte(b'}');\n                    if quasi.len() > 1 { gen.write(quasi); }")])
bug('z regex sp',P,[(CE,"if gen.last_byte() == Some(b'/') {","if gen.last_byte() == Some(b'/') && val.len() > 3 {")])
bug('z u64',P,[(CL,'format!("{}", self)','format!("{:x}", self)')])
bug('z dent',P,[(CL,"        self.dent += 1;","        self.dent = 1;")])
bug('z key computed',P,[(CE,"                gen.write_byte(b'[');\n                gen.write_expression(val, ASSIGNMENT);","                gen.write_byte(b'[');\n                gen.write_expression(val, 5);")])
bug('z spread arg',P,[(CE,"        gen.write_bytes(b\"...\");\n        gen.write_expression(&self.argument, ASSIGNMENT);","        gen.write_bytes(b\"...\");\n        gen.write(&self.argument);")])
bug('z expression stmt',P,[(CS,"gen.write_leading_expression(expression, 0);","gen.write_expression(expression, 0);")])
bug('z computed call',P,[(CE,"        gen.write_expression(&self.callee, 17);\n        gen.write_byte(b'(');\n        gen.write_expression_list(&self.arguments);","        gen.write_expression(&self.callee, 17);\n        gen.write_byte(b'(');\n        gen.write_list(&self.arguments);")])
