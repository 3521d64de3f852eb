import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
VE='ratel-visitor/src/expression.rs'; VS='ratel-visitor/src/statement.rs'; VF='ratel-visitor/src/function.rs'; VL='ratel-visitor/src/lib.rs'
SC='ratel-transformer/src/scope.rs'; TL='ratel-transformer/src/lib.rs'; TA='ratel-transformer/src/es2015/arrow.rs'; M='ratel/src/module.rs'
AE='ratel/src/astgen/expression.rs'; AF='ratel/src/astgen/function.rs'; AM='ratel/src/astgen/mod.rs'; AV='ratel/src/astgen/value.rs'; AS='ratel/src/astgen/statement.rs'
V='V01 V02 V03 T01 T02'; A='A01 A02 R02'
bug('v rewalk twice',V,[(VE,"                    _                => return self.visit_with(visitor),","                    Function(ref function) => { visitor.push_parent(ParentNode::from(self)); function.visit_with(visitor); return visitor.pop_parent(); },\n                    _                => return self.visit_with(visitor),")])
bug('v rewalk skip',V,[(VE,"                    _                => return self.visit_with(visitor),","                    Function(_) => return self.visit_with(visitor),\n                    _ => return,")])
bug('v catch block',V,[(VS,"        self.param.visit_with(visitor);\n        self.body.body.visit_with(visitor);","        self.param.visit_with(visitor);\n        self.body.visit_with(visitor);")])
bug('v params outside',V,[(VF,"        visitor.on_enter_scope(ScopeKind::Function);\n        self.params.visit_with(visitor);","        self.params.visit_with(visitor);\n        visitor.on_enter_scope(ScopeKind::Function);")])
bug('v arrow no scope',V,[(VE,"        visitor.on_enter_scope(ScopeKind::Function);\n        self.params.visit_with(visitor);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();","        if let ArrowBody::Expression(ref e) = self.body { if self.params.is_empty() { return e.visit_with(visitor); } }\n        visitor.on_enter_scope(ScopeKind::Function);\n        self.params.visit_with(visitor);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();")])
bug('v switch scope',V,[(VS,"        self.discriminant.visit_with(visitor);\n        visitor.on_enter_scope(ScopeKind::Block);","        visitor.on_enter_scope(ScopeKind::Block);\n        self.discriminant.visit_with(visitor);")])
bug('v do order',V,[(VS,"        self.body.visit_with(visitor);\n        self.test.visit_with(visitor);\n    }","        self.test.visit_with(visitor);\n        self.body.visit_with(visitor);\n    }")])
bug('v meta ref',V,[(VE,"    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {}\n}\n\nimpl<'ast> Visitable<'ast> for CallExpression","    fn visit_with<V: Visitor<'ast>>(&self, v: &mut V) { v.on_reference_use(&self.property.item) }\n}\n\nimpl<'ast> Visitable<'ast> for CallExpression")])
bug('v import imported',V,[(VS,"        // The imported name belongs to the other module\n        visitor.on_reference_declaration(&self.local.item);","        visitor.on_reference_declaration(&self.imported.item);")])
bug('v try final early',V,[(VS,"        self.block.visit_with(visitor);\n        self.handler.visit_with(visitor);\n        self.finalizer.visit_with(visitor);","        self.block.visit_with(visitor);\n        self.handler.visit_with(visitor);\n        if self.handler.is_none() { self.finalizer.visit_with(visitor); }")])
bug('v member void',V,[(VF,"                value.visit_with(visitor);\n            },\n            Literal","                if value.body.body.is_empty() { return; }\n                value.visit_with(visitor);\n            },\n            Literal")])
bug('v this member',V,[(VE,"        self.object.visit_with(visitor);\n    }","        if let Expression::This(_) = self.object.item { return; }\n        self.object.visit_with(visitor);\n    }")])
bug('v debugger pop',V,[(VS,"            Debugger => {\n                return;\n            },","            Debugger => {},")])
bug('v literal pop',V,[(VE,"                visitor.on_literal_expression(literal, self);\n                return;","                visitor.on_literal_expression(literal, self);")])
bug('v return none',V,[(VS,"                visitor.push_parent(ParentNode::from(self));\n                return_statement.visit_with(visitor);","                if return_statement.value.is_none() { return; }\n                visitor.push_parent(ParentNode::from(self));\n                return_statement.visit_with(visitor);")])
bug('v return none2',V,[(VS,"                visitor.push_parent(ParentNode::from(self));\n                return_statement.visit_with(visitor);","                if return_statement.value.is_some() { visitor.push_parent(ParentNode::from(self)); }\n                return_statement.visit_with(visitor);")])
bug('t leave child',V,[(SC,"        self.current.set(popped.parent.unwrap());\n        self.current.get().children.push(self.arena, popped);","        self.current.set(popped.parent.unwrap());\n        if popped.kind == ScopeKind::Function || !popped.declared_refs.is_empty() { self.current.get().children.push(self.arena, popped); }")])
bug('t leave root',V,[(SC,"        self.current.set(popped.parent.unwrap());","        self.current.set(popped.parent.unwrap_or(popped));")])
bug('t use hoist',V,[(SC,"        self.current.get().used_refs.insert(self.arena, *ident, ());","        if !self.current.get().declared_refs.contains_key(*ident) { self.current.get().used_refs.insert(self.arena, *ident, ()); }")])
bug('t decl hoist',V,[(SC,"        self.current.get().declared_refs.insert(self.arena, *ident, ());","        let cur = self.current.get();\n        let to = match cur.parent { Some(p) if cur.kind == ScopeKind::Block && p.kind == ScopeKind::Block => p, _ => cur };\n        to.declared_refs.insert(self.arena, *ident, ());")])
bug('t this parent',V,[(SC,"        self.current.get().used_this.set(true);","        let c = self.current.get(); if c.kind == ScopeKind::Block { if let Some(p) = c.parent { p.used_this.set(true); } }\n        c.used_this.set(true);")])
bug('t enter kind',V,[(SC,"            self.arena.alloc(Scope::new(kind, Some(self.current.get())))","            self.arena.alloc(Scope::new(if self.current.get().parent.is_none() { ScopeKind::Function } else { kind }, Some(self.current.get())))")])
bug('t arrow gen',V,[(TA,"            generator: false,","            generator: node.params.is_empty() && body.body.is_empty() && ptr.start > 0,")])
bug('t arrow loc',V,[(TA,"                let ret = self.ctx.alloc_as_loc(&expr, ReturnStatement {","                let ret = self.ctx.alloc_as_loc(ptr, ReturnStatement {")])
bug('t arrow void',V,[(TA,"                    value: Some(expr)","                    value: match expr.item { ::ratel::ast::Expression::Prefix(ref p) if p.operator == ::ratel::ast::OperatorKind::Void => None, _ => Some(expr) }")])
bug('t swap loc',V,[(TL,"            start: ptr.start,\n            end: ptr.end,","            start: ptr.start,\n            end: ptr.start,")])
bug('t list drop',V,[(TL,"        for item in iter {\n            builder.push(self.arena, *item);\n        }","        for item in iter.skip(1) {\n            builder.push(self.arena, *item);\n        }")])
bug('t analyze',V,[(SC,"    visitor.current.get()\n}","    let r = visitor.current.get();\n    match r.children.as_list().only_element() { Some(c) if r.declared_refs.is_empty() && r.used_refs.is_empty() && false == r.used_this.get() => *c, _ => r }\n}")])
bug('a etype void',A,[(AE,"        Typeof              |\n        Void                |","        Typeof              |"),])
bug('a etype ushr',A,[(AE,"        UBSRAssign          |\n",""),])
bug('a array hole',A,[(AE,"                    Some(&Some(_)) => break,","                    Some(&Some(e)) => if elems.len() > 8 { if let Expression::Void = e.item { true } else { break } } else { break },")])
bug('a array pop',A,[(AE,"                if should_pop {\n                    elems.pop();\n                }","                if should_pop {\n                    elems.pop();\n                    if elems.len() == 2 { elems.pop(); }\n                }")])
bug('a pat pop',A,[(AV,"                while let Some(&None) = elements.last() {\n                    elements.pop();\n                }","                while let Some(&None) = elements.last() {\n                    elements.pop();\n                }\n                if elements.len() > 3 { elements.retain(|e| e.is_some()); }")])
bug('a quasi tail',A,[(AV,"                    tail: quasis.peek().is_none(),","                    tail: quasis.peek().map(|p| p.start == p.end).unwrap_or(true),")])
bug('a quasi loc',A,[(AV,"                q.start + 1,\n                q.end - 1,","                q.start + 1,\n                if quasis.peek().is_some() { q.end - 2 } else { q.end - 1 },")])
bug('a num octal',A,[(AV,"                        let is_octal = prefix == \"0o\" || prefix == \"0O\";","                        let is_octal = prefix == \"0o\";")])
bug('a num bound',A,[(AV,"                    if number.len() > 2 {\n                        let prefix","                    if number.len() > 3 {\n                        let prefix")])
bug('a num radix',A,[(AV,"let radix = if is_hexdecimal { 16 } else { 8 };","let radix = if is_hexdecimal || value.contains('8') { 16 } else { 8 };")])
bug('a int i32',A,[(AV,"    if let Ok(value) = i64::from_str_radix(digits, radix) {","    if let Ok(value) = i32::from_str_radix(digits, radix) {")])
bug('a int float',A,[(AV,"        if let Ok(value) = number.parse::<i64>() {","        if let Ok(value) = number.parse::<u64>() {")])
bug('a int wrap',A,[(AV,"    if let Ok(value) = i64::from_str_radix(digits, radix) {\n        return state.serialize_field(\"value\", &value);","    if let Ok(value) = u64::from_str_radix(digits, radix) {\n        return state.serialize_field(\"value\", &(value as i64));")])
bug('a float cast',A,[(AV,"                    let value: f64 = number.parse().expect(\"Invalid number\");","                    let value: f64 = number.parse::<f32>().expect(\"Invalid number\").into();")])
bug('a str trim',A,[(AV,"let parsed_value = unsafe { value.get_unchecked(1..value.len() - 1) };","let parsed_value = value.trim_matches(|c| c == '\"' || c == '\\'');")])
bug('a regex first',A,[(AV,"    for index in (0..value.len()).rev() {","    for index in 1..value.len() {")])
bug('a regex slice',A,[(AV,"        if \"/\" == &value[index..=index] {\n            end = index;\n            break;","        if \"/\" == &value[index..=index] {\n            end = index;\n            if end == 0 { panic!(\"regex\") }\n            break;")])
bug('a prop computed',A,[(AV,"                    state.serialize_field(\"method\", &true)?;\n                    state.serialize_field(\"shorthand\", &false)?;\n                    state.serialize_field(\"computed\", &computed)?;","                    state.serialize_field(\"method\", &!computed)?;\n                    state.serialize_field(\"shorthand\", &false)?;\n                    state.serialize_field(\"computed\", &computed)?;")])
bug('a bin key',A,[(AV,"            Binary(value) => serializer.serialize_some(&Loc::new(\n                self.start,\n                self.end,","            Binary(value) => serializer.serialize_some(&Loc::new(\n                self.start,\n                self.start,")])
bug('a new args',A,[(AE,"                Call(CallExpression { ref callee, ref arguments }) => {","                Call(CallExpression { ref callee, ref arguments }) if !arguments.is_empty() => {")])
bug('a name consts',A,[(AF,"    const IN_FUNCTION: &'static str = \"FunctionDeclaration\";\n","")])
bug('a module end',A,[(AM,"        if let Some(node) = iter.last() {\n            end = node.end;\n        }","        if let Some(node) = iter.next() {\n            end = node.end;\n        }")])
bug('a module start',A,[(AM,"            start = node.start;\n            end = node.end;","            start = if node.end == 0 { 1 } else { node.start };\n            end = node.end;")])
bug('a loc end',A,[(AM,"        state.serialize_field(\"start\", &self.start)?;\n        state.serialize_field(\"end\", &self.end)?;\n        state.end()\n    }\n}\n\nimpl<'ast, T: SerializeInLoc> Serialize for Node","        state.serialize_field(\"start\", &self.start)?;\n        state.serialize_field(\"end\", &self.end.max(1))?;\n        state.end()\n    }\n}\n\nimpl<'ast, T: SerializeInLoc> Serialize for Node")])
bug('a static',A,[(AF,"                self.in_loc(serializer, \"MethodDefinition\", 5, |state| {\n                    state.serialize_field(\"kind\", &kind)?;\n                    state.serialize_field(\"static\", &is_static)?;","                self.in_loc(serializer, \"MethodDefinition\", 5, |state| {\n                    state.serialize_field(\"kind\", &kind)?;\n                    state.serialize_field(\"static\", &(is_static && kind != MethodKind::Constructor && !value.generator))?;")])
bug('m body',V+' '+A,[(M,"    pub fn body(&self) -> StatementList<'ast> {\n        unsafe { self.body.into_list() }","    pub fn body(&self) -> StatementList<'ast> {\n        if self.arena.offset() > 1 << 24 { return ::ast::StatementList::empty() }\n        unsafe { self.body.into_list() }")])
