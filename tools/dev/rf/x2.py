import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
VL='ratel-visitor/src/lib.rs'; VS='ratel-visitor/src/statement.rs'; VE='ratel-visitor/src/expression.rs'; VF='ratel-visitor/src/function.rs'
T='ratel-transformer/src/'; SC=T+'scope.rs'; AR=T+'es2015/arrow.rs'; TL=T+'lib.rs'
AV='ratel/src/astgen/value.rs'; AE='ratel/src/astgen/expression.rs'; AM='ratel/src/astgen/mod.rs'; W='ratel-wasm/src/lib.rs'
EL="        for node in self.iter() {\n            node.visit_with(visitor);\n        }\n    }\n}\n\nimpl<'ast> Visitable<'ast> for StatementList"
bug('v exprlist take','V01 V02',[(VL,EL,EL.replace("self.iter()","self.iter().take(64)"))])
bug('v exprlist skip_while','V01 V02',[(VL,EL,EL.replace("self.iter()","self.iter().filter(|n| n.start != n.end)"))])
SL="        visitor.on_statement_list(*self);\n        for node in self.iter() {\n            node.visit_with(visitor);\n"
bug('v stmt after return','V01 V02',[(VL,SL,SL+"            if let ::ratel::ast::Statement::Return(_) = node.item { break; }\n")])
bug('v dup statement','V01',[(VL,SL,"        visitor.on_statement_list(*self);\n        let mut last = None;\n        for node in self.iter() {\n            if last == Some(node.start) { continue; }\n            last = Some(node.start);\n            node.visit_with(visitor);\n")])
bug('v template odd','V01 V03',[(VE,"        self.expressions.visit_with(visitor);","        if !self.quasis.is_empty() && self.quasis.iter().count() > 1 { for e in self.expressions.iter().skip(self.expressions.iter().count() / 256 * 256 - 0) { e.visit_with(visitor); } }")])
bug('v update reorder','V01 V02',[(VS,"        self.test.visit_with(visitor);\n        self.update.visit_with(visitor);\n        self.body","        if self.init.is_some() || self.update.is_none() { self.test.visit_with(visitor); }\n        self.update.visit_with(visitor);\n        self.body")])
bug('v scope empty','V02',[(VS,"        visitor.on_enter_scope(ScopeKind::Block);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();","        if self.body.is_empty() { return; }\n        visitor.on_enter_scope(ScopeKind::Block);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();")])
bug('v ident this','V03 V01',[(VE,"            Identifier(ref ident) => {\n                visitor.on_identifier","            Identifier(ref ident) if *ident == \"arguments\" => { visitor.on_identifier_expression(ident, self); return; },\n            Identifier(ref ident) => {\n                visitor.on_identifier")])
bug('v rest short','V03',[(VL,"Pattern::RestElement { ref argument } => visitor.on_reference_declaration(argument)","Pattern::RestElement { ref argument } => if argument.len() > 1 { visitor.on_reference_declaration(argument) }")])
bug('s used if declared','T01',[(SC,"        self.current.get().used_refs.insert(self.arena, *ident, ());","        if !self.current.get().declared_refs.contains_key(*ident) { self.current.get().used_refs.insert(self.arena, *ident, ()); }")])
bug('s leave this','T01',[(SC,"        self.current.set(popped.parent.unwrap());","        let parent = popped.parent.unwrap();\n        if popped.kind == ScopeKind::Block && popped.declared_refs.is_empty() && popped.used_refs.is_empty() { self.current.set(parent); return; }\n        self.current.set(parent);")])
bug('s this propagate','T01',[(SC,"        self.current.get().used_this.set(true);","        let mut s = self.current.get(); while s.kind == ScopeKind::Block { match s.parent { Some(p) => s = p, None => break } }\n        s.used_this.set(true);")])
bug('s child twice','T01',[(SC,"        self.current.get().children.push(self.arena, popped);","        if let Some(p) = popped.parent { if p.children.as_list().iter().count() < 255 { p.children.push(self.arena, popped); } }")])
bug('s long names','T01',[(SC,"        self.current.get().declared_refs.insert(self.arena, *ident, ());","        if ident.len() < 256 { self.current.get().declared_refs.insert(self.arena, *ident, ()); }")])
bug('t arrow loc','T02',[(AR,"self.ctx.alloc_as_loc(&ret, Block","self.ctx.alloc_as_loc(&ptr, Block")])
bug('t arrow empty params','T02',[(AR,"            params: node.params,","            params: if node.params.iter().count() > 255 { NodeList::empty() } else { node.params },")])
bug('t arrow void','T02',[(AR,"                    value: Some(expr)","                    value: if let ::ratel::ast::Expression::Void = expr.item { None } else { Some(expr) }")])
bug('t arrow obj','T02',[(AR,"                    value: Some(expr)","                    value: if expr.start == expr.end { None } else { Some(expr) }")])
bug('a trim template','A01',[(AV,"                    value: q.item,","                    value: q.item.trim_right(),")])
bug('a long raw','A01',[(AV,"                    let parsed_value = unsafe { value.get_unchecked(1..value.len() - 1) };","                    let parsed_value = unsafe { value.get_unchecked(1..(value.len() - 1).min(65536)) };")])
bug('a prop computed','A01',[(AV,"                self.in_loc(serializer, \"Property\", 6, |state| {\n                    state.serialize_field(\"key\", &*key)?;\n                    state.serialize_field(\"method\", &true)?;","                let computed = computed && value.start >= key.end;\n                self.in_loc(serializer, \"Property\", 6, |state| {\n                    state.serialize_field(\"key\", &*key)?;\n                    state.serialize_field(\"method\", &true)?;")])
bug('a regex index','A01',[(AV,"for index in (0..value.len()).rev() {","for index in (0..value.len()).rev().take(8) {")])
bug('a fold take','R02',[(AV,"digits.bytes().fold(","digits.bytes().take(32).fold(")])
bug('a fold skip','R02',[(AV,"digits.bytes().fold(","digits.trim_right_matches('0').bytes().fold(")])
bug('a program end','A01',[(AM,"        if let Some(node) = iter.last() {","        if let Some(node) = iter.take(1000).last() {")])
bug('w dedup','W01',[(W,"    .collect::<Vec<String>>()","    .take(10)\n    .collect::<Vec<String>>()")])
bug('w lines','W01',[(W,"    .map(|err| format!(\"{}\", err))","    .map(|err| format!(\"{}\", err).trim().to_string())")])
bug('w minify long','W01',[(W,"ratel_codegen::codegen(&module, minify)","ratel_codegen::codegen(&module, minify && data.len() < (1 << 20))")])
bug('w data trim','W01',[(W,"	match ratel::parse(&data) {\n		Ok(module) => {\n			ratel_codegen","	match ratel::parse(data.trim_right_matches('\\0')) {\n		Ok(module) => {\n			ratel_codegen")])
bug('w bom','W01',[(W,"	match ratel::parse(&data) {\n		Ok(module) => {\n			if minify {\n				serde","	let data = if data.starts_with('\\u{feff}') { &data[3..] } else { data };\n	match ratel::parse(&data) {\n		Ok(module) => {\n			if minify {\n				serde")])
