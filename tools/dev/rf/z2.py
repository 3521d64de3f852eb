import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
VL='ratel-visitor/src/lib.rs'; VS='ratel-visitor/src/statement.rs'; VF='ratel-visitor/src/function.rs'; VE='ratel-visitor/src/expression.rs'
SC='ratel-transformer/src/scope.rs'; TL='ratel-transformer/src/lib.rs'; AR='ratel-transformer/src/es2015/arrow.rs'
V='V01 V02 V03 T01 T02'
bug('v2 pattern default first',V,[(VL,"                left.visit_with(visitor);\n                right.visit_with(visitor);","                right.visit_with(visitor);\n                left.visit_with(visitor);")])
bug('v2 rest use',V,[(VL,"Pattern::RestElement { ref argument } => visitor.on_reference_declaration(argument),","Pattern::RestElement { ref argument } => visitor.on_reference_use(argument),")])
bug('v2 list skip',V,[(VL,"        visitor.on_statement_list(*self);\n        for node in self.iter() {","        if !self.is_empty() { visitor.on_statement_list(*self); }\n        for node in self.iter() {")])
bug('v2 stmt list after',V,[(VL,"        visitor.on_statement_list(*self);\n        for node in self.iter() {\n            node.visit_with(visitor);\n        }","        for node in self.iter() {\n            node.visit_with(visitor);\n        }\n        visitor.on_statement_list(*self);")])
bug('v2 throw early',V,[(VS,"                visitor.on_throw_statement(throw, self);\n                visitor.push_parent(ParentNode::from(self));","                visitor.on_throw_statement(throw, self);\n                if visitor_is_unit(&throw.value) { return; }\n                visitor.push_parent(ParentNode::from(self));"),(VS,"impl<'ast> Visitable<'ast> for BlockStatement","fn visitor_is_unit<'ast>(e: &::ratel::ast::ExpressionNode<'ast>) -> bool { match e.item { ::ratel::ast::Expression::Literal(_) => true, _ => false } }\n\nimpl<'ast> Visitable<'ast> for BlockStatement")])
bug('v2 empty block noscope',V,[(VS,"        visitor.on_enter_scope(ScopeKind::Block);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();","        if self.body.is_empty() { return; }\n        visitor.on_enter_scope(ScopeKind::Block);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();")])
bug('v2 declarator order',V,[(VS,"        self.id.visit_with(visitor);\n        self.init.visit_with(visitor);","        self.init.visit_with(visitor);\n        self.id.visit_with(visitor);")])
bug('v2 catch scope',V,[(VS,"        self.param.visit_with(visitor);\n        self.body.body.visit_with(visitor);\n        visitor.on_leave_scope();","        self.param.visit_with(visitor);\n        self.body.visit_with(visitor);\n        visitor.on_leave_scope();")])
bug('v2 switch block',V,[(VS,"        self.discriminant.visit_with(visitor);\n        visitor.on_enter_scope(ScopeKind::Block);","        visitor.on_enter_scope(ScopeKind::Block);\n        self.discriminant.visit_with(visitor);")])
bug('v2 import imported',V,[(VS,"        // The imported name belongs to the other module\n        visitor.on_reference_declaration(&self.local.item);","        visitor.on_reference_declaration(&self.imported.item);")])
bug('v2 fn name inside',V,[(VF,"        self.name.visit_with(visitor);\n\n        // Call","        // Call"),(VF,"        visitor.on_enter_scope(ScopeKind::Function);\n        self.params","        visitor.on_enter_scope(ScopeKind::Function);\n        self.name.visit_with(visitor);\n        self.params")])
bug('v2 fn kind',V,[(VF,"visitor.on_enter_scope(ScopeKind::Function);\n        self.params","visitor.on_enter_scope(if self.params.is_empty() { ScopeKind::Block } else { ScopeKind::Function });\n        self.params")])
bug('v2 class literal key',V,[(VF,"            Literal {\n                ref key,\n                ref value,\n                ..\n            } => {\n                key.visit_with(visitor);\n                value","            Literal {\n                ref value,\n                ..\n            } => {\n                value")])
bug('v2 class extends order',V,[(VF,"        self.extends.visit_with(visitor);\n        self.body.body.visit_with(visitor);","        self.body.body.visit_with(visitor);\n        self.extends.visit_with(visitor);")])
bug('v2 do order',V,[(VS,"        self.body.visit_with(visitor);\n        self.test.visit_with(visitor);","        self.test.visit_with(visitor);\n        self.body.visit_with(visitor);")])
bug('v2 case test',V,[(VS,"        self.test.visit_with(visitor);\n        self.consequent.visit_with(visitor);\n    }\n}\n\nimpl<'ast> Visitable<'ast> for SwitchStatement","        self.consequent.visit_with(visitor);\n        self.test.visit_with(visitor);\n    }\n}\n\nimpl<'ast> Visitable<'ast> for SwitchStatement")])
bug('s2 leave push',V,[(SC,"        self.current.get().children.push(self.arena, popped);","        if !(popped.used_refs.is_empty() && popped.declared_refs.is_empty()) || popped.kind == ScopeKind::Function {\n            self.current.get().children.push(self.arena, popped);\n        }")])
bug('s2 leave order',V,[(SC,"        self.current.set(popped.parent.unwrap());\n        self.current.get().children.push(self.arena, popped);","        popped.children.push(self.arena, popped);\n        self.current.set(popped.parent.unwrap());")])
bug('s2 use as decl',V,[(SC,"        self.current.get().used_refs.insert(self.arena, *ident, ());","        if !self.current.get().declared_refs.contains_key(*ident) {\n            self.current.get().used_refs.insert(self.arena, *ident, ());\n        }")])
bug('s2 decl hoist',V,[(SC,"        self.current.get().declared_refs.insert(self.arena, *ident, ());","        let cur = self.current.get();\n        let target = match cur.parent { Some(p) if cur.kind == ScopeKind::Block => p, _ => cur };\n        target.declared_refs.insert(self.arena, *ident, ());")])
bug('s2 this parent',V,[(SC,"        self.current.get().used_this.set(true);","        let c = self.current.get();\n        c.used_this.set(true);\n        if let Some(p) = c.parent { if c.kind == ScopeKind::Function { p.used_this.set(true); } }")])
bug('s2 this toggle',V,[(SC,"        self.current.get().used_this.set(true);","        let c = self.current.get();\n        c.used_this.set(!c.used_this.get());")])
bug('s2 trim',V,[(SC,"used_refs.insert(self.arena, *ident, ())","used_refs.insert(self.arena, ident.trim_left_matches('$'), ())")])
bug('s2 analyze parent',V,[(SC,"    visitor.current.get()\n}","    let c = visitor.current.get();\n    c.children.as_list().only_element().map(|x| *x).filter(|_| false).unwrap_or(c)\n}")])
bug('t2 swap loc',V,[(TL,"            start: ptr.start,\n            end: ptr.end,","            start: ptr.start,\n            end: ptr.start,")])
bug('t2 loc as',V,[(TL,"Loc::new(loc.start, loc.end, item.into())","Loc::new(loc.end, loc.end, item.into())")])
bug('t2 list skip',V,[(TL,"            Some(item) => ListBuilder::new(self.arena, *item),\n            None       => return NodeList::empty(),\n        };\n\n        for item in iter {","            Some(item) => ListBuilder::new(self.arena, *item),\n            None       => return NodeList::empty(),\n        };\n\n        for item in iter.skip(1) {")])
bug('t2 params',V,[(AR,"            params: node.params,","            params: if body.body.is_empty() { NodeList::empty() } else { node.params },")])
bug('t2 gen',V,[(AR,"            generator: false,","            generator: node.params.is_empty(),")])
bug('t2 ret none',V,[(AR,"                    value: Some(expr)","                    value: match expr.item { ::ratel::ast::Expression::Void => None, ::ratel::ast::Expression::Literal(::ratel::ast::Literal::Undefined) => None, _ => Some(expr) }")])
bug('t2 block keep',V,[(AR,"ArrowBody::Block(block)     => block,","ArrowBody::Block(block)     => { if block.body.is_empty() { return; } block },")])
bug('t2 alloc loc',V,[(AR,"self.ctx.alloc_as_loc(&ret, Block {","self.ctx.alloc(Block {")])
