import os; os.environ['MODS']='transform'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
S='ratel-transformer/src/scope.rs'; A='ratel-transformer/src/es2015/arrow.rs'; L='ratel-transformer/src/lib.rs'
rf('q: let parent',[(S,"""        let popped = self.current.get();

        self.current.set(popped.parent.unwrap());
        self.current.get().children.push(self.arena, popped);""","""        let popped = self.current.get();
        let outer = popped.parent.expect("unbalanced");

        outer.children.push(self.arena, popped);
        self.current.set(outer);""")])
rf('q: if let',[(S,"""        let popped = self.current.get();

        self.current.set(popped.parent.unwrap());
        self.current.get().children.push(self.arena, popped);""","""        let popped = self.current.get();
        if let Some(outer) = popped.parent {
            outer.children.push(self.arena, popped);
            self.current.set(outer);
        }""")])
rf('q: enter',[(S,"""        self.current.set(
            self.arena.alloc(Scope::new(kind, Some(self.current.get())))
        );""","""        let parent = self.current.get();
        let scope = self.arena.alloc(Scope::new(kind, Some(parent)));
        self.current.set(scope);""")])
rf('q: arrow helper',[(A,"""impl<'ast> Visitor""","""impl<'ast> TransformArrow<'ast> {
    fn body(&self, body: ArrowBody<'ast>) -> ratel::ast::BlockNode<'ast, ratel::ast::Statement<'ast>> {
        if let ArrowBody::Block(block) = body { return block; }
        match body {
            ArrowBody::Expression(expr) => {
                let stmt = ReturnStatement { value: Some(expr) };
                let list = NodeList::from(self.ctx.arena, self.ctx.alloc_as_loc(&expr, stmt));
                self.ctx.alloc_as_loc(&expr, Block { body: list })
            }
            ArrowBody::Block(block) => block,
        }
    }
}

impl<'ast> Visitor"""),(A,"""        let body = match node.body {
            ArrowBody::Block(block)     => block,
            ArrowBody::Expression(expr) => {
                let ret = self.ctx.alloc_as_loc(&expr, ReturnStatement {
                    value: Some(expr)
                });

                self.ctx.alloc_as_loc(&ret, Block {
                    body: NodeList::from(self.ctx.arena, ret)
                })
            }
        };
""","""        let body = self.body(node.body);
""")])
rf('BUG parent push',[(S,"self.current.get().children.push(self.arena, popped);","popped.children.push(self.arena, popped);")])
rf('BUG this',[(S,"self.current.get().used_this.set(true);","if let Some(p) = self.current.get().parent { p.used_this.set(true) }")])
rf('BUG refs',[(S,"self.current.get().declared_refs.insert(self.arena, *ident, ());","let mut s = self.current.get(); while let (ScopeKind::Block, Some(p)) = (s.kind, s.parent) { s = p; } s.declared_refs.insert(self.arena, *ident, ());")])
rf('BUG ret',[(A,"value: Some(expr)","value: None")])
rf('BUG gen',[(A,"generator: false","generator: true")])
rf('BUG set',[(L,"        ptr.set(new);","        if ptr.start != ptr.end { ptr.set(new); }")])
rf('BUG set2',[(L,"            end: ptr.end,\n            item: item.into()","            end: ptr.start,\n            item: item.into()")])
rf('BUG kind',[(S,"Scope::new(kind, Some(self.current.get()))","Scope::new(kind, self.current.get().parent)")])
E='ratel-visitor/src/expression.rs'
NEW="""                let arrow = match self.item {
                    Arrow(ref arrow) => arrow,
                    _                => return self.visit_with(visitor),
                };
"""
rf('BUG old body visited',[(E,NEW,'')])
rf('BUG nothing visited',[(E,NEW,NEW.replace('return self.visit_with(visitor)','return'))])
rf('OK if let',[(E,NEW,"""                if let Arrow(_) = self.item {} else {
                    self.visit_with(visitor);
                    return;
                }
""")])
rf('OK function visited',[(E,NEW,NEW.replace('_                => return self.visit_with(visitor)','Function(ref f) => { visitor.push_parent(ParentNode::from(self)); f.visit_with(visitor); visitor.pop_parent(); return }, _ => return self.visit_with(visitor)'))])
