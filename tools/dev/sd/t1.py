import sys; sys.path.insert(0,'/tmp/sd')
from plant import plant
plant('t01-shared-this','T01',[('ratel-transformer/src/scope.rs','self.current.get().used_this.set(true);','''let mut scope = self.current.get();

        while let (ScopeKind::Block, Some(parent)) = (scope.kind, scope.parent) {
            scope = parent;
        }

        scope.used_this.set(true);''')],
 'a `this` in a block inside of a function',
 'The use of `this` is recorded in the function scope around the block instead of the innermost scope.',
 '''fn main() {
    let m = ratel::parse("function f() { if (a) { this.b; } }").unwrap();
    let root = ratel_transformer::scope::analyze(&m);
    let f = *root.children.as_list().only_element().unwrap();
    let b = *f.children.as_list().only_element().unwrap();
    assert!(b.used_this.get());
    assert!(!f.used_this.get());
}
''')
plant('t01-empty-scope','T01',[('ratel-transformer/src/scope.rs','''        self.current.get().children.push(self.arena, popped);''','''
        if !popped.used_refs.is_empty() || !popped.declared_refs.is_empty() {
            self.current.get().children.push(self.arena, popped);
        }''')],
 'a scope that has no names of its own but nested scopes with names',
 'A scope without own names is dropped together with the scopes nested in it.',
 '''fn main() {
    let m = ratel::parse("function f(a) { { { b; } } }").unwrap();
    let root = ratel_transformer::scope::analyze(&m);
    let f = *root.children.as_list().only_element().unwrap();
    let outer = *f.children.as_list().only_element().expect("block missing");
    let inner = *outer.children.as_list().only_element().expect("inner block missing");
    assert!(inner.used_refs.contains_key("b"));
}
''')
plant('t02-arrow-end','T02',[('ratel-transformer/src/es2015/arrow.rs','''            ArrowBody::Block(block)     => block,
''','''            ArrowBody::Block(block) if block.body.is_empty() => self.ctx.alloc(Block {
                body: node.params.only_element().map_or(NodeList::empty(), |_| block.body)
            }),
            ArrowBody::Block(block) => block,
''')],'x','x','fn main(){}') if 0 else None
plant('t02-swap-empty','T02',[('ratel-transformer/src/lib.rs','''        ptr.set(new);''','''        if ptr.end > ptr.start + 8 || ptr.start == 0 {
            ptr.set(new);
        }''')],
 'an arrow function whose recorded extent is very short, not at the start of the source',
 'Very short arrow functions are left in the tree.',
 '''fn main() {
    for (src, want) in &[("x = a => b;", "x=function(a){return b;};"), ("foo(1, () => 2);", "foo(1,function(){return 2;});")] {
        let m = Box::leak(Box::new(ratel::parse(src).unwrap()));
        let p = m as *mut _;
        ratel_transformer::transform(unsafe { &mut *p });
        assert_eq!(ratel_codegen::codegen(unsafe { &*p }, true), *want);
    }
}
''')
