import sys; sys.path.insert(0,'/tmp/rf')
from xrun import *
SC='ratel-transformer/src/scope.rs'; TL='ratel-transformer/src/lib.rs'; M='ratel/src/module.rs'; N='ratel/src/ast/node.rs'; L='ratel/src/lexer/mod.rs'; PM='ratel/src/parser/mod.rs'; VL='ratel-visitor/src/lib.rs'
bug('w body','M01',[(M,"pub fn body(&'ast self) -> StatementList<'ast> {\n        self.statements()","pub fn body(&self) -> StatementList<'ast> {\n        unsafe { self.body.into_list() }")])
bug('w body2','M01',[(M,"pub fn body(&'ast self) -> StatementList<'ast> {","pub fn body<'a>(&'a self) -> StatementList<'a> {")])
bug('w arena','M01',[(M,"    pub fn arena(&'ast self) -> &'ast Arena {\n        &self.arena","    pub fn arena(&self) -> &'ast Arena {\n        unsafe { &*(&self.arena as *const Arena) }")])
bug('w phantom','M01',[(M,"_phantom: PhantomData<&'ast StatementList<'ast>>","_phantom: PhantomData<&'ast ()>")])
bug('w node','M01',[(N,"    inner: CopyCell<&'ast Loc<T>>","    inner: CopyCell<*const Loc<T>>, _p: ::std::marker::PhantomData<&'ast Loc<T>>"),(N,"            inner: CopyCell::new(ptr)","            inner: CopyCell::new(ptr as *const _), _p: ::std::marker::PhantomData"),(N,"        self.inner.get()","        unsafe { &*self.inner.get() }"),(N,"        self.inner.get_mut()","        unsafe { &mut *(self.inner.get_mut() as *mut *const Loc<T> as *mut &'ast Loc<T>) }")])
bug('w nodesync','M01',[(N,"impl<'ast, T: 'ast> Node<'ast, T> {","unsafe impl<'ast, T: 'ast> Sync for Node<'ast, T> {}\nimpl<'ast, T: 'ast> Node<'ast, T> {")])
bug('w set','M01',[(N,"    pub fn set(&self, ptr: &'ast Loc<T>) {\n        self.inner.set(ptr)","    pub fn set(&self, ptr: &Loc<T>) {\n        self.inner.set(unsafe { &*(ptr as *const Loc<T>) })")])
bug('w scope','M01',[(SC,"pub fn analyze<'ast>(module: &'ast Module<'ast>) -> &'ast Scope<'ast> {","pub fn analyze<'s, 'ast>(module: &'s Module<'ast>) -> &'ast Scope<'ast> where 'ast: 's {\n    let module: &'ast Module<'ast> = unsafe { &*(module as *const _) };")])
bug('w transform','M01',[(TL,"pub fn transform<'ast>(module: &'ast Module<'ast>)","pub fn transform<'ast>(module: &'ast mut Module<'ast>)")])
bug('w swap','M01',[(TL,"    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) where","    pub fn swap<'b, T, I>(&self, ptr: &Node<'b, T>, item: I) where\n        'b: 'ast,")])
bug('w srclexer','M01 L01',[(L,"        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(source)) }","        if source.as_bytes().last() == Some(&0) { return unsafe { Lexer::from_ptr(source.as_ptr()) }; }\n        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(source)) }")])
bug('w lexlife','M01',[(L,"    pub fn new(arena: &'arena Arena, source: &str) -> Self {","    pub fn new(arena: &Arena, source: &str) -> Self {")])
