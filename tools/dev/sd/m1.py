import sys,subprocess,os; sys.path.insert(0,'/tmp/sd')
from plant import plant
DEMO='''#!/bin/bash
# the program in demo.rs must be rejected by the borrow checker
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p $t/src; cp "$here/demo.rs" $t/src/main.rs
cat > $t/Cargo.toml <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
ratel = { path = "/repo/ratel" }
ratel-codegen = { path = "/repo/ratel-codegen" }
ratel-visitor = { path = "/repo/ratel-visitor" }
ratel-transformer = { path = "/repo/ratel-transformer" }
toolshed = { version = "0.4", features = ["impl_serialize"] }
E
cd $t; export CARGO_TARGET_DIR=$t/target RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
o=$(cargo check --offline 2>&1) && { echo "the program is accepted"; exit 1; }
echo "$o" | grep -qE "E0597|E0505|E0515|E0716|lifetime may not live long enough" && exit 0
echo "$o" | tail -20; exit 3
'''
def w(id,edits,needs,breaks,demo,sh=DEMO):
    plant(id,'M01',edits,needs,breaks,demo)
    if sh: open('/verif/seeded/%s/demo.sh'%id,'w').write(sh)
M='ratel/src/module.rs'; N='ratel/src/ast/node.rs'; L='ratel/src/lexer/mod.rs'
w('m01-arena-lifetime',[(M,"    pub fn arena(&'ast self) -> &'ast Arena {\n        &self.arena","    pub fn arena(&self) -> &'ast Arena {\n        unsafe { &*(&self.arena as *const Arena) }")],
 'a caller that keeps the arena of a module, or something allocated in it, beyond the module','The arena is handed out for any lifetime, so that safe code can use freed memory.',
 'fn main() { let x = { let m = ratel::parse("a").unwrap(); m.arena().alloc(5u32) as &u32 }; println!("{}", x); }\n')
w('m01-phantom',[(M,"    _phantom: PhantomData<&'ast StatementList<'ast>>","    _phantom: PhantomData<&'ast ()>")],
 'a caller that puts a node of a shorter life into the tree through a module whose lifetime was shortened','The module is covariant in the lifetime of its tree, so that safe code can make a node refer to something that is gone before the module.',
 '''use ratel::Module; use ratel::ast::*;
fn set<'a, 'b: 'a>(m: &'a Module<'b>, l: &'a Loc<Statement<'a>>) { let m: &'a Module<'a> = m; m.body().only_element().unwrap().set(l); }
fn main() { let m = ratel::parse("a").unwrap(); { let l = Loc::new(0, 0, Statement::Empty); set(&m, &l); } println!("{:?}", m); }
''')
w('m01-borrowed-source',[(L,"        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(source)) }","        // Sources that bring their own terminator need no copy\n        if source.as_bytes().last() == Some(&0) {\n            return unsafe { Lexer::from_ptr(source.as_ptr()) };\n        }\n\n        unsafe { Lexer::from_ptr(arena.alloc_str_with_nul(source)) }")],
 'a source text that ends with a NUL byte and is dropped or reused before the tree','The names of the tree refer to the memory of the source text, which is gone.',
 '''fn main() {
    let mut s = String::from("doge;\\0");
    let m = ratel::parse(&s).unwrap();
    unsafe { s.as_bytes_mut()[0] = b'm'; }
    assert_eq!(ratel_codegen::codegen(&m, true), "doge;");
}
''',None)
