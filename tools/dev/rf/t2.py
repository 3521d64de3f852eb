import os; os.environ['MODS']='transform'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
S='ratel-transformer/src/scope.rs'; A='ratel-transformer/src/es2015/arrow.rs'; L='ratel-transformer/src/lib.rs'
rf('BUG refs',[(S,"self.current.get().declared_refs.insert(self.arena, *ident, ());","let mut s = self.current.get(); while let (ScopeKind::Block, Some(p)) = (s.kind, s.parent) { s = p; } s.declared_refs.insert(self.arena, *ident, ());")])
rf('BUG ret',[(A,"value: Some(expr)","value: None")])
rf('BUG gen',[(A,"generator: false","generator: true")])
rf('BUG set',[(L,"        ptr.set(new);","        if ptr.start != ptr.end { ptr.set(new); }")])
rf('BUG set2',[(L,"            end: ptr.end,\n            item: item.into()","            end: ptr.start,\n            item: item.into()")])
rf('BUG kind',[(S,"Scope::new(kind, Some(self.current.get()))","Scope::new(kind, self.current.get().parent)")])
