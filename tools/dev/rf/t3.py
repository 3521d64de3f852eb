import os; os.environ['MODS']='transform'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
S='ratel-transformer/src/scope.rs'; A='ratel-transformer/src/es2015/arrow.rs'; L='ratel-transformer/src/lib.rs'
rf('BUG refs',[(S,"self.current.get().declared_refs.insert(self.arena, *ident, ());","let mut s = self.current.get(); while let (ScopeKind::Block, Some(p)) = (s.kind, s.parent) { s = p; } s.declared_refs.insert(self.arena, *ident, ());")])
