import os; os.environ['MODS']='visitor transform'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
E='ratel-visitor/src/expression.rs'; S='ratel-visitor/src/statement.rs'; F='ratel-visitor/src/function.rs'; L='ratel-visitor/src/lib.rs'
rf('OK early return helper',[(S,"""        match self.item {
            Empty => { 
                // EmptyStatement doesn't have children, we return early to avoid calling pop_parent
                return;
            },
            Debugger => {
                return;
            },""","""        if let Empty | Debugger = self.item {
            return;
        }

        match self.item {
            Empty | Debugger => unreachable!(),""")])
rf('OK push moved',[(S,"""            If(ref if_statement) => {
                visitor.on_if_statement(if_statement, self);
                visitor.push_parent(ParentNode::from(self));
                if_statement.visit_with(visitor);
            },""","""            If(ref if_statement) => {
                visitor.on_if_statement(if_statement, self);
                visitor.push_parent(ParentNode::from(self));
                if_statement.test.visit_with(visitor);
                if_statement.consequent.visit_with(visitor);
                if let Some(ref alternate) = if_statement.alternate {
                    alternate.visit_with(visitor);
                }
            },""")])
rf('OK helper fn with closure',[(S,"""impl<'ast> Visitable<'ast> for BlockStatement<'ast> {
    type Parent = StatementNode<'ast>;

    #[inline]
    fn visit_with<V>(&'ast self, visitor: &mut V)
    where
        V: Visitor<'ast>,
    {
        visitor.on_enter_scope(ScopeKind::Block);
        self.body.visit_with(visitor);
        visitor.on_leave_scope();
    }""","""fn in_scope<'ast, V, F>(visitor: &mut V, kind: ScopeKind, f: F)
where
    V: Visitor<'ast>,
    F: FnOnce(&mut V),
{
    visitor.on_enter_scope(kind);
    f(visitor);
    visitor.on_leave_scope();
}

impl<'ast> Visitable<'ast> for BlockStatement<'ast> {
    type Parent = StatementNode<'ast>;

    #[inline]
    fn visit_with<V>(&'ast self, visitor: &mut V)
    where
        V: Visitor<'ast>,
    {
        in_scope(visitor, ScopeKind::Block, |v| self.body.visit_with(v));
    }"""),(S,"""        visitor.on_enter_scope(ScopeKind::Block);
        self.param.visit_with(visitor);
        self.body.body.visit_with(visitor);
        visitor.on_leave_scope();""","""        in_scope(visitor, ScopeKind::Block, |visitor| {
            self.param.visit_with(visitor);
            self.body.body.visit_with(visitor);
        });"""),(S,"""        visitor.on_enter_scope(ScopeKind::Block);
        self.cases.body.visit_with(visitor);
        visitor.on_leave_scope();""","""        in_scope(visitor, ScopeKind::Block, |visitor| {
            for case in self.cases.body.iter() {
                case.visit_with(visitor);
            }
        });""")])
rf('OK for in shares',[(S,"""        self.left.visit_with(visitor);
        self.right.visit_with(visitor);
        self.body.visit_with(visitor);
    }
}

impl<'ast> Visitable<'ast> for ForOfStatement""","""        let (left, right, body) = (&self.left, &self.right, &self.body);
        left.visit_with(visitor);
        right.visit_with(visitor);
        body.visit_with(visitor)
    }
}

impl<'ast> Visitable<'ast> for ForOfStatement""")])
rf('OK list visit',[(L,"for","for")])
rf('OK class member or-pattern',[(F,"""            Method {
                ref key,
                ref value,
                ..
            } => {
                key.visit_with(visitor);
                value.visit_with(visitor);
            },
            Literal {
                ref key,
                ref value,
                ..
            } => {
                key.visit_with(visitor);
                value.visit_with(visitor);
            },""","""            Method { ref key, .. } | Literal { ref key, .. } => key.visit_with(visitor),
        }

        match *self {
            Error => unreachable!(),
            Method { ref value, .. } => value.visit_with(visitor),
            Literal { ref value, .. } => value.visit_with(visitor),""")])
rf('OK import match bind',[(S,"""        match *self {
            ForImportSpecifier::ImportSpecifier(ref spec) => spec.visit_with(visitor),
            ForImportSpecifier::ImportDefaultSpecifier(ref spec) => spec.visit_with(visitor),
            ForImportSpecifier::ImportNamespaceSpecifier(ref spec) => spec.visit_with(visitor),
        }""","""        let local = match *self {
            ForImportSpecifier::ImportSpecifier(ref spec) => &spec.local,
            ForImportSpecifier::ImportDefaultSpecifier(ref spec) => &spec.local,
            ForImportSpecifier::ImportNamespaceSpecifier(ref spec) => &spec.local,
        };
        visitor.on_reference_declaration(&local.item);""")])
rf('OK import manual loop',[(S,"""        self.specifiers.visit_with(visitor);""","""        let mut specifiers = self.specifiers.iter();
        while let Some(specifier) = specifiers.next() {
            specifier.visit_with(visitor);
        }""")])
rf('OK for_each',[(S,"""        self.specifiers.visit_with(visitor);""","""        self.specifiers.iter().for_each(|s| s.visit_with(visitor));""")])
rf('OK function helper',[(F,"""        visitor.on_enter_scope(ScopeKind::Function);
        self.params.visit_with(visitor);
        self.body.body.visit_with(visitor);
        visitor.on_leave_scope();
    }
}
""","""        visit_body(self, visitor);
    }
}

fn visit_body<'ast, N: Name<'ast>, V: Visitor<'ast>>(function: &'ast Function<'ast, N>, visitor: &mut V) {
    visitor.on_enter_scope(ScopeKind::Function);
    for param in function.params.iter() {
        param.visit_with(visitor);
    }
    for statement in function.body.body.iter() {
        statement.visit_with(visitor);
    }
    visitor.on_leave_scope();
}
""")])
rf('BUG for order',[(S,"""        self.test.visit_with(visitor);
        self.update.visit_with(visitor);
        self.body.visit_with(visitor);""","""        self.test.visit_with(visitor);
        self.body.visit_with(visitor);
        self.update.visit_with(visitor);""")])
rf('BUG for_each skip',[(S,"""        self.specifiers.visit_with(visitor);""","""        self.specifiers.iter().skip(1).for_each(|s| s.visit_with(visitor));""")])
rf('BUG one default',[(S,"""        self.cases.body.visit_with(visitor);
        visitor.on_leave_scope();""","""        for case in self.cases.body.iter() {
            if case.test.is_none() { case.consequent.visit_with(visitor); break; }
            case.visit_with(visitor);
        }
        visitor.on_leave_scope();""")])
