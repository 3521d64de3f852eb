"""Traversal: every Visitable implementation against the children, hooks, parents and scopes of its node."""
import re, time
from engine import Engine, State, Split, Prune, Unmodelled, EngineLimit
from codegen import CG, TypeWalk, SpecError, CUT, Opt, Var, Each

S = 'self'


def H(name): return ('H', name)
def V(p, ty='Expression'): return ('V', p, ty)
def U(p): return ('U', p)
def D(p): return ('D', p)
def vs(p, ty): return Each(p, (('V', '%', ty),))
def stmts(p): return (('SL', p), vs(p, 'Statement'))
def scope(kind, *items): return ('scope', kind, tuple(items))


def func(p, name):
    out = []
    if name:
        out.append(D(p + '.name'))
    return tuple(out) + (scope('Function', vs(p + '.params', 'Pattern'), *stmts(p + '.body.body')),)


def klass(p, name):
    out = [D(p + '.name')] if name else []
    return tuple(out) + (Opt(p + '.extends', (V(p + '.extends'),)), vs(p + '.body.body', 'ClassMember'))


HOOK = {'This': 'this_expression', 'Identifier': 'identifier_expression', 'Literal': 'literal_expression', 'Sequence': 'sequence_expression', 'Array': 'array_expression',
        'Member': 'member_expression', 'ComputedMember': 'computed_member_expression', 'MetaProperty': 'meta_property', 'Call': 'call_expression',
        'Binary': 'binary_expression', 'Prefix': 'prefix_expression', 'Postfix': 'postfix_expression', 'Conditional': 'conditional_expression',
        'Template': 'template_literal', 'TaggedTemplate': 'tagged_template_expression', 'Spread': 'spread_expression', 'Arrow': 'arrow_expression',
        'Object': 'object_expression', 'Function': 'function_expression', 'Class': 'class_expression'}
SHOOK = {'Expression': 'expression_statement', 'Declaration': 'declaration_statement', 'Return': 'return_statement', 'Break': 'break_statement',
         'Continue': 'continue_statement', 'Throw': 'throw_statement', 'If': 'if_statement', 'While': 'while_statement', 'Do': 'do_statement', 'For': 'for_statement',
         'ForIn': 'for_in_statement', 'ForOf': 'for_of_statement', 'Try': 'try_statement', 'Block': 'block_statement', 'Labeled': 'labeled_statement',
         'Switch': 'switch_statement', 'Function': 'function_statement', 'Class': 'class_statement', 'Import': 'import_declaration_statement'}

EXPR = {
    'Void': (), 'This': (), 'Identifier': (U(S),), 'Literal': (),
    'Sequence': (vs(S + '.body', 'Expression'),),
    'Array': (vs(S + '.body', 'Expression'),),
    'Member': (V(S + '.object'),),
    'ComputedMember': (V(S + '.object'), V(S + '.property')),
    'MetaProperty': (),
    'Call': (V(S + '.callee'), vs(S + '.arguments', 'Expression')),
    'Binary': (V(S + '.left'), V(S + '.right')),
    'Prefix': (V(S + '.operand'),),
    'Postfix': (V(S + '.operand'),),
    'Conditional': (V(S + '.test'), V(S + '.consequent'), V(S + '.alternate')),
    'Template': (vs(S + '.expressions', 'Expression'),),
    'TaggedTemplate': (V(S + '.tag'), vs(S + '.quasi.expressions', 'Expression')),
    'Spread': (V(S + '.argument'),),
    'Arrow': (scope('Function', vs(S + '.params', 'Pattern'), Var(S + '.body', 'ArrowBody', 'Expression', (V(S + '.body'),), stmts(S + '.body.body'))),),
    'Object': (vs(S + '.body', 'Property'),),
    'Function': func(S, False),
    'Class': klass(S, False),
}
forinit = lambda p: Var(p, 'ForInit', 'Declaration', (vs(p + '.declarators', 'Declarator'),), (V(p),))
STMT = {
    'Empty': (), 'Debugger': (),
    'Expression': (V(S),),
    'Declaration': (vs(S + '.declarators', 'Declarator'),),
    'Return': (Opt(S + '.value', (V(S + '.value'),)),),
    'Break': (), 'Continue': (),
    'Throw': (V(S + '.value'),),
    'If': (V(S + '.test'), V(S + '.consequent', 'Statement'), Opt(S + '.alternate', (V(S + '.alternate', 'Statement'),))),
    'While': (V(S + '.test'), V(S + '.body', 'Statement')),
    'Do': (V(S + '.body', 'Statement'), V(S + '.test')),
    'For': (Opt(S + '.init', (forinit(S + '.init'),)), Opt(S + '.test', (V(S + '.test'),)), Opt(S + '.update', (V(S + '.update'),)), V(S + '.body', 'Statement')),
    'ForIn': (forinit(S + '.left'), V(S + '.right'), V(S + '.body', 'Statement')),
    'ForOf': (forinit(S + '.left'), V(S + '.right'), V(S + '.body', 'Statement')),
    'Try': (scope('Block', *stmts(S + '.block.body')),
            Opt(S + '.handler', (scope('Block', V(S + '.handler.param', 'Pattern'), *stmts(S + '.handler.body.body')),)),
            Opt(S + '.finalizer', (scope('Block', *stmts(S + '.finalizer.body')),))),
    'Labeled': (V(S + '.body', 'Statement'),),
    'Block': (scope('Block', *stmts(S + '.body')),),
    'Function': func(S, True),
    'Class': klass(S, True),
    'Switch': (V(S + '.discriminant'), scope('Block', vs(S + '.cases.body', 'SwitchCase'))),
    'Import': (vs(S + '.specifiers', 'ForImportSpecifier'),),
}
PATTERN = {
    'Void': (), 'Identifier': (D(S),),
    'ObjectPattern': (('binding', S + '.properties'),),
    'ArrayPattern': (vs(S + '.elements', 'Pattern'),),
    'RestElement': (D(S + '.argument'),),
    'AssignmentPattern': (V(S + '.left', 'Pattern'), V(S + '.right')),
}
PROPERTY = {
    'Shorthand': (U(S),),
    'Literal': (V(S + '.key', 'PropertyKey'), V(S + '.value')),
    'Method': (V(S + '.key', 'PropertyKey'),) + func(S + '.value', False),
    'Spread': (V(S + '.argument'),),
}
PROPERTYKEY = {'Computed': (V(S),), 'Literal': (), 'Binary': ()}
CLASSMEMBER = {
    'Method': (V(S + '.key', 'PropertyKey'),) + func(S + '.value', False),
    'Literal': (V(S + '.key', 'PropertyKey'), V(S + '.value')),
}
IMPORTSPEC = {'ImportSpecifier': (D(S + '.local'),), 'ImportDefaultSpecifier': (D(S + '.local'),), 'ImportNamespaceSpecifier': (D(S + '.local'),)}
SPECS = {'Expression': EXPR, 'Statement': STMT, 'Pattern': PATTERN, 'Property': PROPERTY, 'PropertyKey': PROPERTYKEY, 'ClassMember': CLASSMEMBER,
         'ForImportSpecifier': IMPORTSPEC, 'Declarator': (V(S + '.id', 'Pattern'), Opt(S + '.init', (V(S + '.init'),))),
         'SwitchCase': (Opt(S + '.test', (V(S + '.test'),)),) + stmts(S + '.consequent'), 'Module': stmts(S + '.body')}
CLASS = {'H': 'V01', 'V': 'V01', 'SL': 'V01', 'EN': 'V02', 'LV': 'V02', 'scope': 'V02', 'U': 'V03', 'D': 'V03', 'eachnext': 'V01', 'binding': 'V03'}
NAME = {'H': 'hook on_%s', 'V': 'visit of %s', 'SL': 'statement list %s', 'EN': 'entry of a %s scope', 'LV': 'exit of the scope', 'U': 'use of %s', 'D': 'declaration of %s',
        'scope': 'entry of a %s scope', 'eachnext': 'rest of %s', 'binding': 'declarations of %s', 'end': 'end of the node'}


def show(e):
    n = NAME[e[0]]
    return n % e[1] if '%' in n else n


class VI(CG):
    """dom = (remaining spec, stack of open parents and scopes)"""

    def __init__(self, prog, rootname, variant):
        CG.__init__(self, prog, rootname, variant, None)
        self.node = rootname in ('Expression', 'Statement')

    def key(self, st):
        return st.dom

    def bad(self, st, props, key, msg):
        self.report(st, (tuple(sorted(props)), self.label() + ': ' + key), self.label() + ': ' + msg)

    def bound(self, a):
        return a[1].rstrip('0123456789') if a and isinstance(a[1], str) else ''

    def call(self, st, fn, decl, args):
        if decl is None:
            return None
        if decl.startswith('ratel_visitor::Visitor::'):
            return self.hook(st, decl.rsplit('::', 1)[1], args)
        if decl == 'ratel_visitor::Visitable::visit_with':
            path, tid = self.target(st, args[0])
            if path is None or tid is None:
                return None
            sh = self.strip(tid)
            if sh in CUT and not (path == 'self' and sh == self.rootname):
                if self.node and not any(x[0] == 'P' for x in st.dom[1]):
                    self.bad(st, ['V02'], 'children met without their parent', 'a child (%s) is visited while the node is not on the stack of parents' % path)
                self.event(st, ('V', path, sh))
                return self.unit()
        return None

    def target(self, st, a):
        if a[0] == 'ref' and a[1][0] == 'S' and not a[2]:
            return a[1][1], a[1][2]
        if a[0] == 'sym':
            return a[1], self.eng.pointee(a[2])
        if a[0] == 'ref':
            x = self.eng.load(st, a[1], a[2])
            for _ in range(6):
                if x[0] == 'ref' and x[1][0] != 'S':
                    x = self.eng.load(st, x[1], x[2])
            if x[0] == 'ref':
                return x[1][1], x[1][2]
            if x[0] == 'sym':
                return x[1], x[2]
        return None, None

    def norm(self, p):
        # a name is the only field of its wrapper
        return p

    def hook(self, st, name, args):
        spec, stack = st.dom
        if name == 'push_parent':
            v = args[1]
            ok = None
            if v[0] == 'adt':
                ok = self.p.types[v[1]]['variants'][v[2]]['name']
                path, _ = self.target(st, v[3][0])
                if path is None:
                    raise Unmodelled('parent %r' % (v,))
                if not self.node or path != 'self' or ok != self.rootname:
                    self.bad(st, ['V02'], 'wrong parent', 'pushes %s %s as a parent instead of the node itself' % (ok, path))
            else:
                raise Unmodelled('parent %r' % (v,))
            if any(x[0] == 'P' for x in stack):
                self.bad(st, ['V02'], 'parent pushed twice', 'the node is pushed as a parent more than once')
            st.dom = (spec, stack + (('P',),))
            return self.unit()
        if name == 'pop_parent':
            if not stack or stack[-1] != ('P',):
                self.bad(st, ['V02'], 'unbalanced pop_parent', 'a parent is popped that this node has not pushed')
                raise Prune()
            st.dom = (spec, stack[:-1])
            return self.unit()
        if name == 'on_enter_scope':
            v = args[1]
            if v[0] != 'adt':
                raise Unmodelled('scope kind %r' % (v,))
            kind = self.p.types[v[1]]['variants'][v[2]]['name']
            self.event(st, ('EN', kind))
            st.dom = (st.dom[0], st.dom[1] + (('S', kind),))
            return self.unit()
        if name == 'on_leave_scope':
            if not stack or stack[-1][0] != 'S':
                self.bad(st, ['V02'], 'unbalanced on_leave_scope', 'a scope is left that this node has not entered')
                raise Prune()
            self.event(st, ('LV',))
            st.dom = (st.dom[0], st.dom[1][:-1])
            return self.unit()
        if name == 'on_statement_list':
            path = self.listpath(st, args[1])
            self.event(st, ('SL', path))
            return self.unit()
        if name in ('on_reference_use', 'on_reference_declaration'):
            path, tid = self.target(st, args[1])
            if path is None:
                raise Unmodelled('name %r' % (args[1],))
            self.event(st, ('U' if name.endswith('use') else 'D', path))
            return self.unit()
        if name.startswith('on_'):
            node, _ = self.target(st, args[-1])
            if node is None:
                raise Unmodelled('hook argument %r' % (args[-1],))
            if node != 'self':
                self.bad(st, ['V01'], 'hook on_%s gets another node' % name[3:], 'the hook is passed %s' % node)
            if len(args) == 3:
                item, _ = self.target(st, args[1])
                if item is not None and item != 'self':
                    self.bad(st, ['V01'], 'hook on_%s gets another item' % name[3:], 'the hook is passed %s' % item)
            if any(x[0] == 'P' for x in stack):
                self.bad(st, ['V02'], 'hook called with the node as its own parent', 'the hook runs after the node was pushed as a parent')
            self.event(st, ('H', name[3:]))
            return self.unit()
        return None

    def listpath(self, st, v):
        if v[0] in ('sym', 'top') and isinstance(v[1], str):
            return v[1]
        if v[0] == 'adt' and v[3]:
            for x in v[3]:
                p = self.listpath(st, x)
                if p:
                    return p
        if v[0] == 'ref':
            return self.target(st, v)[0]
        raise Unmodelled('list %r' % (v,))

    def event(self, st, ev):
        st.ev(show(ev))
        self.obl += 1
        spec, stack = st.dom
        while True:
            spec = self.settle(st, spec)
            if not spec:
                self.mismatch(st, ('end',), ev)
            h, rest = spec[0], spec[1:]
            if h[0] == 'scope':
                if ev[0] == 'EN':
                    if ev[1] != h[1]:
                        self.bad(st, ['V02'], 'opens a %s scope instead of a %s scope' % (ev[1], h[1]), 'opens a %s scope where a %s scope belongs' % (ev[1], h[1]))
                    st.dom = (h[2] + (('LV',),) + rest, stack)
                    return
                self.bad(st, ['V02'], 'opens no %s scope' % h[1], 'no %s scope is open when %s happens' % (h[1], show(ev)))
                spec = h[2] + rest
                continue
            if h[0] == 'binding':
                if ev[0] == 'V' and ev[1].startswith(h[1] + '[') and ev[2] == 'Property':
                    self.bad(st, ['V03'], 'properties visited as expressions', 'the names bound by an object pattern are reported as uses: its properties are visited as those of an object literal')
                    self.consumed(st, ev)
                    st.dom = (spec, stack)
                    return
                raise Unmodelled('object pattern traversal')
            if h[0] == 'eachnext':
                # neither the end of the list nor its next element is established
                nb = tuple(h[3]) + self.sub(h[2], h[1] + '[+]') + (('eachnext', h[1], h[2], h[3], 1),) + rest
                spec = nb
                continue
            if h[:2] == ev[:2] and (len(h) < 3 or h[2:] == ev[2:]):
                self.consumed(st, ev)
                st.dom = (rest, stack)
                return
            self.mismatch(st, h, ev)

    def consumed(self, st, ev):
        if len(ev) > 1 and ev[1].endswith(('[+]', '[0]')):
            st.facts.pop(('pend', ev[1][:-3]), None)

    def mismatch(self, st, h, ev):
        props = {CLASS.get(h[0]), CLASS.get(ev[0])} - {None}
        self.bad(st, props, '%s instead of %s' % (show(ev), show(h)), '%s where the traversal of the node demands %s' % (show(ev), show(h)))
        raise Prune()

    def settle(self, st, spec, atend=False):
        try:
            return CG.settle(self, st, spec, atend)
        except SpecError as e:
            self.bad(st, ['V01'], e.key, e.msg.replace('printed', 'visited').replace('printer', 'traversal'))
            raise Prune()

    def ret(self, st, val):
        spec, stack = st.dom
        if stack:
            k = 'parent' if stack[-1][0] == 'P' else 'scope'
            self.bad(st, ['V02'], '%s left open' % k, 'the node returns without %s' % ('popping itself from the parents' if k == 'parent' else 'leaving its scope'))
        while True:
            spec = self.settle(st, spec, True)
            while spec and spec[0][0] == 'binding':
                spec = spec[1:]
            if spec and spec[0][0] == 'scope':
                self.bad(st, ['V02'], 'opens no %s scope' % spec[0][1], 'no %s scope is opened' % spec[0][1])
                spec = spec[0][2] + spec[1:]
                continue
            break
        if spec:
            h = spec[0]
            self.bad(st, {CLASS.get(h[0], 'V01')}, 'end of the node instead of %s' % show(h), 'the traversal ends without %s' % show(h))

    def panic(self, st, what, where):
        if self.variant == 'Error':
            return
        self.bad(st, ['V01'], 'panics', 'visiting this node panics: %s' % what)

    def roots(self, st):
        return ()

    def deref(self, st, v):
        return None


def roots(prog):
    out = {}
    dom = CG(prog, None, None, None)
    dom.eng = Engine(prog, dom)
    for f in prog.find(r'visit_with::<harness::Probe>$'):
        if f.get('locals') and prog.types[f['locals'][1]]['k'] == 'ref':
            t = prog.types[f['locals'][1]]['elem']
            sh = dom.strip(t)
            if sh in SPECS:
                isnode = dom.eng.short(t) == 'Node'
                if sh not in out or isnode:
                    out[sh] = f
    return out


def jobs(prog):
    out, un = [], []
    rs = roots(prog)
    for ty, specs in SPECS.items():
        if ty not in rs:
            un.append('no traversal found for ' + ty)
            continue
        for var, spec in (specs.items() if isinstance(specs, dict) else [(None, specs)]):
            hk = {'Expression': HOOK, 'Statement': SHOOK}.get(ty, {}).get(var)
            out.append((rs[ty]['id'], ty, var, ((H(hk),) if hk else ()) + tuple(spec)))
    return out, un


def run_job(prog, job):
    fid, ty, var, spec = job
    f = prog.fns[fid]
    dom = VI(prog, ty, var)
    eng = Engine(prog, dom)
    st = State()
    stid = prog.types[f['locals'][1]]['elem']
    dom.tw = TypeWalk(prog, eng, stid)
    un = []
    if var is not None:
        tid = dom.tw.adt('self', ty)
        vi = [i for i, v in enumerate(prog.types[tid]['variants']) if v['name'] == var]
        if not vi:
            return {'label': dom.label(), 'un': ['%s has no variant %s' % (ty, var)]}
        st.facts[('self', tid)] = frozenset(vi)
    st.dom = (spec, ())
    vr = st.alloc(('top', prog.types[f['locals'][2]]['elem']))
    dom.roots = lambda s: (vr,)
    try:
        eng.push_call(st, fid, [('ref', ('S', 'self', stid), ()), ('ref', vr, ())], None, None)
        eng.run(st)
    except (Unmodelled, EngineLimit) as e:
        un.append('%s: %s' % (dom.label(), e))
    for u in eng.unmodelled:
        un.append('%s: unmodelled %s' % (dom.label(), u))
    return {'label': dom.label(), 'un': un, 'viol': dom.violations, 'fns': eng.fns_seen, 'obl': dom.obl, 'states': eng.nstates}


def run_all(prog):
    import par as P
    js, un = jobs(prog)
    res = {'violations': {}, 'unanalysed': un, 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}
    for r in P.pmap(lambda j: run_job(prog, j), js):
        res['unanalysed'] += r['un']
        res['labels'].append(r['label'])
        if 'viol' not in r:
            continue
        res['violations'].update(r['viol'])
        res['functions'] |= r['fns']
        res['obligations'] += r['obl']
        res['states'] += r['states']
        res['roots'] += 1
    return res


if __name__ == '__main__':
    import facts
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'], '|', ' ; '.join(v['trace'][-8:]))
    for u in r['unanalysed']:
        print('UNAN', u[:200])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), time.time() - t)
