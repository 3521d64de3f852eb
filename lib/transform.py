"""Scope analysis and the ES2015 transform.

Every hook of the two visitors is run once on an abstract world (the current scope and its
parent; an arrow function and the place in the tree that holds it) and the effects on that
world are compared with the specification: what is written where, what is attached where,
and that nothing else is touched.
"""
import re
from engine import Engine, State, Domain, Prune, Unmodelled, EngineLimit
from codegen import CG, TypeWalk, CUT
from visitor import VI


class Small(Domain):
    def __init__(self, prog, prop, name):
        Domain.__init__(self)
        self.p = prog
        self.prop = prop
        self.name = name
        self.obl = 0
        self.keep = []

    def roots(self, st): return tuple(self.keep)
    def drop(self, st, t): return None

    def bad(self, st, key, msg):
        self.report(st, ((self.prop,), '%s: %s' % (self.name, key)), '%s: %s' % (self.name, msg))

    def key(self, st): return st.dom

    def event(self, st, *e):
        e = tuple(re.sub(r'parent(\.parent)+', 'an outer scope', x) if isinstance(x, str) else x for x in e)
        st.dom = st.dom + (e,)
        st.ev(' '.join(str(x) for x in e)[:100])
        if len(st.dom) > 12:
            raise Prune()

    def tid(self, rx):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and re.search(rx, t.get('str', '') or ''):
                return i
        raise Unmodelled('no type ' + rx)

    def adt(self, tid, **kw):
        fs = self.p.types[tid]['variants'][0]['fields']
        return ('adt', tid, 0, tuple(kw[n] if n in kw else ('sym', '?' + n, t) for n, t in fs))

    # ---- reading values back
    def show(self, st, v, depth=0):
        """a value as a term over the symbols of the world"""
        k = v[0]
        if depth > 60:
            return '...'
        if k == 'ref':
            if v[1][0] == 'S':
                return v[1][1]
            if v[1] in self.named:
                return self.named[v[1]]
            return self.show(st, self.eng.load(st, v[1], v[2]), depth + 1)
        if k == 'i':
            return v[1]
        if k in ('sym', 'symv'):
            return v[1]
        if k == 'adt':
            ty = self.p.types[v[1]]
            var = ty['variants'][v[2]]
            fs = [self.show(st, x, depth + 1) for x in v[3]]
            short = self.eng.short(v[1])
            if short in ('CopyCell', 'Node', 'UnsafeCell', 'Cell') or (len(ty['variants']) == 1 and len(fs) == 1 and var['fields'][0][0] == '0'):
                return fs[0]
            names = [f[0] for f in var['fields']]
            nm = short if len(ty['variants']) == 1 else '%s.%s' % (short, var['name'])
            if names == ['0']:
                return (nm, fs[0])
            return (nm,) + tuple(zip(names, fs))
        if k == 'tup':
            return tuple(self.show(st, x, depth + 1) for x in v[1])
        if k == 'list':
            return ('list',) + tuple(self.show(st, x, depth + 1) for x in v[1])
        return k

    def call(self, st, fn, decl, args):
        n = fn['name']
        if re.search(r'toolshed::(arena::)?Arena::alloc(::<|$)', n):
            return [(None, ('ref', st.alloc(args[1]), ()))]
        if re.search(r'toolshed::list::(List|GrowableList|ListBuilder)::', n):
            m = re.sub(r'::<[^:]*>$', '', n).rsplit('::', 1)[1]
            if m in ('new', 'empty') and len(args) <= 1:
                return [(None, ('list', ()))]
            if m == 'from':
                return [(None, ('list', (args[1],)))]
            if m == 'new':
                return [(None, ('list', (args[1],)))]
            if m == 'as_list' and args[0][0] == 'ref':
                return [(None, self.eng.load(st, args[0][1], args[0][2]))]
            if m == 'push' and args[0][0] == 'ref':
                v = self.eng.load(st, args[0][1], args[0][2])
                if v[0] == 'list':
                    self.eng.store(st, args[0][1], args[0][2], ('list', v[1] + (args[2],)))
                    return [(None, ('tup', ()))]
                if v[0] == 'sym':
                    self.event(st, 'push', v[1], self.show(st, args[2]))
                    return [(None, ('tup', ()))]
            if m in ('iter', 'into_iter', 'is_empty', 'as_list'):
                v = args[0]
                while v[0] == 'ref' and v[1][0] != 'S':
                    v = self.eng.load(st, v[1], v[2])
                if v[0] == 'ref':
                    v = ('sym', v[1][1] + ''.join('.%s' % x[-1] for x in v[2]), None)
                if v[0] == 'list' and m == 'is_empty':
                    return [(None, ('i', int(not v[1])))]
                if v[0] == 'sym' and m == 'is_empty':
                    key = ('empty list', v[1])
                    return [(lambda c, x=x: c.facts.__setitem__(key, frozenset((x,))), ('i', x)) for x in sorted(st.facts.get(key, (0, 1)))]
                if v[0] == 'sym':
                    return [(None, ('sym', v[1], None))]
            return None
        if re.search(r'Iterator(>)?::count(::<|$)', n) and args[0][0] == 'sym':
            return [(None, ('sym', args[0][1] + '#count', None))]
        if re.search(r'toolshed::map::BloomMap::', n):
            m = re.sub(r'::<[^:]*>$', '', n).rsplit('::', 1)[1]
            if m in ('contains_key', 'is_empty'):
                return [(None, ('i', 0)), (None, ('i', 1))]
            if m == 'new':
                return [(None, ('sym', 'empty map', fn['locals'][0]))]
            if m == 'insert' and args[0][0] == 'ref':
                v = self.eng.load(st, args[0][1], args[0][2])
                if v[0] == 'sym':
                    self.event(st, 'insert', v[1], self.show(st, args[2]))
                    return [(None, ('top', fn['locals'][0]))]
            return None
        return None

    def unknown_store(self, st, root, proj, v):
        if root[0] in ('S', 'G'):
            self.event(st, 'set', root[1], v)

    def panic(self, st, what, where):
        self.bad(st, 'panics', 'may panic: %s' % what)


class SC(Small):
    """one hook of the scope analyzer"""

    def __init__(self, prog, name):
        Small.__init__(self, prog, 'T01', name)
        self.named = {}

    def world(self, st, root=False):
        self.SC = self.tid(r'^ratel_transformer::scope::Scope<')
        self.SA = self.tid(r'^ratel_transformer::scope::ScopeAnalyzer<')
        fs = dict(self.p.types[self.SC]['variants'][0]['fields'])
        ft = dict(self.p.types[self.SA]['variants'][0]['fields'])
        opt = fs['parent']
        reft = self.p.types[opt]['variants'][1]['fields'][0][1]

        def cell(t, v): return ('adt', t, 0, (v,))

        def scope(n, parent):
            d = {}
            for f, t in fs.items():
                if f in ('used_this', 'used_super'):
                    d[f] = cell(t, ('sym', '%s.%s' % (n, f), self.p.types[t]['variants'][0]['fields'][0][1]))
                elif f == 'parent':
                    d[f] = parent
                else:
                    d[f] = ('sym', '%s.%s' % (n, f), t)
            return self.adt(self.SC, **d)
        names = [v['name'] for v in self.p.types[opt]['variants']]
        self.outer = st.alloc(scope('parent', ('sym', 'parent.parent', opt)))
        self.cur = st.alloc(scope('current', ('adt', opt, names.index('Some'), (('ref', self.outer, ()),)) if not root else ('adt', opt, names.index('None'), ())))
        self.self_ = st.alloc(self.adt(self.SA, arena=('sym', 'arena', ft['arena']), current=cell(ft['current'], ('ref', self.cur, ()))))
        self.keep = [self.outer, self.cur, self.self_]
        self.named = {self.outer: 'parent', self.cur: 'current'}
        self.before = self.snap(st)

    def snap(self, st):
        out = {}
        for n, r in (('parent', self.outer), ('current', self.cur)):
            v = st.heap[r]
            for (f, t), x in zip(self.p.types[self.SC]['variants'][0]['fields'], v[3]):
                out['%s.%s' % (n, f)] = self.show(st, x)
        v = st.heap[self.self_]
        for (f, t), x in zip(self.p.types[self.SA]['variants'][0]['fields'], v[3]):
            out['self.%s' % f] = self.show(st, x)
        return out

    def fresh(self, kind, parent):
        return {'kind': kind, 'parent': parent, 'used_this': 0, 'used_super': 0, 'used_refs': 'empty map', 'declared_refs': 'empty map', 'children': ('list',)}

    def isscope(self, st, v, want):
        """value is a new scope with these fields: differences"""
        if v[0] == 'adt':
            v = v[3][0]
        if v[0] != 'ref' or v[1] in self.named or v[1][0] != 'H':
            return ['the current scope is %s' % (self.show(st, v),)]
        a = st.heap[v[1]]
        if a[0] != 'adt' or a[1] != self.SC:
            return ['the current scope is %s' % (self.show(st, a),)]
        out = []
        for (f, t), x in zip(self.p.types[self.SC]['variants'][0]['fields'], a[3]):
            g = self.show(st, x)
            if f == 'kind' and want[f] in ('Function', 'Block') and isinstance(g, tuple):
                g = g[0].rsplit('.', 1)[-1]
            if f == 'parent' and isinstance(g, tuple):
                g = g[1] if g[0] == 'Option.Some' else None
            if f in want and g != want[f]:
                out.append('%s of the new scope is %s' % (f, g))
        return out

    def changes(self, st):
        a = self.snap(st)
        return {k: a[k] for k in a if a[k] != self.before[k]}

    def ret(self, st, val):
        self.obl += 1
        ch = self.changes(st) if self.before is not None else {}
        ev = list(st.dom)
        hook = self.name
        if hook in ('new', 'analyze'):
            v = self.eng.load(st, val[1], val[2]) if val[0] == 'ref' and hook == 'new' else val
            if hook == 'new':
                fs = dict(zip([f[0] for f in self.p.types[v[1]]['variants'][0]['fields']], v[3]))
                for d in self.isscope(st, fs['current'], self.fresh('Function', None)):
                    self.bad(st, d[:60], d)
            else:
                if [e[0] for e in ev] != ['visit']:
                    self.bad(st, 'visits %d times' % len(ev), 'the module is visited %d times' % len(ev))
                elif val[0] != 'ref' or ev[0][1] != val[1]:
                    self.bad(st, 'returns another scope', 'the scope returned is not the current one of the visitor')
            return
        if hook == 'on_enter_scope':
            cur = dict(zip([f[0] for f in self.p.types[self.SA]['variants'][0]['fields']], st.heap[self.self_][3]))['current']
            for d in self.isscope(st, cur, self.fresh('kind', 'current')):
                self.bad(st, d[:60], d)
            ch.pop('self.current', None)
            want = []
        elif hook == 'on_leave_scope':
            want = [('push', 'parent.children', 'current')]
            if ch.get('self.current') != 'parent':
                self.bad(st, 'current is %s' % (ch.get('self.current', 'unchanged'),), 'the scope left is not followed by its parent')
            ch.pop('self.current', None)
        elif hook == 'on_reference_use':
            want = [('insert', 'current.used_refs', 'name')]
        elif hook == 'on_reference_declaration':
            want = [('insert', 'current.declared_refs', 'name')]
        elif hook == 'on_this_expression':
            want = []
            if ch.get('current.used_this') != 1:
                self.bad(st, 'not marked', 'the use of `this` is not recorded in the current scope')
            ch.pop('current.used_this', None)
        else:
            want = []
        ch.pop('current.used_super', None) if hook == 'on_super' else None
        for e in ev:
            if e in want:
                want.remove(e)
            else:
                self.bad(st, 'also %s %s' % (e[0], e[1]), 'unexpected effect: %s %s' % (e[0], e[1]))
        for w in want:
            self.bad(st, 'no %s %s' % (w[0], w[1]), 'missing: %s' % ' '.join(w))
        for k, v in ch.items():
            self.bad(st, 'changes %s' % k, '%s becomes %s' % (k, v))

    def call(self, st, fn, decl, args):
        n = fn['name']
        if re.search(r'::visit_with::<ratel_transformer::scope::ScopeAnalyzer<', n) and self.name == 'analyze':
            v = args[1]
            v = self.eng.load(st, v[1], v[2])
            cur = dict(zip([f[0] for f in self.p.types[v[1]]['variants'][0]['fields']], v[3]))['current']
            if cur[0] == 'adt':
                cur = cur[3][0]
            self.event(st, 'visit', cur[1])
            return [(None, ('tup', ()))]
        return Small.call(self, st, fn, decl, args)


ARROW = {
    'block': 'arrow.body',
    'expr': ('Loc', ('start', 'arrow.body.start'), ('end', 'arrow.body.end'),
             ('item', ('Block', ('body', ('list', ('Loc', ('start', 'arrow.body.start'), ('end', 'arrow.body.end'),
                                                   ('item', ('Statement.Return', ('ReturnStatement', ('value', ('Option.Some', 'arrow.body')))))))))))}


def parts(v, path=''):
    """flattened leaves of a term"""
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        out = {path: v[0]}
        for i, x in enumerate(v[1:]):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0].islower() and not x[0].startswith(('list', 'arrow', 'ptr')):
                out.update(parts(x[1], path + '.' + x[0]))
            else:
                out.update(parts(x, path + '.%d' % i))
        return out
    return {path: v}


class TA(Small):
    """one hook of the arrow transform"""

    def __init__(self, prog, name):
        Small.__init__(self, prog, 'T02', name)
        self.named = {}

    def ret(self, st, val):
        self.obl += 1
        ev = list(st.dom)
        if self.name == 'transform':
            if [e[0] for e in ev] != ['visit']:
                self.bad(st, 'visits %d times' % len(ev), 'the module is visited %d times by the transform' % len(ev))
            elif ev[0][1] != 'module':
                self.bad(st, 'visits %s' % ev[0][1], 'another tree than the module is visited')
            return
        if self.name != 'on_arrow_expression':
            for e in ev:
                self.bad(st, 'sets %s' % e[1], 'changes the tree at %s' % e[1])
            return
        if len(ev) != 1 or ev[0][:2] != ('set', 'ptr'):
            self.bad(st, 'sets %s' % ', '.join(e[1] for e in ev), 'the place that holds the arrow function is set %d times' % len([e for e in ev if e[1] == 'ptr']))
            return
        got = self.show(st, ev[0][2])
        tid = self.bodyt
        f = st.facts.get(('arrow.body', tid))
        vs = self.p.types[tid]['variants']
        which = {vs[i]['name'] for i in (f or range(len(vs)))}
        if len(which) != 1:
            self.bad(st, 'body not looked at', 'the kind of body of the arrow function is not looked at')
            return
        b = ARROW['block' if which == {'Block'} else 'expr']
        want = ('Loc', ('start', 'ptr.start'), ('end', 'ptr.end'), ('item', ('Expression.Function', ('Function', ('name', ('Option.None',)), ('generator', 0), ('params', 'arrow.params'), ('body', b)))))
        g, w = parts(got), parts(want)
        for k in sorted(set(g) | set(w)):
            if g.get(k) != w.get(k) and not k.endswith(('.start', '.end')) and not k.count('.start'):
                self.bad(st, '%s body: %s is %s' % (next(iter(which)), k, g.get(k)), 'the new function has %s at %s instead of %s' % (g.get(k, 'nothing'), k, w.get(k, 'nothing')))
        for k in ('.start', '.end'):
            if g.get(k) != w.get(k):
                self.bad(st, 'position%s is %s' % (k, g.get(k)), 'the new function is recorded with another position than the arrow function')

    def call(self, st, fn, decl, args):
        n = fn['name']
        if self.name == 'transform' and re.search(r'::visit_with::<ratel_transformer::', n):
            v = args[0]
            self.event(st, 'visit', v[1][1] if v[0] == 'ref' and v[1][0] == 'S' else self.show(st, v))
            return [(None, ('tup', ()))]
        return Small.call(self, st, fn, decl, args)


class TV(VI):
    """The traversal of an arrow function by the transform: the hook replaces what the node
    holds by a function, whose body is a new place for the body expression. What lies below has
    to be reached through the new function: a visit of the old body replaces arrow functions in
    a tree nobody holds any more."""

    def key(self, st): return st.dom

    def bad(self, st, key, msg):
        self.report(st, (('T02',), 'traversal of an arrow function: ' + key), 'traversal of an arrow function: ' + msg)

    def call(self, st, fn, decl, args):
        if decl is None:
            return None
        if decl.startswith('ratel_visitor::Visitor::'):
            name = decl.rsplit('::', 1)[1]
            if name == 'on_arrow_expression' and not st.dom[0]:
                st.facts = {k: v for k, v in st.facts.items() if not (isinstance(k, tuple) and k[0] == 'self')}
                tid = self.tw.adt('self', 'Expression')
                i = [v['name'] for v in self.p.types[tid]['variants']].index('Function')
                st.facts[('self', tid)] = frozenset([i])
                st.dom = (True, st.dom[1])
                st.ev('hook')
            return self.unit()
        if decl == 'ratel_visitor::Visitable::visit_with':
            path, tid = self.target(st, args[0])
            if path is None or tid is None:
                return None
            sh = self.strip(tid)
            if sh in CUT and st.dom[0]:
                self.obl += 1
                st.ev('visit of ' + path)
                st.dom = (True, st.dom[1] | {(re.sub(r'\[.*$', '', path), sh)})
                return self.unit()
            if sh in CUT and not (path == 'self' and sh == 'Expression'):
                return self.unit()
        return None

    def ret(self, st, val):
        self.obl += 1
        done, seen = st.dom
        if not done:
            self.bad(st, 'hook not called', 'the transform is not told of the arrow function')
            return
        if ('self.body', 'Expression') in seen:
            self.bad(st, 'old body visited', 'after the arrow function was replaced the traversal goes on in the old body: an arrow function found there stays in the new tree')
        elif ('self', 'Expression') not in seen and ('self.body.body', 'Statement') not in seen and not st.facts.get(('skip', 'self.body.body')) and not st.facts.get(('end', 'self.body.body')):
            pass
        else:
            self.covered = True

    def panic(self, st, what, where):
        self.bad(st, 'panics', 'may panic: %s' % what)


def run_traversal(prog, fid):
    f = prog.fns[fid]
    dom = TV(prog, 'Expression', 'Arrow')
    eng = Engine(prog, dom)
    st = State()
    stid = prog.types[f['locals'][1]]['elem']
    dom.tw = TypeWalk(prog, eng, stid)
    un = []
    tid = dom.tw.adt('self', 'Expression')
    st.facts[('self', tid)] = frozenset(i for i, v in enumerate(prog.types[tid]['variants']) if v['name'] == 'Arrow')
    st.dom = (False, frozenset())
    vr = st.alloc(('top', prog.types[f['locals'][2]]['elem']))
    dom.roots = lambda s: (vr,)
    dom.covered = False
    try:
        eng.push_call(st, fid, [('ref', ('S', 'self', stid), ()), ('ref', vr, ())], None, None)
        eng.run(st)
    except (Unmodelled, EngineLimit) as e:
        un.append('traversal of an arrow function: %s' % e)
    un += ['traversal of an arrow function: unmodelled %s' % u for u in eng.unmodelled]
    if not dom.covered and not un and not dom.violations:
        dom.bad(st, 'new function not visited', 'after the arrow function was replaced nothing below it is visited')
    return {'label': 'traversal of an arrow function', 'viol': dom.violations, 'un': un, 'obl': dom.obl, 'states': eng.nstates, 'fns': {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}}


def run_hook(prog, job):
    kind, hook, fid = job[:3]
    f = prog.fns[fid]
    dom = SC(prog, hook) if kind == 'scope' else TA(prog, hook)
    un = []
    st = State()
    st.dom = ()
    label = '%s %s%s' % ('scope analysis' if kind == 'scope' else 'transform', hook, ' in the root scope' if len(job) > 3 else '')
    eng = None
    try:
        eng = Engine(prog, dom, max_states=300)
        eng.bfs = True
        args = []
        ls = f['locals'][1:f['argc'] + 1]
        if kind == 'scope':
            dom.before = None
            if hook in ('new', 'analyze'):
                dom.SC = dom.tid(r'^ratel_transformer::scope::Scope<')
                args = [('sym', 'arena' if hook == 'new' else 'module', ls[0])]
                if prog.types[ls[0]]['k'] == 'ref':
                    args = [('ref', ('S', 'arena' if hook == 'new' else 'module', prog.types[ls[0]]['elem']), ())]
            else:
                dom.world(st, len(job) > 3)
                args = [('ref', dom.self_, ())]
                for i, t in enumerate(ls[1:]):
                    nm = {'on_enter_scope': 'kind', 'on_reference_use': 'name', 'on_reference_declaration': 'name'}.get(hook, 'a%d' % i)
                    args.append(('ref', ('S', nm, prog.types[t]['elem']), ()) if prog.types[t]['k'] == 'ref' else ('sym', nm, t))
        else:
            if hook == 'transform':
                args = [('ref', ('S', 'module', prog.types[ls[0]]['elem']), ())]
            else:
                names = ['self', 'arrow', 'ptr'] if hook == 'on_arrow_expression' else ['self'] + ['a%d' % i for i in range(9)]
                for nm, t in zip(names, ls):
                    args.append(('ref', ('S', nm, prog.types[t]['elem']), ()) if prog.types[t]['k'] == 'ref' else ('sym', nm, t))
                if hook == 'on_arrow_expression':
                    dom.bodyt = dict(prog.types[prog.types[ls[1]]['elem']]['variants'][0]['fields'])['body']
        eng.push_call(st, fid, args, None, None)
        eng.run(st)
        un = ['%s: unmodelled %s' % (label, u) for u in eng.unmodelled]
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (label, e)]
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        un = ['%s: construct outside of the analysis (%s: %s)' % (label, type(e).__name__, e)]
    return {'label': label, 'viol': dom.violations, 'un': un, 'obl': dom.obl, 'states': eng.nstates, 'fns': {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}}


def run_all(prog, kind):
    jobs = []
    ty = r'ratel_transformer::scope::ScopeAnalyzer' if kind == 'scope' else r'ratel_transformer::es2015::arrow::TransformArrow'
    for f in prog.find(r"^<%s<'_> as ratel_visitor::Visitor<'_>>::\w+$" % ty):
        h = f['name'].rsplit('::', 1)[1]
        jobs.append((kind, h, f['id']))
        if kind == 'scope' and h != 'on_leave_scope':
            jobs.append((kind, h, f['id'], 'root'))         # the current scope has no parent
    more = [('new', r"^ratel_transformer::scope::ScopeAnalyzer::<'_>::new$"), ('analyze', r'^ratel_transformer::scope::analyze(::<.*>)?$')] if kind == 'scope' \
        else [('transform', r'^ratel_transformer::transform(::<.*>)?$')]
    for h, rx in more:
        for f in prog.find(rx):
            jobs.append((kind, h, f['id']))
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}
    hooks = set()
    if kind != 'scope':
        dom = CG(prog, None, None, None)
        dom.eng = Engine(prog, dom)
        for f in prog.find(r'::visit_with::<ratel_transformer::es2015::arrow::TransformArrow'):
            t = f.get('locals') and prog.types[f['locals'][1]]
            if t and t['k'] == 'ref' and dom.eng.short(t['elem']) == 'Node' and dom.strip(t['elem']) == 'Expression':
                jobs.append((kind, 'traversal', f['id']))
    for j in jobs:
        r = run_hook(prog, j) if j[1] != 'traversal' else run_traversal(prog, j[2])
        hooks.add(j[1])
        res['violations'].update(r['viol'])
        res['unanalysed'] += r['un']
        res['functions'] |= r['fns']
        res['obligations'] += r['obl']
        res['states'] += r['states']
        res['roots'] += 1
        res['labels'].append(r['label'])
    res['hooks'] = hooks
    return res


if __name__ == '__main__':
    import facts
    from engine import Prog
    p = Prog(facts.extract('harness'))
    for k in ('scope', 'transform'):
        r = run_all(p, k)
        for x, v in sorted(r['violations'].items()):
            print('VIOL', x, '|', v['msg'][:300])
        for u in r['unanalysed']:
            print('UNAN', u[:250])
        print(k, r['roots'], r['obligations'], r['states'], len(r['functions']))
