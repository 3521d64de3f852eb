"""Errors and scopes as values: `==` and the debug output of the two types that users get besides trees."""
import re
from engine import Engine, State, Split, Unmodelled, EngineLimit
from structure import EqDom, ShowDom, typename


class Numbers:
    """sums and differences of the positions, and lengths of the text: ('lin', ((what, factor), ...), constant)"""
    def lin(self, st, v):
        if v[0] == 'i':
            return {}, v[1]
        if v[0] == 'lin':
            return dict(v[1]), v[2]
        if v[0] == 'lenof':
            return {v[1] + ' length': 1}, 0
        if v[0] == 'sym' and isinstance(v[1], str) and self.p.types[v[2]]['k'] in ('int', 'uint'):
            return {v[1]: 1}, 0
        return None

    def texts(self, st, fn, args):
        n = fn['name']
        if len(args) == 1 and re.search(r'<impl str>::(chars|bytes|char_indices|len)(::<.*>)?$', n):
            x = self.part(st, args[0])
            if x:
                k = re.search(r'::(\w+)(::<.*>)?$', n).group(1)
                x = re.sub(r'(\.0|\.pointer)+$', '', x)
                return [(None, ('lin', ((x + ' length', 1),), 0) if k == 'len' else ('texts', x + ' length' if k == 'bytes' else x + ' characters'))]
        if len(args) == 1 and re.search(r'::count(::<.*>)?$', n) and args[0][0] == 'texts':
            return [(None, ('lin', ((args[0][1], 1),), 0))]
        return None

    def sums(self, st, op, a, b):
        if op not in ('Add', 'Sub', 'Eq', 'Ne'):
            return None
        x, y = self.lin(st, a), self.lin(st, b)
        if x is None or y is None:
            return None
        if op in ('Add', 'Sub'):
            s = 1 if op == 'Add' else -1
            t = {k: x[0].get(k, 0) + s * y[0].get(k, 0) for k in sorted(set(x[0]) | set(y[0]))}
            return ('lin', tuple((k, c) for k, c in t.items() if c), x[1] + s * y[1])
        return x, y


class ErrEq(Numbers, EqDom):
    NOPART = re.compile(r'(?!)')

    def call(self, st, fn, decl, args):
        return self.texts(st, fn, args) or EqDom.call(self, st, fn, decl, args)

    def binop(self, st, op, a, b, ty):
        r = self.sums(st, op, a, b)
        if r is None or op in ('Add', 'Sub'):
            return r or EqDom.binop(self, st, op, a, b, ty)
        (x, c), (y, d) = r
        if a[0] != 'lin' and b[0] != 'lin':
            return EqDom.binop(self, st, op, a, b, ty)
        one = lambda k: 'a' + k[1:] if self.known(st, 'eq', k[1:]) == 1 else k
        t = {}
        for m, s in ((x, 1), (y, -1)):
            for k, f in m.items():
                t[one(k)] = t.get(one(k), 0) + s * f
        t = {k: f for k, f in t.items() if f}
        if not t:
            return ('i', int((c == d) == (op == 'Eq')))
        ks = sorted(t)
        if c == d and len(ks) == 2 and ks[0][1:] == ks[1][1:] and t[ks[0]] == -t[ks[1]]:
            key = ('eq',) + tuple(ks)
        else:
            form = lambda z: '+'.join('%d*%s' % (f, k[1:]) for k, f in sorted(z.items()))
            if c != d or {k[0] for k in x} != {'a'} or {k[0] for k in y} != {'b'} or form(x) != form(y):
                raise Unmodelled('comparison of sums')
            key = ('weak', 'a ' + form(x), 'b ' + form(y))
        f = st.facts.get(key)
        if f is None or len(f) > 1:
            raise Split(key, [frozenset((0,)), frozenset((1,))])
        return ('i', min(f) ^ int(op == 'Ne'))


class ScopeEq(EqDom):
    """two scopes are the same exactly when they are at the same address"""
    def ptrs(self, st):
        return [min(f) for k, f in st.facts.items() if isinstance(k, tuple) and k[0] == 'ptr' and len(f) == 1]

    def binop(self, st, op, a, b, ty):
        for v in (a, b):
            t = v[1][2] if v[0] == 'ref' and v[1][0] == 'S' and not v[2] else self.p.types[v[2]].get('elem') if v[0] == 'sym' and self.p.types[v[2]]['k'] in ('ref', 'ptr') else None
            if t is not None and self.p.types[t]['k'] in ('ref', 'ptr'):      # where the reference is, not what it refers to
                if op in ('Eq', 'Ne'):
                    return ('i', int(op == 'Ne'))       # in general at different places
        return EqDom.binop(self, st, op, a, b, ty)

    def ret(self, st, val):
        if val[0] != 'i':
            raise Unmodelled('answer %r' % (val[:2],))
        self.obl += 1
        p = self.ptrs(st)
        if not p:
            self.doubt(st)
            self.report(st, 'Scope: identity not compared', 'two scopes are said to be %s although their addresses are not compared' % ('equal' if val[1] else 'different'))
        elif val[1] != p[0]:
            self.doubt(st)
            self.report(st, 'Scope: identity mistaken', 'two scopes at %s are said to be %s' % ('the same address' if p[0] else 'different addresses', 'equal' if val[1] else 'different'))


class Show(ShowDom):
    SKIP = ()

    def parts(self, st, q, tid, vi, depth=0):
        return [p for p in ShowDom.parts(self, st, q, tid, vi, depth) if p[0] not in self.SKIP]

    def shown(self, st, v):
        q = ShowDom.shown(self, st, v)
        return re.sub(r'^(a\.\w+)(\.0)+$', r'\1', q) if q else q


class ScopeShow(Show):
    SKIP = ('parent',)


class ErrShow(Numbers, Show):
    """free form: every part once, in order of declaration"""
    def call(self, st, fn, decl, args):
        return self.texts(st, fn, args) or Show.call(self, st, fn, decl, args)

    def binop(self, st, op, a, b, ty):
        r = self.sums(st, op, a, b)
        return r if r and r[0] == 'lin' else Show.binop(self, st, op, a, b, ty)

    def shown(self, st, v):
        x = self.res(st, v)
        if x[0] == 'lin':
            return x[1][0][0] if len(x[1]) == 1 and x[1][0][1] == 1 and not x[2] and ' ' not in x[1][0][0] else 'another number'
        return Show.shown(self, st, v)

    def ret(self, st, val):
        if not any(e[0] == 'fmt' for e in st.dom):
            return ShowDom.ret(self, st, val)
        self.obl += 1
        got = [e[2] for e in st.dom if e[0] == 'field']
        for label, path, t in self.parts(st, '', self.root_tid, 0):
            self.obl += 1
            if got.count(path) != 1:
                self.doubt(st)
                self.report(st, 'Error: %s %s' % (label, 'not listed' if path not in got else 'listed twice'), 'the debug output of an error shows %s %s' % (label, 'more than once' if path in got else 'nowhere'))
        order = [p[1] for p in self.parts(st, '', self.root_tid, 0) if p[0] in ('start', 'end')]
        seq = [x for x in got if x in order]
        if seq != order and sorted(seq) == sorted(order):
            self.doubt(st)
            self.report(st, 'Error: start and end swapped', 'the debug output of an error shows the end of the token before its start')
        for x in got:
            if x != 'another number' and x not in [p[1] for p in self.parts(st, '', self.root_tid, 0)]:
                raise Unmodelled('output of %s' % x)


def one(prog, cls, fid, tid, label, args, eq):
    dom = cls(prog, fid, label) if eq else cls(prog, fid, label, 0, False)
    eng = Engine(prog, dom)
    dom.root_tid = tid
    st = State()
    un = []
    if not eq:
        dom.vis = [0]
        st.dom = ()
    try:
        eng.push_call(st, fid, args, None, None)
        eng.run(st)
        un = ['%s: unmodelled %s' % (label, u) for u in eng.unmodelled]
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (label, e)]
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        un = ['%s: construct outside of the analysis (%s: %s)' % (label, type(e).__name__, e)]
    if un:
        un += ['%s (not decided)' % k for k in dom.violations]
        dom.violations.clear()
    return dom, eng, un


def run_all(prog):
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}

    def adt(rx):
        return next((t for t, y in enumerate(prog.types) if y and y['k'] == 'adt' and re.search(rx, y['name'])), None)

    def impl(trait, m, want):
        for f in prog.find(r'%s(<.*>)?(>|::<.*>)?::%s(::<.*>)?$' % (trait, m)):
            if f.get('locals') and f.get('argc') == 2 and 'blocks' in f and prog.types[f['locals'][1]]['k'] == 'ref' and want(prog.types[f['locals'][1]]['elem']) and not f['name'].startswith('std::'):
                return f
    err, scope = adt(r'^ratel::(.*::)?error::Error$'), adt(r'^ratel_transformer::(.*::)?Scope$')
    jobs = []
    refs = lambda t: prog.types[t]['k'] == 'ref' and prog.types[t]['elem'] == scope
    for label, cls, ty, trait, m, want, eq in (
            ('comparison of errors', ErrEq, err, 'PartialEq', 'eq', lambda t: t == err, True), ('listing of an error', ErrShow, err, 'Debug', 'fmt', lambda t: t == err, False),
            ('comparison of scopes', ScopeEq, scope, 'PartialEq', 'eq', lambda t: refs(t) or t == scope, True), ('listing of a scope', ScopeShow, scope, 'Debug', 'fmt', lambda t: t == scope, False)):
        f = ty is not None and impl(trait, m, want)
        if not f:
            res['unanalysed'].append(label + ': not found')
            continue
        at = prog.types[f['locals'][1]]['elem']
        args = [('ref', ('S', 'a', at), ()), ('ref', ('S', 'b', at), ()) if eq else ('ref', ('T', None), ())]
        dom, eng, un = one(prog, cls, f['id'], ty, 'Error' if ty == err else 'Scope', args, eq)
        res['unanalysed'] += un
        res['violations'].update(dom.violations)
        res['functions'] |= {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}
        res['obligations'] += dom.obl
        res['states'] += eng.nstates
        res['roots'] += 1
        res['labels'].append(label)
    return res


if __name__ == '__main__':
    import facts, time
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:200], '|', ' ; '.join(v['trace'][-8:]))
    for u in r['unanalysed'][:20]:
        print('UNAN', u[:250])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), r['labels'], time.time() - t)
