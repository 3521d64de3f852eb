"""Equality of trees: every implementation of `==` on a node kind against the parts of that kind.

Each implementation is interpreted on two symbolic values `a` and `b`, for every pair of variants.
What it asks of the parts (comparisons of a part of `a` with a part of `b`, the variants they have,
their lengths) is recorded as facts of the path; at the return the facts have to justify the answer:
`true` demands that every part of `a` was found equal to the same part of `b`, `false` that some part
was found to differ.  Where a node begins and ends in the source text is not a part of it."""
import re
from engine import Engine, State, Split, Domain, Unmodelled, EngineLimit

POSITION = {('Loc', 'start'), ('Loc', 'end')}
EQ = re.compile(r'PartialEq(<.*>)?>::(eq|ne)(::<.*>)?$')
# true of equal texts, but not only of equal ones
WEAK = re.compile(r'::(eq_ignore_ascii_case|starts_with|ends_with|contains)(::<.*>)?$')


class EqDom(Domain):
    NOPART = re.compile(r'\.(start|end)$')

    def __init__(self, prog, rootfid, label):
        Domain.__init__(self)
        self.p = prog
        self.rootfid = rootfid
        self.label = label
        self.obl = 0
        self.pair = ''

    def key(self, st):
        return ()

    # what a value stands for: the path of a part of a or b
    def part(self, st, v, n=0):
        if n > 8:
            return None
        if v[0] in ('sym', 'symv') and isinstance(v[1], str):
            return v[1]
        if v[0] == 'ref':
            if v[1][0] == 'S' and not v[2]:
                return v[1][1]
            if v[1][0] == 'T':
                return None
            return self.part(st, self.eng.load(st, v[1], v[2]), n + 1)
        if v[0] == 'adt' and len(v[3]) == 1:
            return self.part(st, v[3][0], n + 1)
        return None

    def compare(self, st, kind, x, y, neg):
        if x[0] not in 'ab' or y[0] not in 'ab':
            return None
        k = (kind,) + tuple(sorted((x, y)))
        st.ev('%s of %s and %s' % ({'eq': 'comparison', 'weak': 'inexact comparison', 'len': 'comparison of the lengths', 'ptr': 'comparison of the addresses'}[kind], x, y))
        out = []
        for val in sorted(st.facts.get(k, frozenset((0, 1)))):
            def g(c, val=val):
                c.facts[k] = frozenset((val,))
            out.append((g, ('i', val ^ neg)))
        return out

    def switch(self, st, v, br, other):
        if v[0] in ('top', 'topv'):
            st.facts['unknown'] = 'a test that is not followed in ' + self.eng.wherefn(st)
        return None

    def isfull(self, st, v):
        return v[0] == 'adt' and self.eng.short(v[1]) == 'RangeFull' or v[0] == 'top' and v[1] is not None and self.eng.short(v[1]) == 'RangeFull'

    def whole(self, st, v):
        """an iterator over a list of which nothing was taken yet"""
        if v[0] == 'ref':
            v = self.eng.load(st, v[1], v[2])
        if v[0] == 'liter' and v[3] == 0:
            return v[1]
        return self.part(st, v)

    def call(self, st, fn, decl, args):
        n = fn['name']
        if len(args) == 2 and re.search(r'Iterator>?::(eq|ne)(::<.*>)?$', n):
            x, y = self.whole(st, args[0]), self.whole(st, args[1])
            if x and y and x != y:
                return self.compare(st, 'eq', x, y, int('::ne' in n[-60:].split('Iterator')[-1]))
        if len(args) == 1 and re.search(r'Iterator>?::count(::<.*>)?$', n):
            x = self.whole(st, args[0])
            if x:
                return [(None, ('lenof', x))]
        if len(args) == 2 and re.search(r'::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+case)(::<.*>)?$|ops::Index<.*::index$', n) or len(args) == 1 and re.search(r'::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+case)$', n):
            x = self.part(st, args[0])
            if x and not (len(args) == 2 and self.isfull(st, args[1])):
                return [(None, ('sym', x + '[part]', fn['locals'][0] if fn.get('locals') else None))]
            if x:
                return [(None, args[0])]
        if len(args) == 2 and WEAK.search(n):
            x, y = self.part(st, args[0]), self.part(st, args[1])
            if x and y and x != y:
                return self.compare(st, 'weak', x, y, 0)
        if not EQ.search(n) and not (decl and re.search(r'PartialEq::(eq|ne)$', decl)) or len(args) != 2:
            return None
        x, y = self.part(st, args[0]), self.part(st, args[1])
        if x is None or y is None:
            return None
        neg = int(bool(re.search(r'::ne(::<.*>)?$', n if EQ.search(n) else decl)))
        if x == y:
            return [(None, ('i', 1 ^ neg))]
        if {x, y} == {'a', 'b'}:
            # the same question again: about another view of the values, answered by another implementation
            if fn.get('id') == self.rootfid:
                self.report(st, self.label + ': does not end', 'the comparison calls itself on the same two values')
                return 'prune'
            t = self.p.types[fn['locals'][1]] if fn.get('locals') and len(fn['locals']) > 1 else {}
            if t.get('k') == 'ref' and t.get('elem') == self.root_tid:
                return None
        return self.compare(st, 'eq', x, y, neg)

    def binop(self, st, op, a, b, ty):
        if op not in ('Eq', 'Ne'):
            return None
        kind = 'eq'
        if a[0] == 'lenof' and b[0] == 'lenof':
            kind, x, y = 'len', a[1], b[1]
        elif a[0] == 'sym' and b[0] == 'sym':
            x, y = a[1], b[1]
            if self.eng.is_ptr(a[2]):
                kind = 'ptr'
        elif a[0] == 'ref' and b[0] == 'ref':
            x, y = self.part(st, a), self.part(st, b)
            kind = 'ptr'
        else:
            return None
        if not isinstance(x, str) or not isinstance(y, str) or x[0] not in 'ab' or y[0] not in 'ab':
            return None
        if x == y:
            return ('i', int(op == 'Eq'))
        k = (kind,) + tuple(sorted((x, y)))
        f = st.facts.get(k)
        if f is None or len(f) > 1:
            raise Split(k, [frozenset((0,)), frozenset((1,))])
        return ('i', min(f) ^ int(op == 'Ne'))

    def panic(self, st, what, where):
        self.report(st, self.label + ': panics', 'comparing two values panics')

    # ---- what the facts say about a part, given as the path behind `a` and `b`
    def known(self, st, kind, q):
        f = st.facts.get((kind, 'a' + q, 'b' + q))
        return min(f) if f is not None and len(f) == 1 else None

    def variant(self, st, root, q, tid):
        f = st.facts.get((root + q, tid))
        return f

    def truth(self, st, p):
        """a boolean part that decided a branch"""
        for k, f in st.facts.items():
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'sym' and k[1] == p and isinstance(f, frozenset) and len(f) == 1:
                return min(f)
        return None

    def children(self, q, tid, vi):
        ty = self.p.types[tid]
        short = self.eng.short(tid)
        for i, f in enumerate(ty['variants'][vi]['fields']):
            if (short, f[0]) in POSITION or self.eng.short(f[1]) == 'PhantomData':
                continue
            yield self.eng.sym_field(('sym', q, tid), vi, i, f[1])[1], f[1]

    def strip(self, tid):
        for _ in range(8):
            t = self.p.types[tid]
            if t['k'] == 'ref':
                tid = t['elem']
                continue
            return tid
        return tid

    def uncovered(self, st, q, tid, depth=0):
        """the parts of (a.q, b.q) that nothing says are equal"""
        if self.known(st, 'eq', q) == 1 or self.known(st, 'ptr', q) == 1:
            return []
        tid = self.strip(tid)
        t = self.p.types[tid]
        if t['k'] == 'bool':
            x, y = self.truth(st, 'a' + q), self.truth(st, 'b' + q)
            if x is not None and x == y:
                return []
        if t['k'] == 'tuple' and not t.get('elems'):
            return []
        if t['k'] == 'adt' and t['variants'] and self.eng.short(tid) not in ('List',) and depth < 6:
            va = self.variants(st, 'a' + q, tid)
            vb = self.variants(st, 'b' + q, tid)
            if len(va) == 1 and va == vb:
                bad = []
                for cq, ct in self.children(q, tid, min(va)):
                    bad += self.uncovered(st, cq, ct, depth + 1)
                return bad
        return [q]

    def variants(self, st, path, tid):
        return self.eng.variants(st, path, tid)

    def differs(self, st):
        for k, f in st.facts.items():
            if not isinstance(k, tuple) or not isinstance(f, frozenset):
                continue
            if k[0] in ('eq', 'len', 'weak') and f == frozenset((0,)) and k[1][0] == 'a' and k[2][0] == 'b' and k[1][1:] == k[2][1:]:
                if not self.NOPART.search(k[1]):
                    return True
            if len(k) == 2 and isinstance(k[0], str) and k[0][:1] == 'a' and isinstance(k[1], int):
                g = st.facts.get(('b' + k[0][1:], k[1]))
                if g is not None and not (f & g):
                    return True
            if len(k) == 3 and k[0] == 'sym' and isinstance(k[1], str) and k[1][:1] == 'a' and len(f) == 1 and not self.NOPART.search(k[1]):
                y = self.truth(st, 'b' + k[1][1:])
                if y is not None and y != min(f):
                    return True
        return False

    def doubt(self, st, q=None):
        """the answer may rest on something that was not followed"""
        if 'unknown' in st.facts:
            raise Unmodelled(st.facts['unknown'])
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == '#' and (q is None or k[1][1:].startswith(q)):
                raise Unmodelled('the elements of %s are compared one by one' % k[1])

    def ret(self, st, val):
        if val[0] == 'not' or val[0] in ('sym', 'cmp') or val[0] == 'sdiscr':
            raise Unmodelled('answer %r' % (val[:2],))
        if val[0] != 'i':
            raise Unmodelled('the answer is not followed')
        self.obl += 1
        va = self.variants(st, 'a', self.root_tid)
        vb = self.variants(st, 'b', self.root_tid)
        if val[1] == 0:
            if not self.differs(st):
                self.doubt(st)
                self.report(st, self.label + ': equal ones differ', 'two values of which no part is found to differ are said to be different')
            return
        if va != vb:
            self.doubt(st)
            self.report(st, self.label + ': different kinds are equal', 'two different kinds are said to be equal')
            return
        for q in self.uncovered(st, '', self.root_tid):
            self.doubt(st, q)
            name = q.lstrip('.') or 'the kind'
            self.report(st, '%s: %s not compared' % (self.label, name), 'two values are said to be equal although nothing establishes it for %s' % name)


def tree_types(prog):
    """every type of crate ratel that a list of statements is made of"""
    seen, order = set(), []
    start = [i for i, t in enumerate(prog.types) if t['k'] == 'adt' and t['name'] == 'ratel::ast::statement::Statement']
    if not start:
        start = [i for i, t in enumerate(prog.types) if t['k'] == 'adt' and t['name'].startswith('ratel::') and t['name'].endswith('::Statement')]
    work = list(start)
    while work:
        t = work.pop()
        if t in seen or t is None:
            continue
        seen.add(t)
        ty = prog.types[t]
        if ty['k'] in ('ref', 'ptr', 'slice', 'array'):
            work.append(ty.get('elem'))
        elif ty['k'] == 'tuple':
            work += ty.get('elems') or []
        elif ty['k'] == 'adt':
            if ty['name'].startswith('ratel::'):
                order.append(t)
            for v in ty['variants']:
                work += [f[1] for f in v['fields']]
            work += [a for a in ty.get('args') or [] if isinstance(a, int)]
    return start, order


def run_job(prog, job):
    fid, tid, va, vb = job
    f = prog.fns[fid]
    ty = prog.types[tid]
    label = typename(prog, tid)
    dom = EqDom(prog, fid, label if len(ty['variants']) < 2 else label + '::' + ty['variants'][va]['name'])
    eng = Engine(prog, dom)
    dom.root_tid = tid
    st = State()
    st.facts[('a', tid)] = frozenset((va,))
    st.facts[('b', tid)] = frozenset((vb,))
    un = []
    try:
        eng.push_call(st, fid, [('ref', ('S', 'a', tid), ()), ('ref', ('S', 'b', tid), ())], None, None)
        eng.run(st)
    except (Unmodelled, EngineLimit) as e:
        un.append('%s: %s' % (dom.label, e))
    for u in eng.unmodelled:
        un.append('%s: unmodelled %s' % (dom.label, u))
        for k in list(dom.violations):
            un.append('%s (not decided)' % k)
            del dom.violations[k]
    return {'label': dom.label, 'un': un, 'viol': dom.violations, 'fns': eng.fns_seen, 'obl': dom.obl, 'states': eng.nstates}


def typename(prog, tid):
    t = prog.types[tid]
    if t['k'] == 'ref':
        return typename(prog, t['elem'])
    if t['k'] != 'adt':
        return t['k']
    args = [typename(prog, a) for a in t.get('args') or [] if isinstance(a, int)]
    n = t['name'].split('::')[-1]
    return n + ('<%s>' % ', '.join(args) if args else '')


def jobs(prog):
    un, out = [], []
    start, types = tree_types(prog)
    if not start:
        return [], ['the type of statements was not found'], 0
    impls, found = {}, []
    for f in prog.find(r'PartialEq(<.*>)?>::eq(::<.*>)?$'):
        if f.get('locals') and f.get('argc') == 2 and prog.types[f['locals'][1]]['k'] == 'ref':
            impls.setdefault(prog.types[f['locals'][1]]['elem'], f)
    for t in types:
        if t not in impls:
            continue        # nothing compares two of these by this type
        found.append(t)
        n = len(prog.types[t]['variants'])
        for va in range(n):
            for vb in range(n):
                out.append((impls[t]['id'], t, va, vb))
    return out, un, len(found)


# ------------------------------------------------------------------ listing
FIELDS = re.compile(r'::debug_(struct|tuple)_fields?\d*_finish$')


BUILDER = re.compile(r'fmt::(builders::)?Debug(Struct|Tuple|List|Set|Map|Inner)\b')


class ShowDom(EqDom):
    """dom = what was printed so far: the kind's name, parts with their labels"""

    def __init__(self, prog, rootfid, label, var, module):
        EqDom.__init__(self, prog, rootfid, label)
        self.var = var
        self.module = module

    def key(self, st):
        return st.dom

    def binop(self, st, op, a, b, ty):
        return None

    def dest(self, st):
        fr = st.frames[-1]
        t = self.p.fns[fr.fid]['blocks'][fr.bb]['t']
        if t[0] == 'call' and len(t[3]) == 1:
            return self.p.fns[fr.fid]['locals'][t[3][0]]
        raise Unmodelled('place of a result')

    def ok(self, st):
        rt = self.dest(st)
        for i, v in enumerate(self.p.types[rt]['variants']):
            if v['name'] == 'Ok':
                return [(None, ('adt', rt, i, (('tup', ()),)))]
        raise Unmodelled('result of printing')

    def res(self, st, v):
        for _ in range(20):
            if v[0] != 'ref' or v[1][0] == 'S':
                return v
            v = self.eng.load(st, v[1], v[2])
        return v

    def text(self, st, v):
        v = self.res(st, v)
        if v[0] == 'str':
            return v[1]
        if v[0] == 'bytes':
            return bytes(v[1]).decode('utf8', 'replace')
        raise Unmodelled('printed text')

    def seq(self, st, v):
        v = self.res(st, v)
        if v[0] in ('arr', 'tup'):
            return v[1]
        raise Unmodelled('list of parts')

    def shown(self, st, v):
        q = self.part(st, v)
        if q is None:
            x = self.res(st, v)
            if x[0] == 'lenof':
                return x[1] + '.len()'
            if x[0] == 'not' and self.part(st, x[1]):
                return self.part(st, x[1]) + '.not'
            raise Unmodelled('printed part')
        # what is behind a node, without the place of the node
        x = self.res(st, v)
        t = x[1][2] if x[0] == 'ref' else x[2] if x[0] in ('sym', 'symv') else None
        if t is not None and self.bare(t) and self.isnode(q):
            return q + '.item'
        return q

    def bare(self, t):
        return self.eng.short(self.strip(t)) not in ('Node', 'Loc')

    def isnode(self, q):
        if q == 'a':
            return False
        if self.module:
            return q.endswith(']')
        tid = self.root_tid
        for vi in self.vis:
            for label, path, t in self.parts(None, '', tid, vi):
                if path == q and self.eng.short(self.strip(t)) == 'Node':
                    return True
        return False

    def out(self, st, *ev):
        self.obl += 1
        if self.module:
            ev = tuple(e for e in ev if e[0] == 'field')
            st.dom = tuple(st.dom) + ev
        else:
            st.dom = st.dom + tuple(ev)
        for e in ev:
            st.ev('%s %s' % (e[0], e[-1]))

    def call(self, st, fn, decl, args):
        n = fn['name']
        m = re.sub(r'::<[^:]*>$', '', n).rsplit('::', 1)[-1]
        if 'fmt::Formatter' in n or BUILDER.search(n):
            mm = FIELDS.search(n)
            if mm:
                names = self.text(st, args[1]).split(' ') if mm.group(1) == 'struct' else [self.text(st, args[1])]
                vals = args[2:]
                if m.endswith('fields_finish'):
                    vals = self.seq(st, args[2])
                ev = [('name', names[0])]
                for i, v in enumerate(vals):
                    ev.append(('field', names[i + 1] if mm.group(1) == 'struct' and i + 1 < len(names) else str(i), self.shown(st, v)))
                self.out(st, *ev)
                return self.ok(st)
            if m == 'debug_c_like_enum_write_str':
                x = self.res(st, args[2])
                if x[0] != 'i':
                    raise Unmodelled('name of the kind')
                self.out(st, ('name', self.text(st, args[1])[x[1]:].split(' ')[0]))
                return self.ok(st)
            if m in ('write_str', 'pad'):
                self.out(st, ('name', self.text(st, args[1])))
                return self.ok(st)
            if m in ('debug_struct', 'debug_tuple'):
                self.out(st, ('name', self.text(st, args[1])), ('open', m))
                return [(None, ('top', self.dest(st)))]
            if m == 'field' and BUILDER.search(n):
                if 'DebugStruct' in n:
                    self.out(st, ('field', self.text(st, args[1]), self.shown(st, args[2])))
                elif 'DebugTuple' in n:
                    self.out(st, ('field', str(sum(1 for e in st.dom if e[0] == 'field')), self.shown(st, args[1])))
                else:
                    raise Unmodelled(n)
                return [(None, args[0])]
            if m == 'finish' and BUILDER.search(n):
                self.out(st, ('close', m))
                return self.ok(st)
            if m == 'write_fmt':
                a = self.res(st, args[1])
                if a[0] == 'fmts':
                    self.out(st, ('name', a[1]))
                elif a[0] == 'fmt':
                    self.out(st, *[('field', None, x[1]) for x in a[1]])
                    if not self.module:
                        self.out(st, ('fmt', bytes(x for x in a[2])))
                else:
                    raise Unmodelled('format')
                return self.ok(st)
            if m in ('alternate', 'sign_plus'):
                return None
            raise Unmodelled(n)
        if len(args) == 1 and re.search(r'Iterator>?::count(::<.*>)?$', n):
            x = self.whole(st, args[0])
            if x:
                return [(None, ('lenof', x))]
        if re.search(r'fmt::rt::Argument(::<.*>)?::new_(debug|display)', n):
            return [(None, ('arg', self.shown(st, args[0])))]
        if re.search(r'fmt::Arguments(::<.*>)?::new(::<.*>)?$', n):
            b, a = self.res(st, args[0]), self.seq(st, args[1])
            a = tuple(self.res(st, x) for x in a)
            if any(x[0] != 'arg' for x in a):
                raise Unmodelled('format arguments')
            return [(None, ('fmt', a, tuple(b[1]) if b[0] == 'bytes' else ()))]
        if re.search(r'fmt::Arguments(::<.*>)?::from_str\w*$', n):
            return [(None, ('fmts', self.text(st, args[0])))]
        if re.search(r'(^|::)(Debug|Display)(>|::<.*>)?::fmt$| as std::fmt::(Debug|Display)>::fmt$', n) or decl in ('std::fmt::Debug::fmt', 'std::fmt::Display::fmt'):
            q = self.shown(st, args[0])
            if q == 'a' and fn.get('id') != self.rootfid and 'blocks' in fn and 'ratel::' in n:
                return None
            if fn.get('id') == self.rootfid and q == 'a':
                self.report(st, self.label + ': does not end', 'the listing calls itself on the same value')
                return 'prune'
            self.out(st, ('field', None, q))
            return self.ok(st)
        if re.search(r'ListIter<.*>::next$|ListIter<.* as std::iter::Iterator>::next$', n):
            it = self.eng.load(st, args[0][1], args[0][2]) if args[0][0] == 'ref' else args[0]
            if it[0] == 'liter' and it[3] > 0:
                want = it[1] + ('[0]' if it[3] == 1 else '[+]')
                got = [e[2] for e in st.dom if e[0] == 'field']
                if got != [want]:
                    self.doubt(st)
                    self.report(st, self.label + ': an element is not listed once', 'the listing goes on to the next element of %s although it has printed %s of the last' % (it[1].lstrip('a.') or 'the list', ', '.join(got) or 'nothing'))
            if self.module:
                st.dom = ()
        return None

    def doubt(self, st, q=None):
        if 'unknown' in st.facts:
            raise Unmodelled(st.facts['unknown'])

    def determined(self, st, q, tid):
        """on this path there is only one thing the part can be"""
        tid = self.strip(tid)
        t = self.p.types[tid]
        if t['k'] == 'bool':
            return self.truth(st, 'a' + q) is not None
        if t['k'] == 'adt' and t['variants'] and len(t['variants']) > 1:
            vs = self.variants(st, 'a' + q, tid)
            return len(vs) == 1 and not t['variants'][min(vs)]['fields']
        return False

    def parts(self, st, q, tid, vi, depth=0):
        """[(label, path, type)] of a variant; a wrapper stands for what it wraps"""
        ty = self.p.types[tid]
        short = self.eng.short(tid)
        out = []
        for i, f in enumerate(ty['variants'][vi]['fields']):
            if self.eng.short(f[1]) in ('PhantomData',):
                continue
            if (short, f[0]) in (('Node', 'inner'),):
                t = self.strip(f[1])
                for _ in range(4):
                    if self.eng.short(t) in ('CopyCell', 'Cell', 'UnsafeCell'):
                        t = self.strip(self.p.types[t]['args'][0])
                return self.parts(st, q, t, 0, depth + 1)
            out.append((f[0], self.eng.sym_field(('sym', 'a' + q, tid), vi, i, f[1])[1], f[1]))
        return out

    def ret(self, st, val):
        self.obl += 1
        if self.module:
            ends = [k for k in st.facts if isinstance(k, tuple) and k[0] == 'end']
            whole = [e for e in st.dom if e[0] == 'field']
            if not ends and not any(k[0] == '#' for k in st.facts if isinstance(k, tuple)) and whole and all(e[2].startswith('a.') for e in whole):
                return
            if not ends:
                self.doubt(st)
                self.report(st, self.label + ': stops before the end', 'the listing ends before the last statement')
            return
        tid = self.root_tid
        vs = self.variants(st, 'a', tid)
        vi = min(vs)
        node = self.eng.short(tid) == 'Node'
        parts = self.parts(st, '', tid, vi)
        fields = [e for e in st.dom if e[0] == 'field']
        names = [e[1] for e in st.dom if e[0] == 'name']
        free = any(e[0] == 'fmt' for e in st.dom)
        vname = self.p.types[tid]['variants'][vi]['name']
        if not node and len(fields) == 1 and fields[0][1] is None and len(parts) == 1 and fields[0][2] == parts[0][1]:
            return          # stands for its only part
        for label, path, t in parts:
            got = [e for e in fields if e[2] == path]
            if not got:
                if self.determined(st, path[1:], t):
                    continue
                self.doubt(st)
                self.report(st, '%s: %s not listed' % (self.label, label), 'the listing does not show %s' % label)
            elif len(got) > 1 and not free:
                self.doubt(st)
                self.report(st, '%s: %s listed twice' % (self.label, label), 'the listing shows %s more than once' % label)
            elif got[0][1] is not None and got[0][1] != label:
                self.doubt(st)
                self.report(st, '%s: %s listed as %s' % (self.label, label, got[0][1]), 'the listing shows %s under the name %s' % (label, got[0][1]))
        order = [p[1] for p in parts]
        seq = [order.index(e[2]) for e in fields if e[2] in order]
        for e in fields:
            if e[2] not in order and e[1] in [p[0] for p in parts]:
                self.doubt(st)
                self.report(st, '%s: another value listed as %s' % (self.label, e[1]), 'the listing shows %s under the name %s' % (e[2].lstrip('a.') or 'the value', e[1]))
        if any(e[0] == 'open' for e in st.dom) and not any(e[0] == 'close' for e in st.dom):
            self.doubt(st)
            self.report(st, self.label + ': not finished', 'the listing of this kind is not brought to an end')
        if free:
            raise Unmodelled('free-form listing')
        if node:
            vname = 'Loc'
        if vname not in names and not any(vname in x for x in names):
            self.doubt(st)
            self.report(st, self.label + ': kind not named', 'the listing names this kind %s' % (', '.join(names) or 'not at all'))


def show_job(prog, job):
    fid, tid, vi, module = job
    ty = prog.types[tid]
    label = typename(prog, tid)
    dom = ShowDom(prog, fid, label if len(ty['variants']) < 2 else label + '::' + ty['variants'][vi]['name'], vi, module)
    eng = Engine(prog, dom)
    dom.root_tid = tid
    dom.vis = [vi]
    st = State()
    st.dom = ()
    st.facts[('a', tid)] = frozenset((vi,))
    un = []
    try:
        eng.push_call(st, fid, [('ref', ('S', 'a', tid), ()), ('ref', ('T', None), ())], None, None)
        eng.run(st)
    except (Unmodelled, EngineLimit) as e:
        un.append('%s: %s' % (dom.label, e))
    for u in eng.unmodelled:
        un.append('%s: unmodelled %s' % (dom.label, u))
        for k in list(dom.violations):
            un.append('%s (not decided)' % k)
            del dom.violations[k]
    return {'label': dom.label, 'un': un, 'viol': dom.violations, 'fns': eng.fns_seen, 'obl': dom.obl, 'states': eng.nstates}


def show_jobs(prog):
    un, out = [], []
    start, types = tree_types(prog)
    impls = {}
    for f in prog.find(r'(Debug)(>|::<.*>)?::fmt$'):
        if f.get('locals') and f.get('argc') == 2 and prog.types[f['locals'][1]]['k'] == 'ref':
            impls.setdefault(prog.types[f['locals'][1]]['elem'], f)
    n = 0
    mod = [t for t in impls if prog.types[t]['k'] == 'adt' and prog.types[t]['name'].startswith('ratel::') and prog.types[t]['name'].endswith('::Module')]
    for t in types + mod:
        if t not in impls:
            un.append('no listing found for ' + typename(prog, t))
            continue
        n += 1
        for v in range(len(prog.types[t]['variants'])):
            out.append((impls[t]['id'], t, v, t in mod))
    if not mod:
        un.append('no listing found for Module')
    return out, un, n


def run_show(prog):
    return gather(prog, show_jobs, show_job, 8)


def run_all(prog):
    return gather(prog, jobs, run_job, 64)


def gather(prog, jobs, run, B):
    import par as P
    js, un, n = jobs(prog)
    res = {'violations': {}, 'unanalysed': un, 'functions': set(), 'obligations': 0, 'states': 0, 'roots': len(js), 'types': n, 'labels': []}
    chunks = [js[i:i + B] for i in range(0, len(js), B)]
    for rs in P.pmap(lambda c: [run(prog, j) for j in c], chunks):
        for r in rs:
            for u in r['un']:
                if u not in res['unanalysed']:
                    res['unanalysed'].append(u)
            if r['label'] not in res['labels']:
                res['labels'].append(r['label'])
            res['violations'].update(r['viol'])
            res['functions'] |= r['fns']
            res['obligations'] += r['obl']
            res['states'] += r['states']
    return res


if __name__ == '__main__':
    import facts, time
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    for r in (run_all(p), run_show(p)):
        for k, v in sorted(r['violations'].items()):
            print('VIOL', k, '|', v['msg'], '|', ' ; '.join(v['trace'][-8:]))
        for u in r['unanalysed']:
            print('UNAN', u[:200])
        print(r['roots'], r['types'], r['obligations'], r['states'], len(r['functions']), time.time() - t)
