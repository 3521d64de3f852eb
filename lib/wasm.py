"""The WebAssembly entry points.

Each entry point is run once on a symbolic source text and option; what it returns on every
path is a term over the calls it makes (parse, generate, serialize, format) and has to be the
term specified for that entry point.
"""
import re
from engine import Engine, State, Domain, Prune, Unmodelled, EngineLimit, SplitVal

ADAPT = ('Filter', 'Take', 'Skip', 'Rev', 'StepBy', 'TakeWhile', 'SkipWhile', 'FilterMap')
OK = ('parsed', 'source')
MOD = ('ok', OK)
DISPLAY = ('display', ('unexpected', 'err.start', 'err.end', 'source'))
ERRORS = ('cat', 'Error: ', ('join', '\n', ('each error', DISPLAY)))
SPEC = {
    'transform': {1: ('codegen', MOD, True), 0: ('codegen', MOD, False)},
    'generate_ast': {1: ('debug', ('body', MOD)), 0: ('debug, indented', ('body', MOD))},
    'generate_ast_estree': {1: ('json', MOD), 0: ('json, indented', MOD)},
}
EXPORT = {'transform': 'transform', 'generateAST': 'generate_ast', 'generateASTEstree': 'generate_ast_estree'}


def last(n):
    """the name without generic arguments"""
    d, out = 0, []
    for i, c in enumerate(n):
        if c == '<':
            d += 1
        elif c == '>' and n[i - 1] != '-':
            d -= 1
        elif not d:
            out.append(c)
    return re.sub(r'::$', '', re.sub(r'(::)+', '::', ''.join(out)))


class W(Domain):
    """values: ('t', term) is a text, ('ref', ('K', ('t', term)), ()) a reference to one"""

    def __init__(self, prog, name):
        Domain.__init__(self)
        self.p = prog
        self.name = name
        self.obl = 0
        self.returns = 0
        self.seen = set()

    def bad(self, st, key, msg):
        self.report(st, (('W01',), '%s: %s' % (self.name, key)), '%s: %s' % (self.name, msg))

    def key(self, st): return st.dom

    # ---- terms
    def term(self, st, v):
        for _ in range(30):
            k = v[0]
            if k == 't':
                return v[1]
            if k == 'ref':
                if v[1][0] == 'S':
                    return v[1][1]
                if v[1][0] == 'K' and not v[2]:
                    v = v[1][1]
                    continue
                v = self.eng.load(st, v[1], v[2])
                continue
            if k in ('str', 'bytes'):
                x = v[1]
                return bytes(x).decode('utf8', 'replace') if not isinstance(x, str) else x
            if k in ('sym', 'symv'):
                return v[1]
            if k == 'i':
                return v[1]
            if k == 'adt':
                s = self.eng.short(v[1])
                var = self.p.types[v[1]]['variants'][v[2]]
                d = {n: self.term(st, x) for (n, t), x in zip(var['fields'], v[3])}
                if s == 'ParseError' and var['name'] == 'UnexpectedToken':
                    return ('unexpected', d.get('start'), d.get('end'), d.get('source'))
                if s in ('Box', 'Cow', 'Rc', 'Unique', 'NonNull') and len(d) >= 1:
                    return list(d.values())[0]
                return (s, var['name']) + tuple(sorted(d.items(), key=repr))
            if k in ('tup', 'vec', 'arr'):
                return (k,) + tuple(self.term(st, x) if isinstance(x, tuple) else x for x in v[1])
            raise Unmodelled('value of kind %s %s' % (k, self.p.types[v[1]].get('str', '')[:60] if k == 'top' and v[1] is not None else ''))
        raise Unmodelled('deep value')

    def tx(self, t): return ('t', t)

    def tref(self, t): return ('ref', ('K', ('t', t)), ())

    def flag(self, st, v):
        """a truth value on this path"""
        if v[0] == 'i':
            return bool(v[1])
        if v[0] == 'not':
            x = self.flag(st, v[1])
            return (not x) if isinstance(x, bool) else ('not', x)
        if v[0] == 'sym':
            f = self.known(st) if v[1] == 'minify' else None
            return v[1] if f is None else bool(f)
        return str(v)[:40]

    def known(self, st):
        for k, f in st.facts.items():
            if isinstance(k, tuple) and k[:2] == ('sym', 'minify') and isinstance(f, frozenset) and len(f) == 1:
                return next(iter(f))
        return None

    # ---- calls
    def dest(self, st, fn):
        if 'locals' in fn:
            return fn['locals'][0]
        fr = st.frames[-1]
        f = self.p.fns[fr.fid]
        t = f['blocks'][fr.bb]['t']
        if t[0] == 'call' and len(t[3]) == 1:
            return f['locals'][t[3][0]]
        raise Unmodelled('place of a result')

    def call(self, st, fn, decl, args):
        n = last(fn['name'])
        e = self.eng
        ret = self.dest(st, fn)
        full = fn['name']
        if n.endswith('ratel::parse'):
            self.obl += 1
            src = self.term(st, args[0])
            vs = self.p.types[ret]['variants']
            out = []
            for i, v in enumerate(vs):
                if v['name'] == 'Ok':
                    out.append((None, ('adt', ret, i, (self.tx(('ok', ('parsed', src))),))))
                else:
                    out.append((lambda c: None, ('adt', ret, i, (('errs', src, False),))))
            return out
        if n.endswith('ratel_codegen::codegen'):
            self.obl += 1
            return [(None, self.tx(('codegen', self.term(st, args[0]), self.flag(st, args[1]))))]
        if re.search(r'ratel::Module::\w+$', n):
            return [(None, self.tx((n.rsplit('::', 1)[1], self.term(st, args[0]))))]
        m = re.search(r'serde_json::(\w*::)?(to_string|to_string_pretty)$', n)
        if m:
            self.obl += 1
            k = [i for i, v in enumerate(self.p.types[ret]['variants']) if v['name'] == 'Ok'][0]
            return [(None, ('adt', ret, k, (self.tx(('json' if m.group(2) == 'to_string' else 'json, indented', self.term(st, args[0]))),)))]
        m = re.search(r'fmt::rt::Argument::new_(\w+)$', n)
        if m:
            return [(None, self.tx(('arg', m.group(1), self.term(st, args[0]))))]
        if re.search(r'fmt::Arguments::new$', n):
            return [(None, self.tx(('args', self.rawbytes(st, args[0]), self.arr(st, args[1]))))]
        if re.search(r'fmt::Arguments::from_str\w*$', n):
            return [(None, self.tx(('text', self.term(st, args[0]))))]
        if re.search(r'(^|::)fmt::format$', n):
            return [(None, self.tx(self.formatted(self.term(st, args[0]))))]
        if re.search(r'hint::must_use$', n):
            return [(None, args[0])]
        if n.endswith('::as_statically_known_str'):
            return [(None, ('adt', ret, [i for i, v in enumerate(self.p.types[ret]['variants']) if v['name'] == 'None'][0], ()))]
        if n.endswith('::write_fmt') and args[0][0] == 'ref' and self.istext(st, args[0]):
            e.store(st, args[0][1], args[0][2], self.tx(cat(self.term(st, args[0]), self.formatted(self.term(st, args[1])))))
            k = [i for i, v in enumerate(self.p.types[ret]['variants']) if v['name'] == 'Ok'][0]
            return [(None, ('adt', ret, k, (('tup', ()),)))]
        if n.endswith('::to_string') and re.search(r'ToString', full) and len(args) == 1:
            t = self.term(st, args[0])
            if re.match(r'<(str|\S*String|&str) as ', full) or re.search(r'impl .*ToString for (str|\S*String)', full):
                return [(None, self.tx(t))]
            return [(None, self.tx(('display', t)))]
        if re.search(r'(to_owned|to_string|into_string|as_str|as_ref|borrow|deref|clone|into|from|as_mut_str|into_boxed_str|into_owned)$', n) and len(args) == 1 and self.istext(st, args[0]):
            t = self.term(st, args[0])
            return [(None, self.tref(t) if self.p.types[ret]['k'] == 'ref' else self.tx(t))]
        m = re.search(r'(?:str>?|String)::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+|replace\w*|repeat|strip_\w+|split_at|lines|split\w*|get|truncate|pop|remove)(?:::<.*)?$', re.sub(r'<impl str>', 'str', full.split('::<')[0] if '<impl str>' not in full else full))
        if m and args and self.istext(st, args[0]):
            self.bad(st, 'changes a text', 'a text is changed by %s on the way' % m.group(1))
            raise Prune()
        if re.search(r'<impl str>::(starts_with|ends_with|contains|is_char_boundary)(::<|$)', full) and self.istext(st, args[0]) and isinstance(self.term(st, args[0]), (str, tuple)):
            key = ('about', repr(self.term(st, args[0])), repr(args[1:])[:200], fn['name'])
            out = []
            for x in sorted(st.facts.get(key, frozenset((0, 1)))):
                def g(c, x=x):
                    c.facts[key] = frozenset((x,))
                out.append((g, ('i', x)))
            return out
        if re.search(r'str as (std|core)::(ops|slice)::.*Index<(std|core)::ops::Range\w*(<.*>)?>>::index$|str::traits::<impl .*Index<.*> for str>::index$|<impl str>::(get|get_unchecked)::<', full) and self.istext(st, args[0]):
            r = args[1]
            if r[0] == 'adt' and (e.short(r[1]) == 'RangeFull' or e.short(r[1]) == 'RangeFrom' and r[3][0] == ('i', 0)) and not re.search('::get::<', full):
                return [(None, args[0])]
            if r[0] != 'adt' or r[3][0][0] != 'i' or r[3][0][1] == 0:
                raise Unmodelled('part of a text')
            self.bad(st, 'changes a text', 'only a part of a text is used')
            raise Prune()
        m = re.search(r'String::(push_str|push|insert_str)$', n)
        if m and args[0][0] == 'ref':
            old = self.term(st, args[0])
            add = self.term(st, args[1])
            if m.group(1) == 'push' and isinstance(add, int):
                add = chr(add)
            new = cat(add, old) if m.group(1) == 'insert_str' and args[2] == ('i', 0) else cat(old, add) if m.group(1) != 'insert_str' else None
            if new is None:
                raise Unmodelled('insert_str')
            if len(repr(new)) > 3000:
                raise Unmodelled('a text that grows in an unknown way')
            e.store(st, args[0][1], args[0][2], self.tx(new))
            return [(None, ('tup', ()))]
        if re.search(r'(String|str)::with_capacity$|String::new$|String as std::default::Default.*default$', n) or n.endswith('string::String::new'):
            return [(None, self.tx(''))]
        if re.search(r'ops::Add.*::add$', full) and self.istext(st, args[0]):
            return [(None, self.tx(cat(self.term(st, args[0]), self.term(st, args[1]))))]
        # the list of errors
        if self.iserrs(st, args[0] if args else None):
            v = self.errs(st, args[0])
            if re.search(r'::(into_iter|iter|drain|deref|as_slice|as_ref|borrow|by_ref|cloned|to_vec|clone|iter_mut)$', n):
                isref = self.p.types[ret]['k'] == 'ref'
                return [(None, ('ref', st.alloc(v), ()) if isref and n.endswith('by_ref') is False else (args[0] if isref else v))]
            if n.endswith('::is_empty'):
                return [(None, ('i', 0))]
            if n.endswith('::len'):
                return [(None, ('sym', '#errors', ret))]
            if n.endswith('::next') or full.endswith('::next'):
                return self.next(st, ret, args[0])
            m = re.search(r'::(filter|take|skip|rev|step_by|take_while|skip_while|filter_map|truncate|pop|dedup\w*|retain|reverse|swap_remove|remove|split_off|first|last|get|sort\w*|clear|nth|min\w*|max\w*|find)$', n)
            if m:
                self.bad(st, 'errors lost', 'the list of parse errors is not reported as it is (%s)' % m.group(1))
                raise Prune()
        if (n.endswith('::collect') and 'Iterator' in full or n.endswith('::from_iter') and 'FromIterator' in full) and args:
            return self.collect(st, ret, args[0])
        if re.search(r'::(join|concat)$', n) and args and not self.istext(st, args[0]):
            s = self.seq(st, args[0])
            v = self.errs(st, args[0])
            if v[0] == 'arr':
                sep = self.term(st, args[1]) if len(args) > 1 else ''
                out = ''
                for i, x in enumerate(v[1]):
                    out = cat(cat(out, sep if i else ''), self.term(st, x))
                return [(None, self.tx(out))]
            if s is not None:
                self.obl += 1
                return [(None, self.tx(('join', self.term(st, args[1]) if len(args) > 1 else '', s)))]
        if re.search(r'vec::Vec::(new|with_capacity)$', n):
            return [(None, ('acc', None, False))]
        if re.search(r'vec::Vec::push$', n) and args[0][0] == 'ref':
            v = e.load(st, args[0][1], args[0][2])
            if v[0] == 'acc':
                t = self.term(st, args[1])
                if v[2] or (v[1] is not None and v[1] != t) or st.dom != 'one':
                    t = ('not one per error', t)
                e.store(st, args[0][1], args[0][2], ('acc', t, True))
                return [(None, ('tup', ()))]
        if re.search(r'::(deref|as_slice|as_ref|borrow)$', n) and args and self.seq(st, args[0]) is not None:
            return [(None, args[0])]
        return None

    def istext(self, st, v):
        for _ in range(20):
            if v[0] in ('t', 'str', 'bytes'):
                return True
            if v[0] == 'ref':
                if v[1][0] == 'S':
                    return v[1][1] in ('source',)
                v = v[1][1] if v[1][0] == 'K' and not v[2] else self.eng.load(st, v[1], v[2])
                continue
            return False
        return False

    def errs(self, st, v):
        while v[0] == 'ref' and v[1][0] != 'S':
            v = v[1][1] if v[1][0] == 'K' and not v[2] else self.eng.load(st, v[1], v[2])
        return v

    def iserrs(self, st, v):
        return v is not None and self.errs(st, v)[0] == 'errs'

    def seq(self, st, v):
        v = self.errs(st, v)
        if v[0] == 'seq':
            return v[1]
        if v[0] == 'acc':
            return ('each error', v[1])
        return None

    def errval(self, st, ret_elem):
        t = ret_elem
        r = False
        while self.p.types[t]['k'] == 'ref':
            t = self.p.types[t]['elem']
            r = True
        return ('ref', ('S', 'err', t), ()) if r else ('sym', 'err', t)

    def next(self, st, ret, where):
        vs = self.p.types[ret]['variants']
        no = [i for i, v in enumerate(vs) if v['name'] == 'None'][0]
        yes = 1 - no
        elem = self.errval(st, vs[yes]['fields'][0][1])

        def close(c):
            def sub(v):
                if isinstance(v, tuple):
                    if v[:1] == ('acc',) and len(v) == 3:
                        if c.dom and not v[2]:
                            return ('acc', ('missing for some error', v[1]), False) if not (isinstance(v[1], tuple) and v[1][:1] == ('missing for some error',)) else v
                        return ('acc', v[1], False)
                    if v[:1] == ('t',) and len(v) == 2 and isinstance(v[1], tuple) and v[1][:1] == ('cat',) and "'err." in repr(v[1]):
                        raise Unmodelled('a text built over several errors')
                    return tuple(sub(x) for x in v)
                return v
            for f in c.frames:
                f.loc = {k: sub(x) for k, x in f.loc.items()} if isinstance(f.loc, dict) else [sub(x) if x is not None else None for x in f.loc]
            c.heap = {k: sub(x) for k, x in c.heap.items()} if isinstance(c.heap, dict) else c.heap

        def stop(c):
            if not c.dom:       # a failed parse has at least one error
                raise Prune()
            close(c)
            c.dom = 'done'

        def go(c):
            close(c)
            c.dom = 'one'
        return [(stop, ('adt', ret, no, ())), (go, ('adt', ret, yes, (elem,)))]

    def collect(self, st, ret, it):
        chain = []
        v = self.errs(st, it)
        while v[0] == 'adt':
            s = self.eng.short(v[1])
            names = [f[0] for f in self.p.types[v[1]]['variants'][v[2]]['fields']]
            if s in ADAPT:
                self.bad(st, 'errors lost', 'not every parse error is reported in its order (%s)' % s)
                raise Prune()
            if s in ('Cloned', 'Copied', 'Peekable', 'Fuse'):
                v = self.errs(st, v[3][names.index([x for x in names if x in ('it', 'iter')][0])])
                continue
            if s != 'Map':
                raise Unmodelled('iterator ' + s)
            chain.append((v[3][names.index('f')], None))
            v = self.errs(st, v[3][names.index('iter')])
        if v[0] != 'errs':
            return None
        chain.reverse()
        self.obl += 1
        if not chain:
            return [(None, v)]
        rt = self.p.types[ret].get('str', '')
        isstr = re.search(r'^(std|alloc)::string::String|^String$', rt)
        fns = [self.p.types[c[1]]['fn'] for c, _ in chain]
        t0 = self.p.fns[fns[0]]['locals'][2] if len(self.p.fns[fns[0]]['locals']) > 2 else None
        elem = self.errval(st, t0)

        def step(i, val):
            clo = chain[i][0]
            fid = fns[i]
            f = self.p.fns[fid]
            a0 = clo
            if self.p.types[f['locals'][1]]['k'] in ('ref', 'ptr'):
                a0 = ('ref', st.alloc(clo), ())
            post = Post(self, i, len(chain), isstr)
            post.step = step
            return ('inline', fid, [a0, val], post)
        return step(0, elem)

    def rawbytes(self, st, v):
        v = self.errs(st, v)
        if v[0] in ('bytes', 'str'):
            return tuple(bytes(v[1]) if not isinstance(v[1], str) else v[1].encode())
        if v[0] == 'arr':
            return tuple(x[1] for x in v[1])
        raise Unmodelled('format template ' + v[0])

    def arr(self, st, v):
        v = self.errs(st, v)
        if v[0] in ('arr', 'tup'):
            return tuple(self.term(st, x) for x in v[1])
        raise Unmodelled('format arguments ' + v[0])

    def formatted(self, t):
        if t[0] == 'text':
            return t[1]
        assert t[0] == 'args'
        b, args = list(t[1]), list(t[2])
        out, i, nxt = '', 0, 0
        while i < len(b):
            c = b[i]
            if c == 0:
                break
            if c < 0x80:
                out = cat(out, bytes(b[i + 1:i + 1 + c]).decode('utf8', 'replace'))
                i += 1 + c
                continue
            flags = 0
            if c == 0xC0:
                i += 1
            elif c == 0xC1:
                flags = int.from_bytes(bytes(b[i + 1:i + 5]), 'little')
                i += 5
            else:
                raise Unmodelled('format template byte %d' % c)
            if nxt >= len(args):
                raise Unmodelled('format arguments')
            _, kind, val = args[nxt]
            nxt += 1
            out = cat(out, show(kind, flags, val))
        return out

    def binop(self, st, op, a, b, ty):
        if re.match(r'(Add|Sub|Mul|Div|Rem)', op) and any(x[0] == 't' or x[0] == 'sym' and x[1].startswith('err') for x in (a, b)):
            t = self.tx((op, self.term(st, a), self.term(st, b)))
            return ('tup', (t, ('i', 0))) if 'WithOverflow' in op else t
        return None

    # ---- results
    def ret(self, st, val):
        self.returns += 1
        self.obl += 1
        try:
            t = self.term(st, val)
        except Unmodelled as x:
            raise
        self.check(st, t)

    def check(self, st, t):
        fl = self.known(st)
        if t == ERRORS:
            self.seen.add('errors')
            return
        if 'each error' in repr(t) or not has(t, MOD):
            self.bad(st, 'errors', 'the parse errors are reported as %s instead of %s' % (str(t)[:200], str(ERRORS)[:200]) if 'err' in repr(t)
                     else 'returns %s, which is not made from the parsed module or from the parse errors' % str(t)[:200])
            return
        want = SPEC[self.name]
        sel = [fl] if fl is not None else [0, 1]
        for m in sel:
            w = want[m]
            got = subst(t, 'minify', bool(m))
            if got == w:
                self.seen.add(('result', m))
                continue
            self.bad(st, 'wrong result (minify=%s)' % bool(m), 'with minify = %s the result is %s instead of %s' % (bool(m), str(got)[:160], str(w)[:160]))

    def panic(self, st, what, where):
        self.bad(st, 'panics', 'may panic: %s' % what)

    def drop(self, st, t): return None

    def unknown_call(self, st, fn, args):
        raise Unmodelled('call of ' + fn['name'][:120])


class Post:
    def __init__(self, w, i, n, isstr):
        self.w, self.i, self.n, self.isstr = w, i, n, isstr

    def roots(self): return ()

    def __call__(self, eng, st, val):
        if self.i + 1 < self.n:
            _, fid, args, post = self.step(self.i + 1, val)
            fr = st.frames[-1]
            fr.fid, fr.bb, fr.post = fid, 0, post
            fr.loc = {1: args[0], 2: args[1]}
            st.si = 0
            return 'again'
        t = ('each error', self.w.term(st, val))
        return self.w.tx(('join', '', t)) if self.isstr else ('seq', t)


def show(kind, flags, val):
    k = {'display': 'display', 'debug': 'debug'}.get(kind, kind)
    if flags not in (0, 0xE0000020, 0x60000020, 0x80600020, 0x80000020) or kind not in ('display', 'debug'):
        if not flags & 0x00800000 and kind not in ('display', 'debug'):
            return (kind, flags, val)
    if flags & 0x00800000:
        k += ', indented'
    if k == 'display' and (isinstance(val, str) and val != 'err' or isinstance(val, tuple) and val[0] in ('cat', 'join', 'display', 'json', 'json, indented', 'debug', 'debug, indented', 'codegen')):
        return val
    return (k, val)


def cat(a, b):
    pa = list(a[1:]) if isinstance(a, tuple) and a[0] == 'cat' else [a]
    pb = list(b[1:]) if isinstance(b, tuple) and b[0] == 'cat' else [b]
    out = []
    for x in pa + pb:
        if x == '':
            continue
        if out and isinstance(x, str) and isinstance(out[-1], str) and 'source' not in (x, out[-1]) and 'minify' not in (x, out[-1]):
            out[-1] += x
        else:
            out.append(x)
    return '' if not out else out[0] if len(out) == 1 else ('cat',) + tuple(out)


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        if t == ('not', a):
            return not b
        return tuple(subst(x, a, b) for x in t)
    return t


def fn_calls(prog, f):
    for b in f.get('blocks') or []:
        t = b['t']
        if t and t[0] == 'call' and 'fn' in t[1]:
            yield t[1]['fn']


def run_all(prog):
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}
    ids = {}
    for f in prog.find(r'^wasmshim::(\w+::)*(transform|generate_ast|generate_ast_estree)(::<.*>)?$'):
        nm = last(f['name']).rsplit('::', 1)[1]
        if len(f['locals']) > 2 and f['argc'] == 2 and prog.types[f['locals'][2]].get('str') == 'bool':
            ids.setdefault(nm, f['id'])
    by_id = {v: k for k, v in ids.items()}
    for nm, fid in sorted(ids.items()):
        f = prog.fns[fid]
        dom = W(prog, nm)
        eng = Engine(prog, dom, max_states=2000)
        eng.bfs = True
        dom.eng = eng
        st = State()
        st.dom = ''
        un = []
        try:
            eng.push_call(st, fid, [('ref', ('S', 'source', prog.types[f['locals'][1]]['elem']), ()), ('sym', 'minify', f['locals'][2])], None, None)
            eng.run(st)
        except (Unmodelled, EngineLimit) as e:
            un.append('%s: %s' % (nm, e))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            un.append('%s: construct outside of the analysis (%s: %s)' % (nm, type(e).__name__, e))
        un += ['%s: unmodelled %s' % (nm, u) for u in eng.unmodelled]
        if not un and not dom.violations:
            for w in ('errors', ('result', 0), ('result', 1)):
                if w not in dom.seen:
                    dom.bad(st, 'no %s' % (w,), 'no path returns %s' % ('the parse errors' if w == 'errors' else 'the result for minify = %s' % bool(w[1])))
        res['violations'].update(dom.violations)
        res['unanalysed'] += un
        res['functions'] |= {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}
        res['obligations'] += dom.obl
        res['states'] += eng.nstates
        res['roots'] += 1
        res['labels'].append(nm)
    # the exported names
    for js, nm in sorted(EXPORT.items()):
        ws = prog.find(r'^wasmshim::_::__wasm_bindgen_generated_%s$' % js)
        if not ws:
            continue
        seen, todo, hit = set(), [ws[0]['id']] + [f['id'] for f in prog.find(r'^wasmshim::_::__wasm_bindgen_generated_%s::\{closure#\d+\}$' % js)], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in by_id:
                hit.add(by_id[x])
                continue
            if len(seen) < 400 and prog.fns[x]['name'].startswith('wasmshim::_'):
                todo += list(fn_calls(prog, prog.fns[x]))
        res['obligations'] += 1
        res['roots'] += 1
        res['labels'].append('export ' + js)
        if hit and hit != {nm}:
            res['violations'][(('W01',), 'export %s' % js)] = {'msg': 'the exported function %s calls %s instead of %s' % (js, ', '.join(sorted(hit)), nm), 'where': ws[0]['name']}
    return res


if __name__ == '__main__':
    import facts
    from engine import Prog
    r = run_all(Prog(facts.extract('wasmshim')))
    for x, v in sorted(r['violations'].items()):
        print('VIOL', x, '|', v['msg'][:600])
    for u in r['unanalysed']:
        print('UNAN', u[:400])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), r['labels'])
