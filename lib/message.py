"""Display of a parse error: line number, column, source lines and marker.

The two `fmt` methods of ParseError are interpreted once on a symbolic source and symbolic
offsets.  Texts are terms (slices of the source), numbers are linear terms over the number of
line breaks before the error (LN), the characters between the last of them and the error (COL)
and the characters of the offending text (TOKLEN).  Every path produces a sequence of printed
pieces, which has to show the line, the column, the line's text and a marker placed under the
offending text.
"""
import re
from engine import Engine, State, Domain, Prune, Unmodelled, EngineLimit, SplitVal
from wasm import last

SRC = 'SRC'
NLCH = 10
MAXLN = 10 ** 19


# ------------------------------------------------------------------ linear terms
def lin(*parts, c=0):
    d = {}
    for x in parts:
        for a, k in x[0]:
            d[a] = d.get(a, 0) + k
        c += x[1]
    return (tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)), c)


def atom(a): return (((a, 1),), 0)


def num(c): return ((), c)


def consts(x):
    """the numbers that occur in a term"""
    if isinstance(x, bool):
        return set()
    if isinstance(x, int):
        return {x}
    if isinstance(x, (tuple, list)):
        return set().union(*map(consts, x)) if x else set()
    return set()


def scale(x, k): return (tuple((a, q * k) for a, q in x[0]) if k else (), x[1] * k)


def sub(x, y): return lin(x, scale(y, -1))


def val(x): return ('i', x[1]) if not x[0] else ('n', x)


def subst_lin(x, env):
    out = num(x[1])
    for a, k in x[0]:
        out = lin(out, scale(subst_atom(a, env), k))
    return out


def subst_atom(a, env):
    if a in env:
        return env[a]
    if isinstance(a, tuple) and a[0] == 'max0':
        y = subst_lin(a[1], env)
        return y if y == a[1] is False else (num(max(0, y[1])) if not y[0] else atom(('max0', y)))
    if isinstance(a, tuple) and a[0] == 'div':
        y = subst_lin(a[1], env)
        return num(y[1] // a[2]) if not y[0] else atom(('div', y, a[2]))
    return atom(a)


def subst_val(v, env):
    """substitute inside a value"""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('n',) and len(v) == 2:
        return val(subst_lin(v[1], env))
    if v[:1] == ('line',) and len(v) == 3:
        return ('line', v[1], subst_lin(v[2], env))
    return tuple(subst_val(x, env) for x in v)


class R(Domain):
    def __init__(self, prog, name):
        Domain.__init__(self)
        self.p = prog
        self.name = name
        self.obl = 0
        self.shown = set()
        self.variants_seen = set()

    def bad(self, st, key, msg):
        self.report(st, (('R03',), '%s: %s' % (self.name, key)), msg)

    # dom state: (printed pieces, open element or None)
    def key(self, st): return st.dom

    # ---- values
    def res(self, st, v):
        for _ in range(30):
            if v[0] != 'ref':
                return v
            if v[1][0] == 'S':
                if v[1][1] == 'self.source' or v[1][1].endswith('.source'):
                    return ('t', SRC)
                return v
            v = v[1][1] if v[1][0] == 'K' and not v[2] else self.eng.load(st, v[1], v[2])
        return v

    def text(self, st, v):
        v = self.res(st, v)
        if v[0] == 't':
            return v[1]
        if v[0] in ('str', 'bytes'):
            x = v[1]
            return ('c', x if isinstance(x, str) else bytes(x).decode('utf8', 'replace'))
        if v[0] in ('sym', 'symv') and v[1].endswith('source'):
            return SRC
        return None

    def tref(self, t): return ('ref', ('K', ('t', t)), ())

    def num(self, st, v):
        v = self.res(st, v)
        if v[0] == 'n':
            return v[1]
        if v[0] == 'i':
            return num(v[1])
        if v[0] == 'sym' and re.search(r'\.(start|end)$', v[1]):
            return atom(v[1].rsplit('.', 1)[1])
        if v[0] == 'ref' and v[1][0] == 'S' and re.search(r'\.(start|end)$', v[1][1]):
            return atom(v[1][1].rsplit('.', 1)[1])
        return None

    def nonl(self, st): return st.facts.get('nonl') == 1

    def cut(self, st, t, a, b):
        """t[a..b]; a, b linear or None"""
        if t == SRC:
            a = a or num(0)
            b = b if b is not None else atom('srclen')
        elif isinstance(t, tuple) and t[0] == 'cut':
            base = t[2]
            a = lin(base, a) if a is not None else base
            b = lin(base, b) if b is not None else t[3]
            t = t[1]
        elif t in ('PRE', 'TOK', 'LASTL') and (a is not None or t != 'PRE'):
            if t == 'LASTL':
                raise Unmodelled('part of a line')
            base = num(0) if t == 'PRE' else atom('start')
            a = lin(base, a) if a is not None else base
            b = lin(base, b) if b is not None else atom('start' if t == 'PRE' else 'end')
            t = SRC
        else:
            raise Unmodelled('slice of %s' % (t,))
        if t == SRC and b == atom('start'):
            if a == lin(atom('lastnl'), c=1) or a == num(0) and self.nonl(st) or a == atom('LS'):
                return 'LASTL'
            if a == num(0):
                return 'PRE'
        if t == SRC and a == atom('start') and b == atom('end'):
            return 'TOK'
        return ('cut', t, a, b)

    def pre(self, t):
        return t

    def nls(self, t):
        return atom('LN') if t == 'PRE' else num(0) if t == 'LASTL' else atom(('nl', t))

    def chars(self, st, t):
        if t == 'LASTL' or t == 'PRE' and self.nonl(st):
            return atom('COL')
        if t == 'TOK':
            return atom('TOKLEN')
        if isinstance(t, tuple) and t[0] == 'c':
            return num(len(t[1]))
        return atom(('chars', t))

    # ---- iterators: ('it', source, filters, element)
    def elem(self, st, src):
        kind, t = src
        if kind in ('split', 'lines'):
            return self.tref(('line', src, atom('idx')))
        if kind in ('chars', 'bytes'):
            return ('ch', kind)
        return ('mk',)

    def dest(self, st, fn):
        if 'locals' in fn:
            return fn['locals'][0]
        fr = st.frames[-1]
        t = self.p.fns[fr.fid]['blocks'][fr.bb]['t']
        if t[0] == 'call' and len(t[3]) == 1:
            return self.p.fns[fr.fid]['locals'][t[3][0]]
        raise Unmodelled('place of a result')

    def opt(self, ret, name, *fs):
        for i, v in enumerate(self.p.types[ret]['variants']):
            if v['name'] == name:
                return ('adt', ret, i, tuple(fs))
        raise Unmodelled('result of %s' % name)

    def sep(self, st, v):
        v = self.res(st, v)
        if v == ('i', NLCH):
            return True
        t = self.text(st, v)
        if t == ('c', '\n'):
            return True
        raise Unmodelled('splitting at %s' % (v,))

    def call(self, st, fn, decl, args):
        full = fn['name']
        n = last(full)
        m = n.rsplit('::', 1)[-1]
        e = self.eng
        if full == getattr(self, 'delegate', None):
            return None
        a0 = self.res(st, args[0]) if args else None
        t0 = self.text(st, args[0]) if args else None
        # output
        if m in ('write_fmt', 'write_str', 'write_char', 'pad') and a0 is not None and (a0[0] == 'sym' and a0[1] == 'f' or a0 == ('ref', ('S', 'f', a0[1][2] if len(a0) > 1 and isinstance(a0[1], tuple) and len(a0[1]) > 2 else None), ())):
            self.obl += 1
            if m == 'write_fmt':
                self.out(st, self.formatted(st, args[1]))
            elif m == 'write_char':
                x = self.res(st, args[1])
                if x[0] != 'i':
                    raise Unmodelled('character')
                self.out(st, (('c', chr(x[1])),))
            else:
                self.out(st, (self.piece('display', self.text(st, args[1]), None),))
            return [(None, self.opt(self.dest(st, fn), 'Ok', ('tup', ())))]
        mm = re.search(r'fmt::rt::Argument::(new_\w+|from_usize)$', n)
        if mm:
            x = self.num(st, args[0])
            t = self.text(st, args[0])
            if x is None and t is None:
                raise Unmodelled('printed value')
            return [(None, ('arg', mm.group(1), ('num', x) if x is not None else ('text', t)))]
        if re.search(r'fmt::Arguments::new$', n):
            b = self.res(st, args[0])
            a = self.res(st, args[1])
            if a[0] not in ('arr', 'tup'):
                raise Unmodelled('format arguments')
            tpl = tuple(bytes(b[1])) if b[0] == 'bytes' else tuple(b[1].encode()) if b[0] == 'str' else tuple(x[1] for x in b[1])
            return [(None, ('fmt', tpl, tuple(self.res(st, x) for x in a[1])))]
        if re.search(r'fmt::Arguments::from_str\w*$', n):
            return [(None, ('fmts', self.text(st, args[0])))]
        if m == 'as_statically_known_str':
            return [(None, self.opt(self.dest(st, fn), 'None'))]
        if re.search(r'(^|::)fmt::format$', n):
            return [(None, ('t', ('pieces', self.formatted(st, args[0]))))]
        if m == 'must_use':
            return [(None, args[0])]
        # texts
        if t0 is not None:
            r = self.textcall(st, fn, n, m, t0, args)
            if r is not None:
                return r
        if a0 is not None and a0[0] == 'it':
            return self.itercall(st, fn, n, m, a0, args)
        if a0 is not None and a0[0] == 'rng' and m == 'next':
            if a0[2] == 0:
                raise Unmodelled('range')
            self.close(st)
            e.store(st, args[0][1], args[0][2], ('done',))
            return [(None, self.opt(self.dest(st, fn), 'None'))]
        if a0 is not None and a0[0] == 'itopen' and m == 'next':
            self.close(st)
            e.store(st, args[0][1], args[0][2], ('done',))
            return [(None, self.opt(self.dest(st, fn), 'None'))]
        if a0 is not None and a0[0] in ('itopen', 'done') and m in ('into_iter', 'by_ref'):
            return [(None, args[0])]
        if a0 is not None and a0[0] == 'done' and m == 'next':
            return [(None, self.opt(self.dest(st, fn), 'None'))]
        if m == 'next' and a0 is not None and a0[0] == 'adt' and e.short(a0[1]) == 'Range':
            lo, hi = self.num(st, a0[3][0]), self.num(st, a0[3][1])
            if lo is None or hi is None:
                raise Unmodelled('range bounds')
            k = sub(hi, lo)
            if not k[0]:
                return None
            e.store(st, args[0][1], args[0][2], ('rng', k, 1))
            self.opened(st, ('rep', k))
            return [(None, self.opt(self.dest(st, fn), 'Some', ('n', atom('k'))))]
        # numbers
        x0 = self.num(st, args[0]) if args else None
        if x0 is not None and m in ('to_string', 'spec_to_string'):
            return [(None, ('t', ('pieces', (('num', x0, None),))))]
        if x0 is not None and re.search(r'<impl u\w+>::|^core::num::|Ord|cmp::', full):
            if m in ('saturating_sub', 'saturating_add', 'wrapping_sub', 'wrapping_add') and len(args) == 2:
                y = self.num(st, args[1])
                if y is not None:
                    if m.endswith('add'):
                        return [(None, val(lin(x0, y)))]
                    d = sub(x0, y)
                    if m == 'saturating_sub':
                        return [(None, val(num(max(0, d[1])) if not d[0] else d if d[1] >= 0 and all(k > 0 for _, k in d[0]) else atom(('max0', d))))]
                    return [(None, val(d))]
            if m in ('max', 'min') and len(args) == 2:
                y = self.num(st, args[1])
                if y is not None:
                    r = self.compare(st, 'Lt', x0, y)
                    if r[0] == 'i':
                        return [(None, val(x0 if (r[1] == 1) == (m == 'min') else y))]
                    if m == 'min':
                        return [(None, val(atom(('least of', x0, y))))]
            if x0[0] and m not in ('clone', 'into', 'from'):
                raise Unmodelled('number operation ' + m)
        return None

    def textcall(self, st, fn, n, m, t, args):
        full = fn['name']
        ret = self.dest(st, fn)
        if m in ('index', 'get', 'get_unchecked') and len(args) == 2:
            r = self.res(st, args[1])
            s = self.eng.short(r[1]) if r[0] == 'adt' else None
            if s not in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull'):
                raise Unmodelled('index of a text')
            xs = [self.num(st, x) for x in r[3]]
            if any(x is None for x in xs):
                raise Unmodelled('bounds of a slice')
            a = xs[0] if s in ('Range', 'RangeFrom') else None
            b = xs[-1] if s in ('Range', 'RangeTo') else None
            self.obl += 1
            v = self.tref(self.cut(st, t, a, b))
            return [(None, self.opt(ret, 'Some', v) if m == 'get' else v)]
        if m == 'split_at' and len(args) == 2:
            x = self.num(st, args[1])
            if x is None:
                raise Unmodelled('split_at')
            return [(None, ('tup', (self.tref(self.cut(st, t, None, x)), self.tref(self.cut(st, t, x, None)))))]
        if m in ('split', 'rsplit', 'matches', 'split_terminator') and len(args) == 2 and m != 'split_terminator':
            self.sep(st, args[1])
            src = (m, t)
            return [(None, ('it', src, (), self.elem(st, (m if m != 'rsplit' else 'split', t))))]
        if m in ('lines', 'chars', 'bytes'):
            return [(None, ('it', (m, t), (), self.elem(st, (m, t))))]
        if m in ('rfind', 'find') and len(args) == 2:
            self.sep(st, args[1])
            if m == 'rfind' and t == 'PRE':
                def no(c):
                    c.facts['nonl'] = 1
                    c.facts['iv'] = (0, 0)

                def yes(c):
                    c.facts['nonl'] = 0
                    c.facts['iv'] = (1, MAXLN)
                return [(no, self.opt(ret, 'None')), (yes, self.opt(ret, 'Some', ('n', atom('lastnl'))))]
            return [(None, self.opt(ret, 'None')), (lambda c: None, self.opt(ret, 'Some', ('n', atom((m, t)))))]
        if m == 'len' and isinstance(t, tuple) and t[0] == 'pieces' and len(t[1]) == 1 and t[1][0][0] == 'num':
            return [(None, val(self.digits(st, t[1][0][1])))]
        if m == 'len':
            return [(None, val(num(len(t[1].encode())) if isinstance(t, tuple) and t[0] == 'c' else sub(t[3], t[2]) if isinstance(t, tuple) and t[0] == 'cut'
                               else atom('start') if t == 'PRE' else sub(atom('end'), atom('start')) if t == 'TOK' else atom('srclen') if t == SRC else atom(('bytes of', t))))]
        if m in ('trim_end_matches', 'trim_right_matches', 'trim_matches', 'trim_start_matches', 'strip_suffix') and len(args) == 2:
            x = self.res(st, args[1])
            if (x == ('i', 13) or self.text(st, args[1]) == ('c', '\r')) and m in ('trim_end_matches', 'trim_right_matches'):
                return [(None, self.tref(('trim', t)))]
            return [(None, self.tref(('changed', m, t)))]
        if m in ('trim_end', 'trim_right'):
            return [(None, self.tref(('trim', t)))]
        if m in ('trim', 'trim_start', 'trim_left', 'to_lowercase', 'to_uppercase'):
            return [(None, self.tref(('changed', m, t)))]
        if m == 'repeat' and len(args) == 2:
            k = self.num(st, args[1])
            if k is None or not (isinstance(t, tuple) and t[0] == 'c'):
                raise Unmodelled('repeat')
            return [(None, ('t', ('pieces', (('rep', k, (('c', t[1]),)),))))]
        if re.search(r'^(deref|as_str|as_ref|borrow|to_owned|to_string|into|from|clone|as_mut_str|into_string|to_str)$', m) and len(args) == 1:
            return [(None, self.tref(t) if self.p.types[ret]['k'] == 'ref' else ('t', t))]
        if m == 'as_bytes':
            return [(None, self.tref(t))]
        if m in ('is_empty', 'is_char_boundary', 'starts_with', 'ends_with', 'contains'):
            raise Unmodelled('question about a text: ' + m)
        return None

    def digits(self, st, x):
        lo, hi = self.range(st, x)
        if lo is not None and hi is not None and len(str(max(lo, 0))) == len(str(max(hi, 0))):
            return num(len(str(max(lo, 0))))
        if [a for a, _ in x[0]] == ['LN'] and x[0][0][1] == 1:
            self.fork(st, 10 ** len(str(max(lo, 0))) - x[1])
        return atom(('digits', x))

    def itercall(self, st, fn, n, m, it, args):
        _, src, filt, elem = it
        ret = None if m in ('collect',) else self.dest(st, fn)
        if m in ('into_iter', 'iter', 'by_ref', 'fuse', 'peekable', 'cloned', 'copied', 'deref', 'as_slice', 'as_ref'):
            if m in ('deref', 'as_slice', 'as_ref', 'by_ref'):
                return [(None, args[0])]
            return [(None, it)]
        if m in ('collect', 'to_vec'):
            return [(None, it)]
        if m == 'enumerate':
            off = num(0)
            for f in filt:
                if f[0] != 'skip':
                    raise Unmodelled('counting what a filter leaves')
                off = lin(off, f[1])
            return [(None, ('it', src, filt, ('tup', (val(sub(atom('idx'), off)), elem))))]
        if m in ('skip', 'take'):
            k = self.num(st, args[1])
            if k is None:
                raise Unmodelled(m)
            return [(None, ('it', src, filt + ((m, k),), elem))]
        if m in ('skip_while', 'take_while', 'filter', 'map'):
            clo = self.res(st, args[1])
            if clo[0] == 'fn':
                raise Unmodelled('function as a closure')
            fid = self.p.types[clo[1]]['fn']
            f = self.p.fns[fid]
            a0 = clo
            if self.p.types[f['locals'][1]]['k'] in ('ref', 'ptr'):
                a0 = ('ref', st.alloc(clo), ())
            a1 = elem
            if m != 'map':
                a1 = ('ref', st.alloc(elem), ())
            if m == 'map':
                return ('inline', fid, [a0, a1], Post(self, m, it))
            return [(None, ('it', src, filt + (({'skip_while': 'skipw', 'take_while': 'takew', 'filter': 'filter'}[m], self.table(st, fid, [a0, a1])),), elem))]
        if src[0] == 'rsplit':
            if m == 'next' and not filt:
                self.eng.store(st, args[0][1], args[0][2], ('done rsplit',))
                return [(None, self.opt(ret, 'Some', self.tref(self.lastline(src[1]))))]
            if m == 'count' and not filt:
                return [(None, val(lin(self.nls(src[1]), c=1)))]
            raise Unmodelled('reversed lines')
        if m == 'count':
            return [(None, val(self.count(st, src, filt)))]
        if m == 'last':
            if filt:
                raise Unmodelled('last of a filtered list')
            self.obl += 1
            if src[0] == 'split':
                env = {'idx': self.nls(src[1])}
                return [(None, self.opt(ret, 'Some', self.inst(elem, src, env)))]
            if src[0] == 'lines' and src[1] == 'PRE':
                outs = [(None, self.opt(ret, 'None'))]
                for empty in (0, 1):
                    def go(c, empty=empty):
                        if empty:
                            c.facts['iv'] = (max(1, self.iv(c)[0]), self.iv(c)[1])
                            c.facts['col'] = 0
                    x = sub(atom('LN'), num(1)) if empty else atom('LN')
                    v = self.inst(elem, ('split', 'PRE'), {'idx': x}) if empty else self.inst(resrc(elem, src, ('split', 'PRE')), ('split', 'PRE'), {'idx': x})
                    outs.append((go, self.opt(ret, 'Some', v)))
                return outs
            if src[0] == 'lines':
                env = {'idx': sub(atom(('lines', src[1])), num(1))}
                return [(None, self.opt(ret, 'None')), (lambda c: None, self.opt(ret, 'Some', self.inst(elem, src, env)))]
            raise Unmodelled('last')
        if m in ('index', 'nth', 'get', 'get_unchecked') and len(args) == 2 and not filt and src[0] in ('split', 'lines'):
            k = self.num(st, args[1])
            if k is None:
                raise Unmodelled('index of a line')
            v = self.inst(elem, src, {'idx': k})
            if m in ('get', 'index', 'get_unchecked') and v[0] != 'ref':
                v = ('ref', st.alloc(v), ())
            elif m in ('get', 'index', 'get_unchecked'):
                v = ('ref', ('K', v), ())
            return [(None, self.opt(ret, 'Some', v) if m in ('nth', 'get') else v)]
        if m == 'next' and src[0] in ('split', 'lines') and src[1] == SRC:
            return self.next(st, ret, it, args[0])
        if m == 'len' and not filt and src[0] in ('split', 'lines'):
            return [(None, val(lin(self.nls(src[1]), c=1) if src[0] == 'split' else atom(('lines', src[1]))))]
        raise Unmodelled('iterator operation %s over %s' % (m, src[0]))

    def lastline(self, t):
        return 'LASTL' if t in ('PRE', 'LASTL') else ('last line of', t)

    def inst(self, elem, src, env):
        v = subst_val(elem, env)

        def fix(x):
            if isinstance(x, tuple):
                if x[:1] == ('line',) and len(x) == 3 and x[1][0] == 'split' and x[2] == self.nls(x[1][1]) and x[1][1] in ('PRE', 'LASTL'):
                    return 'LASTL'
                return tuple(fix(y) for y in x)
            return x
        return fix(v)

    def count(self, st, src, filt):
        kind, t = src
        if not filt:
            if kind == 'split':
                return lin(self.nls(t), c=1)
            if kind == 'lines':
                return atom(('lines', t))
            if kind == 'chars':
                return self.chars(st, t)
            if kind == 'bytes':
                return atom(('bytes of', t))
            if kind == 'matches':
                return self.nls(t)
        if kind in ('chars', 'bytes') and len(filt) == 1 and filt[0][0] == 'filter' and filt[0][1] == ('cmpt', 'Eq', 'ch', NLCH):
            return self.nls(t)
        if kind == 'chars' and len(filt) == 1 and filt[0][0] == 'filter':
            return atom(('some of', t, repr(filt[0][1:])))
        raise Unmodelled('count')

    def table(self, st, fid, args):
        """the truth value of a condition, by the conditions of its paths"""
        col = Collect()
        s2 = st.copy()
        for k in [k for k in s2.facts if isinstance(k, tuple) and k[0] == 'cond']:
            del s2.facts[k]
        dom = R(self.p, self.name)
        eng = Engine(self.p, dom, max_states=2000)
        dom.eng = eng
        eng.push_call(s2, fid, args, None, s2.frames[-1].bb, col)
        eng.run(s2)
        if eng.unmodelled:
            raise Unmodelled('condition: %s' % sorted(eng.unmodelled)[0])
        for k, v in dom.violations.items():
            self.violations.setdefault(k, v)
        self.obl += dom.obl
        self.eng.fns_seen |= eng.fns_seen
        if not col.rows:
            raise Unmodelled('condition without an answer')
        if len(col.rows) == 1:
            return col.rows[0][2]
        return ('table', tuple(col.rows))

    # ---- the loop over the lines of the source
    def next(self, st, ret, it, where):
        _, src, filt, elem = it
        if len(it) > 4:
            raise Unmodelled('iterator')
        if 'loop' in str(st.dom[1]):
            raise Unmodelled('nested loops over the lines')
        self.window(st, src, filt)
        if src[0] == 'lines':
            self.bad(st, 'the line of the error is not shown', 'the lines that are shown do not include an empty line at the end of the source, where an error may be')
            raise Prune()
        out = []
        for cls in ('==', '<', '>'):
            env = {'idx': atom('LN')} if cls == '==' else {'idx': atom('idx' + cls)}

            def go(c, cls=cls, env=env):
                self.eng.store(c, where[1], where[2], ('itopen',))
                self.opened(c, ('loop', cls))
                return self.opt(ret, 'Some', self.inst(elem, src, env))
            out.append((go, None))
        return out

    def window(self, st, src, filt):
        try:
            self.window1(st, src, filt)
        except Unmodelled:
            if self.position(st, list(st.dom[0]), False):
                raise Prune()
            raise

    def position(self, st, out, must):
        nums = [x[1] for x in self.lines(st, [x for x in out if x[0] not in ('each', 'open')])[0] if x[0] == 'num']
        want = [lin(atom('LN'), c=1), lin(atom('COL'), c=1)]
        if self.nonl(st):
            want[0] = num(1)
        if nums != want and (nums or must):
            self.bad(st, 'position', 'the message names %s as the position instead of line %s and column %s' % (' and '.join(map(show, nums)) or 'nothing', show(want[0]), show(want[1])))
            return True

    def window1(self, st, src, filt):
        """is the line of the error among those that the loop visits?"""
        self.obl += 1
        near = {c + k for c in consts(filt) if 9 <= c <= 1 << 17 for k in range(-5, 6)}
        for ln in sorted(set(range(0, 9)) | {50} | {x for x in near if x >= 0}):
            total = ln + 4
            idxs = list(range(total))
            for f in filt:
                if f[0] == 'skip':
                    idxs = idxs[max(0, self.ev(f[1], {'LN': ln})):]
                elif f[0] == 'take':
                    idxs = idxs[:max(0, self.ev(f[1], {'LN': ln}))]
                else:
                    keep = [self.truth(f[1], {'LN': ln, 'idx': i}) for i in idxs]
                    if f[0] == 'filter':
                        idxs = [i for i, k in zip(idxs, keep) if k]
                    elif f[0] == 'takew':
                        j = keep.index(False) if False in keep else len(idxs)
                        idxs = idxs[:j]
                    elif f[0] == 'skipw':
                        j = keep.index(False) if False in keep else len(idxs)
                        idxs = idxs[j:]
            if ln not in idxs:
                self.bad(st, 'the line of the error is not shown', 'for an error on line %d, the lines that are shown (%s) do not include it' % (ln + 1, ', '.join(str(i + 1) for i in idxs) or 'none'))
                raise Prune()

    def ev(self, x, env):
        n = x[1]
        for a, k in x[0]:
            if a in env:
                n += k * env[a]
            elif isinstance(a, tuple) and a[0] == 'max0':
                n += k * max(0, self.ev(a[1], env))
            elif isinstance(a, tuple) and a[0] == 'div':
                n += k * (self.ev(a[1], env) // a[2])
            else:
                raise Unmodelled('window depends on %s' % (a,))
        return n

    def truth(self, p, env):
        if p[0] == 'i':
            return bool(p[1])
        if p[0] == 'table':
            for (lo, hi), conds, v in p[1]:
                if lo <= env['LN'] <= hi and all(self.truth(k, env) == bool(x) for k, x in conds):
                    return self.truth(v, env)
            raise Unmodelled('condition')
        if p[0] == 'not':
            return not self.truth(p[1], env)
        if p[0] == 'and':
            return all(self.truth(x, env) for x in p[1])
        if p[0] == 'cmpt':
            a, b = self.ev(p[2], env), self.ev(p[3], env)
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[p[1]]
        raise Unmodelled('condition')

    # ---- output
    def out(self, st, ps):
        o, op = st.dom
        st.dom = (o + tuple(x for x in ps if x != ('c', '')), op)
        if len(st.dom[0]) > 200:
            raise Unmodelled('too much output')

    def snap(self, st):
        return tuple(tuple(fr.loc.items()) for fr in st.frames)

    def carried(self, st, what):
        """a variable of the enclosing code changed by the loop would differ in the next round"""
        for fr, old in zip(st.frames, what[-1]):
            for k, v in old:
                n = fr.loc.get(k)
                if n is not None and n != v and not (n[0] in ('itopen', 'rng', 'done') or v[0] in ('it', 'adt')):
                    raise Unmodelled('variable changed by a loop over the lines')

    def opened(self, st, what):
        o, op = st.dom
        what = what + (self.snap(st),)
        st.dom = (o + (('open', what),), op + (what,))

    def close(self, st):
        o, op = st.dom
        i = max(j for j, x in enumerate(o) if x[0] == 'open')
        what = o[i][1]
        self.carried(st, what)
        body = o[i + 1:]
        st.dom = (o[:i] + (((('rep', what[1], body) if what[0] == 'rep' else ('each', what[1], body))),), op[:-1])

    def piece(self, kind, t, width):
        if t is None:
            raise Unmodelled('printed value')
        if isinstance(t, tuple) and t[0] == 'c' and width is None:
            return t
        return ('text', t, width)

    def formatted(self, st, v):
        v = self.res(st, v)
        if v[0] == 'fmts':
            return (v[1],)
        if v[0] != 'fmt':
            raise Unmodelled('format arguments ' + v[0])
        b, args = v[1], v[2]
        out = []
        i, nxt = 0, 0

        def le(k):
            nonlocal i
            x = int.from_bytes(bytes(b[i:i + k]), 'little')
            i += k
            return x
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80 or c == 0x80:
                k = c if c < 0x80 else le(2)
                out.append(('c', bytes(b[i:i + k]).decode('utf8', 'replace')))
                i += k
                continue
            flags = le(4) if c & 1 else 0xE0000020
            width = le(2) if c & 2 else None
            prec = le(2) if c & 4 else None
            if c & 8:
                nxt = le(2)
            if c & 16:
                width = self.argnum(args[width])
            elif width is not None:
                width = num(width)
            if prec is not None:
                raise Unmodelled('precision')
            a = args[nxt]
            nxt += 1
            _, kind, (what, x) = a
            if kind != 'new_display':
                if what == 'num' and kind == 'new_debug':
                    pass
                else:
                    out.append(('text', ('changed', kind, x), None))
                    continue
            fill = chr(flags & 0x1FFFFF)
            if width is not None and (fill != ' ' or flags & 0x01200000):
                raise Unmodelled('padding')
            if what == 'num':
                out.append(('num', x, width))
            elif isinstance(x, tuple) and x[0] == 'pieces':
                if width is not None:
                    raise Unmodelled('padding of a text')
                out += x[1]
            elif isinstance(x, tuple) and x[0] == 'c' and width is not None and not x[1]:
                out.append(('rep', width, (('c', ' '),)))
            else:
                out.append(self.piece('display', x, width))
        return tuple(out)

    def argnum(self, a):
        if a[2][0] != 'num':
            raise Unmodelled('width')
        return a[2][1]

    # ---- arithmetic
    def iv(self, st): return st.facts.get('iv', (0, MAXLN))

    def binop(self, st, op, a, b, ty):
        a, b = self.res(st, a), self.res(st, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ch' and y[0] == 'i' and op in ('Eq', 'Ne'):
                v = ('cmpt', 'Eq', 'ch', y[1])
                return v if op == 'Eq' else ('not', v)
        x, y = self.num(st, a), self.num(st, b)
        if x is None or y is None or not (x[0] or y[0]):
            return None
        if op == 'Add':
            return val(lin(x, y))
        if op == 'Sub':
            d = sub(x, y)
            if {a for a, _ in d[0]} != {'idx>', 'LN'}:
                lo, hi = self.range(st, d)
                if lo is not None and lo < 0:
                    self.bad(st, 'panic', 'printing an error may panic: %s goes below zero' % show(d))
                    if hi is not None and hi < 0:
                        raise Prune()
            return val(d)
        if op == 'Mul' and (not x[0] or not y[0]):
            return val(scale(x, y[1]) if not y[0] else scale(y, x[1]))
        if op == 'Div' and not y[0] and y[1] > 0:
            if y[1] > MAXLN or len(x[0]) == 1 and isinstance(x[0][0][0], tuple) and x[0][0][0][0] == 'div' and x[0][0][0][2] * y[1] > MAXLN * 10:
                return ('i', 0)
            if len(x[0]) == 1 and x[1] == 0 and x[0][0][1] == 1 and isinstance(x[0][0][0], tuple) and x[0][0][0][0] == 'div':
                d = x[0][0][0]
                return ('n', atom(('div', d[1], d[2] * y[1])))
            return ('n', atom(('div', x, y[1])))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, op, x, y)
        raise Unmodelled('arithmetic ' + op)

    def compare(self, st, op, x, y):
        if op in ('Ne', 'Ge', 'Gt'):
            r = self.compare(st, {'Ne': 'Eq', 'Ge': 'Lt', 'Gt': 'Le'}[op], x, y)
            return ('i', 1 - r[1]) if r[0] == 'i' else ('not', r)
        if op == 'Le':
            return self.compare(st, 'Lt', x, lin(y, c=1))
        d = sub(x, y)       # Lt: d < 0, Eq: d == 0
        # the position of another line relative to that of the error
        at = {a for a, _ in d[0]}
        if at == {'idx<', 'LN'} or at == {'idx>', 'LN'}:
            k = dict(d[0])
            o = 'idx<' if 'idx<' in at else 'idx>'
            if k[o] == -k['LN'] and abs(k[o]) == 1:
                # o - LN is <= -1 or >= 1
                lo, hi = (None, -1) if o == 'idx<' else (1, None)
                if k[o] == -1:
                    lo, hi = (-hi if hi is not None else None), (-lo if lo is not None else None)
                return self.decide(op, lo, hi, d[1]) or ('cmpt', op, x, y)
        lo, hi = self.range(st, d)
        r = self.decide(op, lo, hi, 0)
        if r is not None:
            return r
        if at == {'LN'} and dict(d[0])['LN'] == 1:
            # d < 0  <=>  LN < -c
            th = -d[1]
            if op == 'Lt':
                self.fork(st, th)
        if len(at) == 1 and isinstance(next(iter(at)), tuple) and next(iter(at))[0] == 'div' and d[0][0][1] == 1 and op in ('Lt', 'Eq'):
            dv = next(iter(at))
            if [a for a, _ in dv[1][0]] == ['LN'] and dv[1][0][0][1] == 1:
                # LN + c >= k * divisor
                bound = -d[1]
                th = bound * dv[2] - dv[1][1]
                if op == 'Lt' or bound == 0:
                    self.fork(st, th if op == 'Lt' else dv[2] - dv[1][1])
        return ('cmpt', op, x, y)

    def fork(self, st, th):
        """split at LN < th"""
        lo, hi = self.iv(st)
        if lo < th <= hi:
            def low(c): c.facts['iv'] = (lo, th - 1)

            def high(c): c.facts['iv'] = (th, hi)
            raise SplitVal([low, high])

    def decide(self, op, lo, hi, c):
        lo = lo + c if lo is not None else None
        hi = hi + c if hi is not None else None
        if op == 'Lt':
            if hi is not None and hi < 0:
                return ('i', 1)
            if lo is not None and lo >= 0:
                return ('i', 0)
        else:
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return ('i', 0)
            if lo == hi == 0:
                return ('i', 1)
        return None

    def range(self, st, x):
        lo = hi = x[1]
        for a, k in x[0]:
            if a == 'LN':
                l, h = self.iv(st)
            elif isinstance(a, tuple) and a[0] == 'div':
                l, h = self.range(st, a[1])
                l, h = (l // a[2] if l is not None else None), (h // a[2] if h is not None else None)
            else:
                l, h = 0, None
            if k < 0:
                l, h = h, l
            lo = lo + k * l if lo is not None and l is not None else None
            hi = hi + k * h if hi is not None and h is not None else None
        return lo, hi

    def assert_unknown(self, st, msg, v, exp): pass

    def switch(self, st, v, br, other):
        if v[0] == 'cmpt':
            k = ('cond', v)
            outs = []
            got = st.facts.get(k)
            for x in (0, 1):
                if got is not None and got != x:
                    continue
                tgt = other
                for b, bb in br:
                    if b == x:
                        tgt = bb
                        break
                outs.append(((lambda c, x=x: c.facts.__setitem__(k, x)), tgt))
            return outs
        return None

    # ---- the result
    def ret(self, st, v):
        self.obl += 1
        var = self.variant(st)
        self.variants_seen.add(var)
        out = list(st.dom[0])
        if var == 'UnexpectedEndOfProgram':
            if not out or any(x[0] != 'c' for x in out):
                self.bad(st, 'end of program', 'the message for an unexpected end is %s' % self.showp(out))
            return
        if var != 'UnexpectedToken':
            raise Unmodelled('error of kind %s' % var)
        if self.nonl(st):
            out = self.subst_nonl(out)
        lines = self.lines(st, [x for x in out if x[0] != 'each'])
        self.position(st, out, True)
        each = [x for x in out if x[0] == 'each']
        if len(each) > 1:
            raise Unmodelled('several loops over the lines')
        if each:
            cls = each[0][1]
            self.shown.add(cls)
            body = self.lines(st, list(each[0][2]))
            self.body(st, cls, body)
        else:
            # printed without a loop
            self.shown.add('==')
            i = [k for k, l in enumerate(lines) if any(x[0] == 'text' and self.isline(st, x[1], atom('LN')) for x in l)]
            if not i:
                self.bad(st, 'the line of the error is not shown', 'no line of the message shows the line of the error')
                return
            self.marked_line(st, lines, i[0])

    def subst_nonl(self, out):
        env = {'LN': num(0)}
        return [subst_piece(x, env) for x in out]

    def isline(self, st, t, idx):
        while isinstance(t, tuple) and t[0] == 'trim':
            t = t[1]
        return isinstance(t, tuple) and t[0] == 'line' and t[1][1] == SRC and (t[2] == idx or self.nonl(st) and t[2] == num(0) and idx == atom('LN'))

    def body(self, st, cls, body):
        idx = atom('LN') if cls == '==' else atom('idx' + cls)
        at = [k for k, l in enumerate(body) if any(x[0] == 'text' and self.isline(st, x[1], idx) for x in l)]
        if not at:
            self.bad(st, 'source line missing', 'a line %s that of the error is shown as %s' % ({'==': 'equal to', '<': 'before', '>': 'after'}[cls], self.showp([x for l in body for x in l])))
            return
        if cls == '==':
            self.marked_line(st, body, at[0])
            return
        nums = [x[1] for x in body[at[0]] if x[0] == 'num']
        if nums and nums[0] != lin(idx, c=1):
            self.bad(st, 'number of another line', 'a line next to that of the error is numbered %s instead of %s' % (show(nums[0]), show(lin(idx, c=1))))
        if any('^' in repr(x) for l in body for x in l):
            self.bad(st, 'marker under another line', 'a line other than that of the error is marked')

    def marked_line(self, st, lines, k):
        self.obl += 3
        l = lines[k]
        j = [i for i, x in enumerate(l) if x[0] == 'text' and x[1] not in ('TOK',)][0]
        nums = [x[1] for x in l[:j] if x[0] == 'num']
        want = num(1) if self.nonl(st) else lin(atom('LN'), c=1)
        if nums and nums[0] != want:
            self.bad(st, 'number of the line', 'the line of the error is numbered %s instead of %s' % (show(nums[0]), show(want)))
        if j + 1 < len(l):
            raise Unmodelled('text after the line')
        pre = self.width(st, l[:j])
        if k + 1 >= len(lines):
            self.bad(st, 'no marker', 'no marker follows the line of the error')
            return
        mk = lines[k + 1]
        # spaces, then the marker
        i = len(mk)
        cut = None
        for q, x in enumerate(mk):
            if x[0] == 'rep' and not re.match(r"^\s*$", ''.join(y[1] if y[0] == 'c' else 'x' for y in x[2])) and x[1][0]:
                cut = q
                break
        if cut is None:
            self.bad(st, 'no marker', 'no marker of the length of the offending text follows the line of the error: %s' % self.showp(mk))
            return
        left = self.width(st, mk[:cut])
        want = lin(pre, atom('COL'))
        if left != want:
            self.bad(st, 'place of the marker', 'the marker begins in column %s and not in column %s, where the offending text is' % (show(left), show(want)))
        ln = scale(mk[cut][1], sum(len(y[1]) for y in mk[cut][2]))
        if ln != atom('TOKLEN'):
            self.bad(st, 'length of the marker', 'the marker is %s long instead of %s' % (show(ln), show(atom('TOKLEN'))))

    def width(self, st, ps):
        w = num(0)
        for x in ps:
            if x[0] == 'c':
                w = lin(w, num(len(x[1])))
            elif x[0] == 'rep':
                w = lin(w, scale(x[1], sum(len(y[1]) for y in x[2])) if all(y[0] == 'c' for y in x[2]) else atom(('width', x)))
            elif x[0] == 'num':
                if x[2] is None:
                    w = lin(w, atom(('digits', x[1])))
                elif not x[2][0]:
                    lo, hi = self.range(st, x[1])
                    if hi is None or len(str(hi)) > x[2][1]:
                        w = lin(w, atom(('digits', x[1], x[2])))
                    else:
                        w = lin(w, x[2])
                else:
                    raise Unmodelled('width')
            elif x[0] == 'text':
                w = lin(w, atom(('width', x)))
            else:
                raise Unmodelled('piece ' + x[0])
        return w

    def lines(self, st, ps):
        out = [[]]
        for x in ps:
            if x[0] == 'c':
                parts = x[1].split('\n')
                for q, s in enumerate(parts):
                    if q:
                        out.append([])
                    if s:
                        out[-1].append(('c', s))
            else:
                out[-1].append(x)
        return out

    def showp(self, ps):
        return ' '.join(x[1] if x[0] == 'c' else '{%s}' % (show(x[1]) if x[0] in ('num', 'rep') else x[1],) for x in ps)[:200]

    def variant(self, st):
        for k, f in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'self' and isinstance(f, frozenset) and isinstance(k[1], int):
                names = [v['name'] for v in self.p.types[k[1]]['variants']]
                if len(f) == 1:
                    return names[next(iter(f))]
        return None

    def panic(self, st, what, where):
        self.bad(st, 'panic', 'printing an error may panic: %s' % what)

    def drop(self, st, t): return None

    def unknown_call(self, st, fn, args):
        raise Unmodelled('call of ' + fn['name'][:140])


def resrc(v, a, b):
    if v == a:
        return b
    return tuple(resrc(x, a, b) for x in v) if isinstance(v, tuple) else v


def subst_piece(x, env):
    if x[0] == 'num':
        return ('num', subst_lin(x[1], env), x[2])
    if x[0] == 'rep':
        return ('rep', subst_lin(x[1], env), tuple(subst_piece(y, env) for y in x[2]))
    if x[0] == 'each':
        return ('each', x[1], tuple(subst_piece(y, env) for y in x[2]))
    if x[0] == 'text':
        return ('text', subst_val(x[1], env), x[2])
    return x


def show(x):
    if x is None:
        return '?'
    parts = [('%s' % (a if isinstance(a, str) else a,) if k == 1 else '%d*%s' % (k, a)) for a, k in x[0]]
    if x[1] or not parts:
        parts.append(str(x[1]))
    return '+'.join(parts)


class Post:
    def __init__(self, d, m, it):
        self.d, self.m, self.it = d, m, it

    def roots(self): return ()

    def __call__(self, eng, st, v):
        _, src, filt, elem = self.it
        if self.m == 'map':
            t = self.d.text(st, v)
            if t is not None:
                v = self.d.tref(t)
            elif v[0] not in ('tup', 'n', 'i'):
                raise Unmodelled('mapped value ' + v[0])
            return ('it', src, filt, v)
        raise Unmodelled('iterator')


class Collect:
    def __init__(self): self.rows = []

    def roots(self): return ()

    def __call__(self, eng, st, v):
        v = eng.dom.res(st, v)
        if v[0] not in ('i', 'cmpt', 'not'):
            raise Unmodelled('condition ' + v[0])
        conds = tuple(sorted(((k[1], x) for k, x in st.facts.items() if isinstance(k, tuple) and k[0] == 'cond'), key=repr))
        self.rows.append((st.facts.get('iv', (0, MAXLN)), conds, v))
        raise Prune()


def run_all(prog):
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}
    for nm in ('Display', 'Debug'):
        fs = prog.find(r'^<ratel::error::ParseError as std::fmt::%s>::fmt$' % nm)
        if not fs:
            continue
        f = fs[0]
        fid = f['id']
        dom = R(prog, nm)
        eng = Engine(prog, dom, max_states=20000)
        dom.eng = eng
        st = State()
        st.dom = ((), ())
        un = []
        t1 = prog.types[f['locals'][1]]['elem']
        t2 = prog.types[f['locals'][2]]['elem']
        try:
            eng.push_call(st, fid, [('ref', ('S', 'self', t1), ()), ('ref', ('S', 'f', t2), ())], None, None)
            eng.run(st)
        except (Unmodelled, EngineLimit) as e:
            un.append('%s: %s' % (nm, e))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            import os
            if os.environ.get('TRACE'):
                raise
            un.append('%s: construct outside of the analysis (%s: %s)' % (nm, type(e).__name__, e))
        un += ['%s: unmodelled %s' % (nm, u) for u in eng.unmodelled]
        if not un and not dom.violations:
            for v in ('UnexpectedEndOfProgram', 'UnexpectedToken'):
                if v not in dom.variants_seen:
                    dom.bad(st, 'no message for ' + v, 'no path prints the error %s' % v)
            if '==' not in dom.shown:
                dom.bad(st, 'the line of the error is not shown', 'no path shows the line of the error')
        res['violations'].update(dom.violations)
        res['unanalysed'] += un
        res['functions'] |= {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}
        res['obligations'] += dom.obl
        res['states'] += eng.nstates
        res['roots'] += 1
        res['labels'].append(nm)
    return res


if __name__ == '__main__':
    import facts
    import time
    from engine import Prog
    t = time.time()
    r = run_all(Prog(facts.extract('harness')))
    for x, v in sorted(r['violations'].items()):
        print('VIOL', x, '|', v['msg'][:600])
    for u in r['unanalysed']:
        print('UNAN', u[:400])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), r['labels'], time.time() - t)
