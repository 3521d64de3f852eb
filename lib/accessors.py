"""The small functions through which the parser looks at the tokenizer.

The parser's analysis replaces them by contracts; here each is shown to satisfy its
contract: which text, which position, whether the tokenizer is advanced, and how often.
"""
import re
from engine import Engine, State, Domain, Prune, Unmodelled, EngineLimit, Frame, segments

EOP = 'EndOfProgram'


class AC(Domain):
    def __init__(self, prog, name, tid, props):
        Domain.__init__(self)
        self.p = prog
        self.name = name
        self.lid = tid
        self.props = props
        self.obl = 0
        self.fields = prog.types[tid]['variants'][0]['fields']

    def bad(self, st, key, msg):
        self.report(st, (self.props, '%s: %s' % (self.name, key)), '%s: %s' % (self.name, msg))

    def roots(self, st): return (self.lex,)

    def vals(self, gen):
        return tuple(('sym', '%s%d' % (n, 0 if n in ('ptr', 'arena') else gen), t) for n, t in self.fields)

    def fresh(self, st):
        st.dom = st.dom + 1
        if st.dom > 3:
            raise Prune()
        st.heap[self.lex] = ('adt', self.lid, 0, self.vals(st.dom))

    def call(self, st, fn, decl, args):
        n = fn['name']
        if re.search(r'^ratel::lexer::Lexer::<.*>::(consume|scan)$', n):
            self.fresh(st)
            return [(None, ('tup', ()))]
        if re.search(r'ptr::(?:const|mut)_ptr::<impl \*(?:const|mut) .*>::(add|offset)$', n):
            return [(None, ('srcptr', args[0], args[1]))]
        if re.search(r'slice::(raw::)?from_raw_parts(::|$)', n):
            return [(None, ('ref', ('K', ('text', args[0], args[1])), ()))]
        if args and self.istext(args[0]) and re.search(r'from_utf8_unchecked$|to_owned$|to_string$|into_boxed_str$|::from$|::into$|String.*from', n):
            return [(None, args[0])]
        # a text taken apart
        last = segments(n)[-1]
        if args and self.istext(args[0]) and re.search(r'<impl str>::', n):
            if last in ('chars', 'bytes', 'char_indices', 'as_bytes'):
                return [(None, ('pieces', last, args[0]))] if last != 'as_bytes' else None
            if re.match(r'trim\w*$|to_\w*case$|replace\w*$|split\w*$|rsplit\w*$|lines$|repeat$|strip_\w+$', last):
                return [(None, ('altered', last))]
        if args and args[0][0] == 'pieces' and 'Iterator' in n:
            if last == 'collect' and args[0][1] == 'chars' and 'String' in n:
                return [(None, args[0][2])]
            if last in ('into_iter', 'by_ref', 'iter') :
                return [(None, args[0])]
            if last in ('take', 'skip', 'filter', 'map', 'rev', 'take_while', 'skip_while', 'step_by', 'collect', 'filter_map', 'flat_map', 'last', 'next', 'nth'):
                return [(None, ('altered', last))]
        if args and args[0][0] == 'altered':
            return [(None, args[0])]
        return None

    def istext(self, v):
        return v[0] == 'text' or (v[0] == 'ref' and v[1][0] == 'K' and isinstance(v[1][1], tuple) and v[1][1][0] == 'text')

    def binop(self, st, op, a, b, ty):
        if op == 'Sub' and a[0] == 'sym' and b[0] == 'sym':
            return ('minus', a, b)
        return None

    def intcast(self, st, v, t):
        if v[0] == 'sym':
            return ('truncated', v) if self.eng.narrowed(t) else v
        return None

    def s(self, v):
        if v[0] == 'sym':
            return {'token_start0': 'start', 'index0': 'end', 'accessor_start0': 'name', 'token0': 'token', 'asi0': 'asi', 'quasi0': 'quasi'}.get(v[1], v[1])
        if v[0] == 'text':
            p, l = v[1], v[2]
            if p[0] == 'srcptr' and p[1][0] == 'sym' and p[1][1] == 'ptr0' and l[0] == 'minus' and l[2] == p[2]:
                return 'source[%s..%s]' % (self.s(p[2]), self.s(l[1]))
            return 'another piece of the source'
        if v[0] == 'tup':
            return '(%s)' % ', '.join(self.s(x) for x in v[1])
        if v[0] == 'adt':
            vs = self.p.types[v[1]]['variants']
            var = vs[v[2]]
            if len(vs) == 1:
                return '{%s}' % ', '.join('%s: %s' % (f[0], self.s(x)) for f, x in zip(var['fields'], v[3]))
            if not v[3]:
                return var['name']
        if v[0] == 'ref' and v[1][0] == 'K':
            return self.s(v[1][1])
        if v[0] == 'ref':
            return self.s(self.eng.load(self.now, v[1], v[2]))
        if v[0] == 'i':
            return str(v[1])
        return v[0]

    def ret(self, st, val):
        self.obl += 1
        self.now = st
        want, adv = SPECS[self.name][:2]
        got = self.s(val)
        tokt = [t for n, t in self.fields if n == 'token'][0]
        names = [x['name'] for x in self.p.types[tokt]['variants']]
        f = st.facts.get(('token0', tokt))
        toks = set(names) if f is None else {names[i] for i in f}
        if want == 'error':
            for part, w in (('token', 'token'), ('raw', 'source[start..end]'), ('start', 'start'), ('end', 'end')):
                m = re.search(r'\b%s: ([^,}]*)' % part, got)
                g = m.group(1) if m else 'absent'
                if g != w and not (part == 'token' and toks == {g}):
                    self.bad(st, '%s is %s' % (part, g), 'the %s of the error is %s' % (part, g))
            if toks == {EOP}:
                if st.dom:
                    self.bad(st, 'advances at the end', 'the tokenizer is advanced beyond the end of the program')
            elif EOP in toks and st.dom and len(toks) > 1:
                pass
            elif st.dom != 1:
                self.props_bad(st, 'advances %d times' % st.dom)
            return
        if want is not None and got != want and not (want == 'asi' and got in self.asi_of(st)):
            self.bad(st, 'returns %s' % got[:60], 'returns %s instead of %s' % (got[:80], want))
        if st.dom != adv:
            self.bad(st, 'advances %d times' % st.dom, 'the tokenizer is advanced %d times instead of %s' % (st.dom, adv))

    def asi_of(self, st):
        at = [t for n, t in self.fields if n == 'asi'][0]
        f = st.facts.get(('asi0', at))
        vs = self.p.types[at]['variants']
        return {vs[next(iter(f))]['name']} if f is not None and len(f) == 1 else set()

    def props_bad(self, st, k):
        self.report(st, (('S01', 'S02'), '%s: %s' % (self.name, k)), '%s: the tokenizer is advanced %s' % (self.name, k))

    def panic(self, st, what, where):
        self.bad(st, 'panics', 'may panic: %s' % what)

    def drop(self, st, t): return None


SPECS = {
    'token_as_str': ('source[start..end]', 0, ('L03', 'L04', 'S05')),
    'accessor_as_str': ('source[name..end]', 0, ('L03', 'S04')),
    'loc': ('(start, end)', 0, ('S06',)),
    'start': ('start', 0, ('S06',)),
    'end': ('end', 0, ('S06',)),
    'start_then_consume': ('start', 1, ('S06',)),
    'end_then_consume': ('end', 1, ('S06',)),
    'asi': ('asi', 0, ('L05', 'S07')),
    'invalid_token': ('error', None, ('E01',)),
}


def run_all(prog):
    out = {'violations': {}, 'unanalysed': [], 'obligations': 0, 'states': 0, 'functions': set(), 'roots': 0, 'labels': []}
    for name, (want, adv, props) in SPECS.items():
        fs = prog.find(r'^ratel::lexer::Lexer::<.*>::%s$' % name)
        if not fs:
            continue
        fn = fs[0]
        tid = prog.types[fn['locals'][1]]['elem']
        dom = AC(prog, name, tid, props)
        eng = Engine(prog, dom)
        st = State()
        dom.lex = st.alloc(('adt', tid, 0, dom.vals(0)))
        st.dom = 0
        st.frames.append(Frame(fn['id'], 0, {1: ('ref', dom.lex, ())}, None, None))
        try:
            eng.run(st)
            out['unanalysed'] += ['%s: unmodelled %s' % (name, u) for u in eng.unmodelled]
        except (Unmodelled, EngineLimit) as e:
            out['unanalysed'].append('%s: %s' % (name, e))
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            out['unanalysed'].append('%s: construct outside of the analysis (%s: %s)' % (name, type(e).__name__, e))
        out['violations'].update(dom.violations)
        out['obligations'] += dom.obl
        out['states'] += eng.nstates
        out['functions'] |= {prog.fns[x]['name'] for x in eng.fns_seen} | {fn['name']}
        out['roots'] += 1
        out['labels'].append('contract of ' + name)
    return out


if __name__ == '__main__':
    import facts
    from engine import Prog
    r = run_all(Prog(facts.extract('harness')))
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:200])
    for u in r['unanalysed']:
        print('UNAN', u[:250])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']))
