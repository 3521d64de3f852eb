"""The operator table: what every public function of OperatorKind answers for every operator.

Each function is interpreted once for every operator (from_token: for every token); on every path
the answer has to be the one that the language gives for the operator.  The binding powers are
compared with each other: how they are numbered is left to the code.
"""
import re
from engine import Engine, State, Domain, Unmodelled, EngineLimit

# level of precedence, operators by their spelling; a unary plus or minus has no kind of its own
LEVELS = [
    ['='] + [x + '=' for x in '+ - ** * / % << >> >>> & ^ |'.split()], ['?'], ['||'], ['&&'], ['|'], ['^'], ['&'],
    ['==', '!=', '===', '!=='], ['<', '<=', '>', '>=', 'in', 'instanceof'], ['<<', '>>', '>>>'], ['+', '-'], ['*', '/', '%'],
    ['!', '~', 'typeof', 'void', 'delete'], ['++', '--'], ['new'],
]
PREFIX = set('! ~ typeof void delete new ... ++ -- + -'.split())
ASSIGN = set(LEVELS[0])
INFIX = {x for l in LEVELS[:12] for x in l} | {'**', '=>'}
NAMES = {
    'FatArrow': '=>', 'New': 'new', 'Increment': '++', 'Decrement': '--', 'LogicalNot': '!', 'BitwiseNot': '~', 'Typeof': 'typeof', 'Void': 'void', 'Delete': 'delete',
    'Multiplication': '*', 'Division': '/', 'Remainder': '%', 'Exponent': '**', 'Addition': '+', 'Subtraction': '-', 'BitShiftLeft': '<<', 'BitShiftRight': '>>',
    'UBitShiftRight': '>>>', 'Lesser': '<', 'LesserEquals': '<=', 'Greater': '>', 'GreaterEquals': '>=', 'Instanceof': 'instanceof', 'In': 'in', 'StrictEquality': '===',
    'StrictInequality': '!==', 'Equality': '==', 'Inequality': '!=', 'BitwiseAnd': '&', 'BitwiseXor': '^', 'BitwiseOr': '|', 'LogicalAnd': '&&', 'LogicalOr': '||',
    'Conditional': '?', 'Assign': '=', 'AddAssign': '+=', 'SubtractAssign': '-=', 'ExponentAssign': '**=', 'MultiplyAssign': '*=', 'DivideAssign': '/=',
    'RemainderAssign': '%=', 'BSLAssign': '<<=', 'BSRAssign': '>>=', 'UBSRAssign': '>>>=', 'BitAndAssign': '&=', 'BitXorAssign': '^=', 'BitOrAssign': '|=', 'Spread': '...',
}


def category(s):
    return 'Word' if s[0].isalpha() else {'+': 'Plus', '++': 'Plus', '-': 'Minus', '--': 'Minus'}.get(s, 'Safe')


class OP(Domain):
    def __init__(self, prog, label):
        Domain.__init__(self)
        self.p = prog
        self.label = label
        self.answers = []
        self.obl = 0

    def key(self, st): return ()

    def call(self, st, fn, decl, args):
        if re.search(r'slice::<impl \[.*\]>::contains(::<.*>)?$', fn['name']):
            v = args[0]
            try:
                while v[0] in ('ref', 'slice') and v[0] == 'ref':
                    v = self.eng.load(st, v[1], v[2])
                if v[0] == 'arr':
                    x = self.plain(st, args[1])
                    return [(None, ('i', int(any(self.plain(st, y) == x for y in v[1]))))]
            except Unmodelled:
                pass
            raise Unmodelled('search in a list')
        return None

    def panic(self, st, what, where):
        self.report(st, self.label + ': panics', '%s may panic: %s' % (self.label, what))

    def plain(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 6:
            v = self.eng.load(st, v[1], v[2])
            n += 1
        if v[0] == 'i':
            return v[1]
        if v[0] == 'str':
            return v[1]
        if v[0] == 'bytes':
            return bytes(v[1]).decode('utf8', 'replace')
        if v[0] == 'adt':
            t = self.p.types[v[1]]
            return (t['variants'][v[2]]['name'],) + tuple(self.plain(st, x) for x in v[3])
        if v[0] in ('sym', 'symv') and (v[1], v[2]) in st.facts and len(st.facts[v[1], v[2]]) == 1:
            return (self.p.types[v[2]]['variants'][min(st.facts[v[1], v[2]])]['name'],)
        raise Unmodelled('answer that is not a constant: %s' % (v[:2],))

    def ret(self, st, val):
        self.obl += 1
        self.answers.append((st, self.plain(st, val)))


def ask(prog, f, tid, vi, label):
    """every answer of f for one variant"""
    dom = OP(prog, label)
    eng = Engine(prog, dom)
    st = State()
    st.dom = ()
    st.facts[('o', tid)] = frozenset((vi,))
    un = []
    t = f['locals'][1]
    try:
        eng.push_call(st, f['id'], [('ref', ('S', 'o', tid), ()) if prog.types[t]['k'] == 'ref' else ('sym', 'o', tid)], None, None)
        eng.run(st)
        un = ['%s: unmodelled %s' % (label, u) for u in eng.unmodelled]
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (label, e)]
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        un = ['%s: construct outside of the analysis (%s: %s)' % (label, type(e).__name__, e)]
    if len({a for _, a in dom.answers}) > 1:
        un.append(label + ': the answer depends on something that is not followed')
        dom.answers = []
    if not un and not dom.answers and not dom.violations:
        un = [label + ': no answer']
    return dom, eng, un


def run_all(prog):
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}
    find = lambda n: [f for f in prog.find(r'::OperatorKind::%s(::<.*>)?$' % n) if f.get('locals') and f['name'].startswith('ratel::')]
    kinds = tokens = None
    for t, ty in enumerate(prog.types):
        if ty and ty['k'] == 'adt' and ty['name'].startswith('ratel::'):
            kinds = t if ty['name'].endswith('::OperatorKind') else kinds
            tokens = t if ty['name'].endswith('::Token') else tokens
    if kinds is None or tokens is None:
        res['unanalysed'].append('the operators were not found')
        return res
    names = [v['name'] for v in prog.types[kinds]['variants']]
    for n in names:
        if n not in NAMES:
            res['unanalysed'].append('unknown operator ' + n)
    SHOULD = {'prefix': lambda s: int(s in PREFIX), 'infix': lambda s: int(s in INFIX), 'assignment': lambda s: int(s in ASSIGN), 'as_str': lambda s: s, 'category': lambda s: (category(s),)}
    power = {}

    def take(dom, eng, un):
        res['violations'].update(dom.violations)
        res['unanalysed'] += un
        res['obligations'] += dom.obl
        res['states'] += eng.nstates
        res['functions'] |= {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}

    for fn in ('as_str', 'prefix', 'infix', 'assignment', 'category', 'binding_power'):
        fs = find(fn)
        if not fs:
            continue            # a function that is gone gives no wrong answer
        res['roots'] += 1
        res['labels'].append(fn)
        for vi, name in enumerate(names):
            if name not in NAMES:
                continue
            s = NAMES[name]
            dom, eng, un = ask(prog, fs[0], kinds, vi, '%s of %s' % (fn, name))
            for st, a in dom.answers:
                if fn == 'binding_power':
                    power.setdefault(s, {})[a] = (dom, st)
                elif a != SHOULD[fn](s):
                    show = lambda x: x[0] if isinstance(x, tuple) else repr(x) if isinstance(x, str) else ('false', 'true')[x] if x in (0, 1) else x
                    dom.report(st, '%s of %s' % (fn, name), '%s answers %s for the operator %s, which has to be %s' % (fn, show(a), s, show(SHOULD[fn](s))))
            take(dom, eng, un)
    # precedence: the same within a level, rising from level to level
    def rel(x, y, ok, what):
        for a, (dom, st) in power.get(x, {}).items():
            for b in power.get(y, {}):
                res['obligations'] += 1
                if not ok(a, b):
                    dom.report(st, 'binding power of %s and %s' % (x, y), 'the operators %s and %s have binding powers %s and %s; %s' % (x, y, a, b, what))
                    res['violations'].update(dom.violations)
    for i, l in enumerate(LEVELS):
        for y in l[1:]:
            rel(l[0], y, lambda a, b: a == b, 'they have the same precedence')
        if i:
            for x in LEVELS[i - 1]:
                for y in l:
                    rel(x, y, lambda a, b: a < b, 'the second binds tighter')
    rel('*', '**', lambda a, b: a <= b, 'the second binds tighter')
    rel('**', '!', lambda a, b: a < b, 'the second binds tighter')
    rel('...', '=', lambda a, b: a < b, 'the second binds tighter')
    fs = find('from_token')
    if fs:
        res['roots'] += 1
        res['labels'].append('from_token')
        for vi, v in enumerate(prog.types[tokens]['variants']):
            name = v['name']
            want = name[8:] if name.startswith('Operator') and name[8:] in NAMES else None
            dom, eng, un = ask(prog, fs[0], tokens, vi, 'from_token of ' + name)
            for st, a in dom.answers:
                if a != (('Some', (want,)) if want else ('None',)):
                    dom.report(st, 'from_token of ' + name, 'from_token gives %s for the token %s, which %s' % (a[1][0] if len(a) > 1 else 'no operator', name, 'is the operator ' + want if want else 'is no operator'))
            take(dom, eng, un)
    return res


if __name__ == '__main__':
    import facts, time
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:200])
    for u in r['unanalysed'][:20]:
        print('UNAN', u[:250])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), r['labels'], time.time() - t)
