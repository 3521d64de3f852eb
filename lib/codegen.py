"""Code generation: every ToCode implementation against the grammar of the node it prints."""
import re, time
from models import drop_facts
from engine import Engine, Domain, State, Frame, Split, Prune, Unmodelled, EngineLimit, segments

CUT = {'Expression', 'Statement', 'Pattern', 'Property', 'PropertyKey', 'ClassMember', 'Declarator', 'SwitchCase', 'ForImportSpecifier'}
WS = b' \n\t\r'
WORD = re.compile(r'[A-Za-z0-9_$]')

# ECMAScript precedence of operator kinds (by AST name)
LEVEL = {}
for n, l in [('Assign', 1), ('AddAssign', 1), ('SubtractAssign', 1), ('ExponentAssign', 1), ('MultiplyAssign', 1), ('DivideAssign', 1), ('RemainderAssign', 1),
             ('BSLAssign', 1), ('BSRAssign', 1), ('UBSRAssign', 1), ('BitAndAssign', 1), ('BitXorAssign', 1), ('BitOrAssign', 1),
             ('LogicalOr', 5), ('LogicalAnd', 6), ('BitwiseOr', 7), ('BitwiseXor', 8), ('BitwiseAnd', 9),
             ('StrictEquality', 10), ('StrictInequality', 10), ('Equality', 10), ('Inequality', 10),
             ('Lesser', 11), ('LesserEquals', 11), ('Greater', 11), ('GreaterEquals', 11), ('Instanceof', 11), ('In', 11),
             ('BitShiftLeft', 12), ('BitShiftRight', 12), ('UBitShiftRight', 12), ('Addition', 13), ('Subtraction', 13),
             ('Multiplication', 14), ('Division', 14), ('Remainder', 14), ('Exponent', 15)]:
    LEVEL[n] = l
KIND_LEVEL = {'Sequence': 0, 'Arrow': 1, 'Conditional': 2, 'Prefix': 16, 'Postfix': 17, 'Call': 18, 'Member': 19, 'ComputedMember': 19,
              'TaggedTemplate': 18, 'MetaProperty': 19, 'This': 20, 'Identifier': 20, 'Literal': 20, 'Array': 20, 'Object': 20, 'Template': 20,
              'Function': 20, 'Class': 20, 'Void': 20, 'Spread': 20}
POS = {'expr': 0, 'stmt': 0, 'assign': 1, 'arrowbody': 1, 'condtest': 3, 'unary': 16, 'update': 17, 'postfix': 17, 'callee': 18, 'object': 18, 'lhs': 18, 'newcallee': 19, 'newoperand': 18, 'target': 17}


def T(s): return ('T', s)
def X(p): return ('X', p)
def C(p): return ('C', p)
def ST(p): return ('ST', p)
def E(p, pos='expr'): return ('E', p, pos)
SP = ('SP',)
NONL = ('NONL',)
NOSP = ('NOSP',)
TERM = ('TERM',)
def Opt(p, some, none=()): return ('opt', p, tuple(some), tuple(none))
def Var(p, ty, names, then, els=()): return ('var', p, ty, frozenset(names.split()), tuple(then), tuple(els))
def Bool(p, then, els=()): return ('bool', p, tuple(then), tuple(els))
def Each(p, elem, sep=(), only=None): return ('each', p, tuple(elem), tuple(sep))
def Sep(*items): return tuple(items)

def comma(p, elem): return Each(p, elem, (T(','),))
def block(p): return (T('{'), Each(p + '.body', (C('%'),)), T('}'))
def params(p): return (T('('), comma(p, (C('%'),)), T(')'))


def func(p, name, keyword=True):
    out = []
    if keyword:
        out.append(T('function'))
        out.append(Bool(p + '.generator', (T('*'),)))
        if name == 'mandatory':
            out += [Bool(p + '.generator', (), (SP,)), X(p + '.name')]
        else:
            out += [Opt(p + '.name', (Bool(p + '.generator', (), (SP,)), X(p + '.name')))]
    out += list(params(p + '.params')) + list(block(p + '.body'))
    return tuple(out)


def klass(p, name):
    out = [T('class')]
    if name == 'mandatory':
        out += [SP, X(p + '.name')]
    else:
        out += [Opt(p + '.name', (SP, X(p + '.name')))]
    out += [Opt(p + '.extends', (SP, T('extends'), SP, E(p + '.extends', 'lhs')))]
    out += list(block(p + '.body'))
    return tuple(out)


def template(p):
    return (T('`'), ('template', p), T('`'))


S = 'self'
ARROW_PARAMS = ('alt', (T('('), comma(S + '.params', (C('%'),)), T(')')), ('ident1', S + '.params'))

EXPR = {
    'Void': (),
    'This': (T('this'),),
    'Identifier': (X(S),),
    'Literal': (('lit', S),),
    'Sequence': (comma(S + '.body', (E('%', 'assign'),)),),
    'Array': (T('['), comma(S + '.body', (E('%', 'assign'),)), T(']')),
    'Member': (E(S + '.object', 'object'), T('.'), X(S + '.property')),
    'ComputedMember': (E(S + '.object', 'object'), T('['), E(S + '.property'), T(']')),
    'MetaProperty': (X(S + '.meta'), T('.'), X(S + '.property')),
    'Call': (E(S + '.callee', 'callee'), T('('), comma(S + '.arguments', (E('%', 'assign'),)), T(')')),
    'Binary': (('binary',),),
    'Prefix': (('prefix',),),
    'Postfix': (E(S + '.operand', 'postfix'), NONL, ('op', S + '.operator')),
    'Conditional': (E(S + '.test', 'condtest'), T('?'), E(S + '.consequent', 'assign'), T(':'), E(S + '.alternate', 'assign')),
    'Template': template(S),
    'TaggedTemplate': (E(S + '.tag', 'lhs'),) + template(S + '.quasi'),
    'Spread': (T('...'), E(S + '.argument', 'assign')),
    'Arrow': (('arrowparams', S + '.params'), NONL, T('=>'),
              Var(S + '.body', 'ArrowBody', 'Expression', (E(S + '.body', 'arrowbody'),), block(S + '.body'))),
    'Object': (T('{'), comma(S + '.body', (C('%'),)), T('}')),
    'Function': func(S, 'optional'),
    'Class': klass(S, 'optional'),
}

STMT = {
    'Empty': (TERM,),
    'Debugger': (T('debugger'), TERM),
    'Expression': (E(S, 'stmt'), T(';')),
    'Declaration': (('declkind', S + '.kind'), SP, comma(S + '.declarators', (C('%'),)), T(';')),
    'Return': (T('return'), Opt(S + '.value', (SP, NONL, E(S + '.value'))), T(';')),
    'Break': (T('break'), Opt(S + '.label', (SP, NONL, X(S + '.label'))), T(';')),
    'Continue': (T('continue'), Opt(S + '.label', (SP, NONL, X(S + '.label'))), T(';')),
    'Throw': (T('throw'), SP, NONL, E(S + '.value'), T(';')),
    'If': (T('if'), T('('), E(S + '.test'), T(')'), ST(S + '.consequent'),
           Opt(S + '.alternate', (T('else'), Var(S + '.alternate', 'Statement', 'Block', (), (SP,)), ST(S + '.alternate')))),
    'While': (T('while'), T('('), E(S + '.test'), T(')'), ST(S + '.body')),
    'Do': (T('do'), Var(S + '.body', 'Statement', 'Block', (), (SP,)), ST(S + '.body'), T('while'), T('('), E(S + '.test'), T(')'), ('semi?',)),
    'For': (T('for'), T('('), Opt(S + '.init', (('forinit', S + '.init'),)), T(';'), Opt(S + '.test', (E(S + '.test'),)), T(';'),
            Opt(S + '.update', (E(S + '.update'),)), T(')'), ST(S + '.body')),
    'ForIn': (T('for'), T('('), ('forinit', S + '.left'), SP, T('in'), SP, E(S + '.right'), T(')'), ST(S + '.body')),
    'ForOf': (T('for'), T('('), ('forinit', S + '.left'), SP, T('of'), SP, E(S + '.right', 'assign'), T(')'), ST(S + '.body')),
    'Try': (T('try'),) + block(S + '.block') +
           (Opt(S + '.handler', (T('catch'), T('('), C(S + '.handler.param'), T(')')) + block(S + '.handler.body')),
            Opt(S + '.finalizer', (T('finally'),) + block(S + '.finalizer'))),
    'Labeled': (X(S + '.label'), T(':'), ST(S + '.body')),
    'Block': block(S),
    'Function': func(S, 'mandatory'),
    'Class': klass(S, 'mandatory'),
    'Switch': (T('switch'), T('('), E(S + '.discriminant'), T(')'), T('{'), Each(S + '.cases.body', (C('%'),)), T('}')),
    'Import': (T('import'), ('import',), TERM),
}

PATTERN = {
    'Void': (),
    'Identifier': (X(S),),
    'ObjectPattern': (T('{'), comma(S + '.properties', (C('%'),)), T('}')),
    'ArrayPattern': (T('['), comma(S + '.elements', (C('%'),)), T(']')),
    'RestElement': (T('...'), X(S + '.argument')),
    'AssignmentPattern': (C(S + '.left'), T('='), E(S + '.right', 'assign')),
}
PROPERTY = {
    'Shorthand': (X(S),),
    'Literal': (C(S + '.key'), T(':'), E(S + '.value', 'assign')),
    'Method': (Bool(S + '.value.generator', (T('*'),)), C(S + '.key')) + func(S + '.value', None, False),
    'Spread': (T('...'), E(S + '.argument', 'assign')),
}
PROPERTYKEY = {
    'Computed': (T('['), E(S, 'assign'), T(']')),
    'Literal': (X(S),),
    'Binary': (X(S),),
}
CLASSMEMBER = {
    'Error': ('*unreachable*',),
    'Method': (Bool(S + '.is_static', (T('static'), SP)),
               Var(S + '.kind', 'MethodKind', 'Get', (T('get'), SP)), Var(S + '.kind', 'MethodKind', 'Set', (T('set'), SP)),
               Bool(S + '.value.generator', (T('*'),)), C(S + '.key')) + func(S + '.value', None, False),
    'Literal': (Bool(S + '.is_static', (T('static'), SP)), C(S + '.key'), T('='), E(S + '.value', 'assign'), T(';')),
}
DECLARATOR = (C(S + '.id'), Opt(S + '.init', (T('='), E(S + '.init', 'assign'))))
SWITCHCASE = (Opt(S + '.test', (T('case'), SP, E(S + '.test'), T(':')), (T('default'), T(':'))), Each(S + '.consequent', (C('%'),)))
IMPORTSPEC = {
    'ImportSpecifier': (('importspec', S),),
    'ImportDefaultSpecifier': (X(S + '.local'),),
    'ImportNamespaceSpecifier': (T('*'), T('as'), SP, X(S + '.local')),
}
SPECS = {'Expression': EXPR, 'Statement': STMT, 'Pattern': PATTERN, 'Property': PROPERTY, 'PropertyKey': PROPERTYKEY,
         'ClassMember': CLASSMEMBER, 'ForImportSpecifier': IMPORTSPEC, 'Declarator': DECLARATOR, 'SwitchCase': SWITCHCASE}

# spelling of each operator kind in ECMAScript source
SPELL = dict(FatArrow='=>', Accessor='.', New='new', Increment='++', Decrement='--', LogicalNot='!', BitwiseNot='~', Typeof='typeof', Void='void', Delete='delete',
             Multiplication='*', Division='/', Remainder='%', Exponent='**', Addition='+', Subtraction='-', BitShiftLeft='<<', BitShiftRight='>>', UBitShiftRight='>>>',
             Lesser='<', LesserEquals='<=', Greater='>', GreaterEquals='>=', Instanceof='instanceof', In='in', StrictEquality='===', StrictInequality='!==',
             Equality='==', Inequality='!=', BitwiseAnd='&', BitwiseXor='^', BitwiseOr='|', LogicalAnd='&&', LogicalOr='||', Conditional='?',
             Assign='=', AddAssign='+=', SubtractAssign='-=', ExponentAssign='**=', MultiplyAssign='*=', DivideAssign='/=', RemainderAssign='%=',
             BSLAssign='<<=', BSRAssign='>>=', UBSRAssign='>>>=', BitAndAssign='&=', BitXorAssign='^=', BitOrAssign='|=', Spread='...')


LVALUES = {'Identifier', 'Member', 'ComputedMember', 'Object', 'Array', 'Spread'}
# the operand an expression of each kind begins with
LEFT = {'Sequence': 'body[0]', 'Member': 'object', 'ComputedMember': 'object', 'Call': 'callee', 'Binary': 'left', 'Postfix': 'operand', 'Conditional': 'test', 'TaggedTemplate': 'tag'}

# ---------------------------------------------------------------- checker
class TypeWalk:
    """types reachable under a normalised path such as self.cases.body[0]"""
    def __init__(self, prog, eng, root_tid):
        self.p, self.eng, self.root = prog, eng, root_tid
        self.cache = {}

    def closure(self, tids):
        out, todo = set(), list(tids)
        while todo:
            t = todo.pop()
            if t is None or t in out:
                continue
            out.add(t)
            ty = self.p.types[t]
            if ty['k'] in ('ref', 'ptr'):
                todo.append(ty['elem'])
            elif ty['k'] == 'adt':
                sh = self.eng.short(t)
                if sh == 'PhantomData':
                    continue
                from engine import COLLAPSE
                for v in ty['variants']:
                    fs = v['fields']
                    for f in fs:
                        if (sh, f[0]) in COLLAPSE:
                            todo.append(f[1])
                    if len(fs) == 1 and fs[0][0] == '0':
                        todo.append(fs[0][1])
        return out

    def at(self, path):
        r = self.cache.get(path)
        if r is not None:
            return r
        toks = re.findall(r'\.[A-Za-z0-9_]+|\[[^\]]*\]|^[A-Za-z]+', path)
        cur = self.closure([self.root])
        for t in toks[1:]:
            nxt = set()
            for c in cur:
                ty = self.p.types[c]
                if ty['k'] != 'adt':
                    continue
                if t[0] == '[':
                    if self.eng.short(c) in ('List', 'UnsafeList', 'Vec') and ty.get('args'):
                        nxt.add(ty['args'][0])
                    continue
                for v in ty['variants']:
                    for f in v['fields']:
                        if f[0] == t[1:]:
                            nxt.add(f[1])
            cur = self.closure(nxt)
        self.cache[path] = cur
        return cur

    def adt(self, path, short):
        for t in self.at(path):
            if self.p.types[t]['k'] == 'adt' and self.eng.short(t) == short:
                return t
        return None

    def boolean(self, path):
        for t in self.at(path):
            if self.p.types[t]['k'] == 'bool':
                return t
        return None


PREDS = ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'is_ascii', 'is_char_boundary')
ALTER = re.compile(r'trim\w*$|to_\w*case$|to_ascii_\w*$|replace\w*$|repeat$|index$|get_unchecked$')


class SpecError(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


# dom = (spec, sep, started, sink, dec)
#   spec: tuple of remaining items; sep: 0 none / 1 space / 2 newline; last: last byte printed (int), 'X' word text, 'C' child, None
#   sink: (set_len len, copied len, reserved) bookkeeping of raw appends
class CG(Domain):
    counters = True

    def __init__(self, prog, rootname, variant, mode):
        Domain.__init__(self)
        self.p = prog
        self.rootname = rootname
        self.variant = variant
        self.mode = mode
        self.choices = {}
        self.obl = 0
        self.paren = {}
        self.unanalysed = []
        self.empties = set()
        self.glue = {}
        self.unguarded = set()
        self.lead = set()
        self.recfns = set()
        self.parenviol = {}

    # --- spec handling
    def vkey(self, st, what):
        return '%s: %s' % (self.label(), what)

    def label(self):
        return self.rootname + ('::' + self.variant if self.variant else '')

    def facts_of(self, st, path, short):
        tid = self.tw.adt(path, short)
        if tid is None:
            raise Unmodelled('no %s at %s' % (short, path))
        return tid, self.eng.variants(st, path, tid)

    def names(self, tid, vs):
        return frozenset(self.p.types[tid]['variants'][v]['name'] for v in vs)

    def guard(self, st, path, short, names):
        """None-or-bool: does the value at path have a variant in names"""
        tid, vs = self.facts_of(st, path, short)
        yes = frozenset(v for v in vs if self.p.types[tid]['variants'][v]['name'] in names)
        no = vs - yes
        if yes and no:
            raise Split((path, tid), [yes, no])
        return bool(yes)

    def single(self, st, path, short):
        tid, vs = self.facts_of(st, path, short)
        if len(vs) > 1:
            raise Split((path, tid), [frozenset([v]) for v in sorted(vs)])
        return self.p.types[tid]['variants'][min(vs)]['name']

    def lens(self, st, path):
        return st.facts.get(('#', path), frozenset((0, 1, 2)))

    def need_len(self, st, path, groups):
        ls = self.lens(st, path)
        parts = [ls & g for g in groups]
        nz = [x for x in parts if x]
        if len(nz) > 1:
            raise Split(('#', path), nz)
        return next(i for i, x in enumerate(parts) if x)

    def sub(self, items, val):
        def s(x):
            if isinstance(x, str):
                return x.replace('%', val)
            if isinstance(x, tuple):
                return tuple(s(y) for y in x)
            return x
        return tuple(s(i) for i in items)

    def settle(self, st, spec, atend=False):
        """expand guards at the head of the spec"""
        while spec:
            h = spec[0]
            k = h[0]
            rest = spec[1:]
            if k == 'opt':
                some = self.guard(st, h[1], 'Option', ('Some',))
                spec = tuple(h[2] if some else h[3]) + rest
            elif k == 'var':
                spec = tuple(h[4] if self.guard(st, h[1], h[2], h[3]) else h[5]) + rest
            elif k == 'bool':
                tid = self.tw.boolean(h[1])
                if tid is None:
                    raise Unmodelled('no flag at ' + h[1])
                key = ('sym', h[1], tid)
                got = st.facts.get(key, frozenset((0, 1)))
                if len(got) > 1:
                    raise Split(key, [frozenset((0,)), frozenset((1,))])
                spec = tuple(h[2] if 1 in got else h[3]) + rest
            elif k == 'each':
                i = self.need_len(st, h[1], [frozenset((0,)), frozenset((1, 2))])
                if i == 0:
                    spec = rest
                else:
                    spec = self.sub(h[2], h[1] + '[0]') + (('eachnext', h[1], h[2], h[3], 0),) + rest
            elif k == 'eachnext':
                if st.facts.get(('skip', h[1])):
                    raise SpecError('list ' + h[1] + ' skips an element', 'an element of %s is passed over without being printed' % h[1])
                if h[4] == 0:
                    i = self.need_len(st, h[1], [frozenset((1,)), frozenset((2,))])
                    if i == 0:
                        spec = rest
                    else:
                        spec = tuple(h[3]) + self.sub(h[2], h[1] + '[+]') + (('eachnext', h[1], h[2], h[3], 1),) + rest
                elif st.facts.get(('end', h[1])):
                    spec = rest
                elif st.facts.get(('pend', h[1])):
                    spec = tuple(h[3]) + self.sub(h[2], h[1] + '[+]') + (('eachnext', h[1], h[2], h[3], 1),) + rest
                elif atend:
                    raise SpecError('list ' + h[1] + ' not exhausted', 'the printer stops before the last element of ' + h[1])
                else:
                    return spec
            elif k == 'lit':
                n = self.single(st, h[1], 'Literal')
                const = {'Undefined': 'undefined', 'Null': 'null', 'True': 'true', 'False': 'false'}
                spec = ((T(const[n]),) if n in const else (('first', '/'), X(h[1])) if n == 'RegEx' else (X(h[1]),)) + rest
            elif k == 'op':
                n = self.single(st, h[1], 'OperatorKind')
                if n not in SPELL:
                    raise Unmodelled('operator ' + n)
                spec = (T(SPELL[n]),) + rest
            elif k == 'declkind':
                spec = (T({'Var': 'var', 'Let': 'let', 'Const': 'const'}[self.single(st, h[1], 'DeclarationKind')]),) + rest
            elif k == 'forinit':
                if self.guard(st, h[1], 'ForInit', ('Declaration',)):
                    spec = (('declkind', h[1] + '.kind'), SP, comma(h[1] + '.declarators', (C('%'),))) + rest
                else:
                    spec = (E(h[1], h[2] if len(h) > 2 else 'expr'),) + rest
            elif k == 'binary':
                n = self.single(st, 'self.operator', 'OperatorKind')
                if n not in LEVEL:
                    raise Prune()
                l = LEVEL[n]
                lhs = ('L', 'target') if l == 1 else ('L', 17) if n == 'Exponent' else ('L', l)
                rhs = ('L', l) if l == 1 or n == 'Exponent' else ('L', l + 1)
                word = (SP,) if SPELL[n][0].isalpha() else ()
                spec = (('E', 'self.left', lhs[1]),) + word + (T(SPELL[n]),) + word + (('glued', n), ('E', 'self.right', rhs[1]),) + rest
            elif k == 'prefix':
                n = self.single(st, 'self.operator', 'OperatorKind')
                if n not in ('LogicalNot', 'BitwiseNot', 'Typeof', 'Void', 'Delete', 'New', 'Increment', 'Decrement', 'Addition', 'Subtraction', 'Spread'):
                    raise Prune()
                word = (SP,) if SPELL[n][0].isalpha() else ()
                if n == 'New':
                    spec = (T('new'), SP, ('newop',)) + rest
                    continue
                pos = {'Spread': 'assign'}.get(n, 'unary')
                first = (('first', SPELL[n][0]),) if n in ('Addition', 'Subtraction', 'Increment', 'Decrement') else ()
                spec = first + (T(SPELL[n]),) + word + (('glued', n), ('E', 'self.operand', pos)) + rest
            elif k == 'template':
                p = h[1]
                spec = (NOSP, X(p + '.quasis[0]'), ('tmplnext', p, 0)) + rest
            elif k == 'tmplnext':
                p = h[1]
                q, e = p + '.quasis', p + '.expressions'
                if st.facts.get(('skip', q)):
                    raise SpecError('template chunk skipped', 'a chunk of the template text is not printed')
                if h[2] == 0:
                    i = self.need_len(st, q, [frozenset((0, 1)), frozenset((2,))])
                    more = i == 1
                else:
                    more = None
                    if st.facts.get(('end', q)) or st.facts.get(('end', e)):
                        more = False
                    elif st.facts.get(('pend', q)):
                        more = True
                    elif atend:
                        raise SpecError('template not exhausted', 'the printer stops before the last chunk of the template')
                    else:
                        return spec
                if more:
                    en = e + ('[0]' if h[2] == 0 else '[+]')
                    spec = (NOSP, T('${'), E(en), T('}'), NOSP, X(q + '[+]'), ('tmplnext', p, 1)) + rest
                else:
                    spec = (NOSP,) + rest
            elif k == 'import':
                i = self.need_len(st, 'self.specifiers', [frozenset((0,)), frozenset((1, 2))])
                if i == 0:
                    spec = (('quoted', 'self.source'),) + rest
                else:
                    spec = (SP, ('specs', frozenset(), 0), SP, T('from'), ('quoted', 'self.source')) + rest
            elif k == 'quoted':
                spec = (('altbytes', (T("'"), NOSP, X(h[1]), NOSP, T("'")), (T('"'), NOSP, X(h[1]), NOSP, T('"'))),) + rest
            elif k == 'importspec':
                p = h[1]
                spec = (X(p + '.imported'), ('aslocal', p)) + rest
            elif k == 'aslocal':
                p = h[1]
                key = ('streq', ('S', p + '.imported'), ('S', p + '.local'))
                got = st.facts.get(key, frozenset((0, 1)))
                if len(got) > 1:
                    raise Split(key, [frozenset((0,)), frozenset((1,))])
                if 1 in got:
                    spec = (('may', (SP, T('as'), SP, X(p + '.local'))),) + rest
                else:
                    spec = (SP, T('as'), SP, X(p + '.local')) + rest
            else:
                return spec
        return spec

    # requirement items: satisfied lazily against the separator seen
    def reqs(self, st, spec):
        """strip leading SP/NONL/NOSP/glue items -> (required flags, rest)"""
        fl = []
        while True:
            spec = self.settle(st, spec)
            if spec and spec[0][0] in ('SP', 'NONL', 'NOSP', 'glued', 'first'):
                fl.append(spec[0])
                spec = spec[1:]
            else:
                return fl, spec

    def event(self, st, ev):
        """ev: ('b', byte) | ('x', key) | ('c', path, short)"""
        spec, sep, last, sink, dent = st.dom
        self.obl += 1
        if ev[0] == 'b' and bytes([ev[1]]) in (b' ', b'\n', b'\t', b'\r'):
            if spec and spec[0][0] == 'Tm':
                raise SpecError('token split', 'white space inside the token %r' % spec[0][2])
            if any(s == NOSP for s in self.leading(st, spec)):
                raise SpecError('space in literal text', 'white space printed next to literal text')
            sep = max(sep, 2 if ev[1] in (10, 13) else 1)
            st.dom = (spec, sep, last, sink, dent)
            return
        fl, body = self.reqs(st, spec)
        r = self.match(st, body, ev)
        if r is None:
            exp = self.describe(body)
            raise SpecError('expected %s' % exp, 'prints %s where the grammar of the node needs %s' % (self.show(ev), exp))
        body2, note = r
        for f in fl:
            if f == SP and sep == 0 and self.wordish(ev) and (last is None or last == 'X' or last == 'C' or (isinstance(last, int) and WORD.match(chr(last)))):
                raise SpecError('no space before ' + self.show(ev), 'no separator between adjacent words, before ' + self.show(ev))
            if f == NONL and sep == 2:
                raise SpecError('line break before ' + self.show(ev), 'a line break is printed where the grammar forbids one')
            if f == NOSP and sep:
                raise SpecError('space in literal text', 'white space printed next to literal text')
            if f[0] == 'first' and sep == 0 and last is None:
                self.check_first(st, f[1])
            if f[0] == 'glued' and sep == 0 and ev[0] == 'c':
                self.check_glue_right(st, f[1], ev[1])
        nl = ev[1] if ev[0] == 'b' else 'X' if ev[0] == 'x' else 'C'
        st.dom = (body2, 0, nl, sink, dent)
        # a list element was consumed: clear its pending mark
        if ev[0] in ('c', 'x'):
            m = re.match(r'^(.*)\[(0|\+)\]', ev[1])
            if m:
                lst = m.group(1)
                tail = ev[1][len(m.group(0)):]
                st.facts.pop(('pend', lst), None)
                if m.group(2) == '+':
                    drop_facts(st, lst + '[0]')

    def leading(self, st, spec):
        try:
            fl, _ = self.reqs(st, spec)
        except Split:
            raise
        return fl

    def wordish(self, ev):
        return ev[0] in ('x', 'c') or bool(WORD.match(chr(ev[1])))

    def show(self, ev):
        if ev[0] == 'b':
            return repr(chr(ev[1]))
        return ev[1]

    def describe(self, body):
        if not body:
            return 'the end of the node'
        h = body[0]
        if h[0] == 'T':
            return repr(h[1])
        if h[0] == 'Tm':
            return 'the rest %r of %r' % (h[1], h[2])
        if h[0] in ('X', 'C', 'ST'):
            return h[1]
        if h[0] in ('E', 'Ep'):
            return h[1]
        if h[0] in ('eachnext', 'tmplnext'):
            return 'the end of %s or its next element' % h[1]
        return str(h[0])

    def match(self, st, body, ev):
        if not body:
            return None
        h, rest = body[0], body[1:]
        k = h[0]
        if k == 'T':
            s = h[1]
            if ev[0] == 'b' and chr(ev[1]) == s[0]:
                return ((('Tm', s[1:], s),) if len(s) > 1 else ()) + rest, None
            return None
        if k == 'Tm':
            s = h[1]
            if ev[0] == 'b' and chr(ev[1]) == s[0]:
                return ((('Tm', s[1:], h[2]),) if len(s) > 1 else ()) + rest, None
            return None
        if k == 'X':
            if ev[0] == 'x' and ev[1] == h[1]:
                return rest, None
            return None
        if k == 'C':
            if ev[0] == 'c' and ev[1] == h[1]:
                return rest, None
            return None
        if k == 'newop':
            o = S + '.operand'
            if ev[0] == 'c' and ev[1] == o:
                self.exprpos(st, o, 'newoperand', False)
                return rest, None
            call = (E(o + '.callee', 'newcallee'), T('('), comma(o + '.arguments', (E('%', 'assign'),)), T(')')) + rest
            if ev[0] == 'c':
                if not self.guard(st, o, 'Expression', ('Call',)):
                    return None
                return self.match(st, call, ev)
            if ev == ('b', 40):
                # ( operand ) or ( callee ) ( arguments )
                if self.guard(st, o, 'Expression', ('Call',)):
                    return (('altEp', (('Ep', o, 'newoperand'), T(')')) + rest, (('Ep', o + '.callee', 'newcallee'), T(')')) + call[1:]),), None
                return (('Ep', o, 'newoperand'), T(')')) + rest, None
            return None
        if k == 'altEp':
            for a in h[1:]:
                r = self.match(st, a, ev)
                if r is not None:
                    return r
            return None
        if k == 'ST':
            tid, vs = self.facts_of(st, h[1], 'Statement')
            if ev == ('b', 59):
                if self.guard(st, h[1], 'Statement', ('Empty',)):
                    return rest, None
                return None
            if ev[0] == 'c' and ev[1] == h[1]:
                if 'Empty' in self.names(tid, vs):
                    # a printed empty statement must not vanish here
                    self.empties.add(h[1])
                return rest, None
            return None
        if k == 'E':
            if ev[0] == 'c' and ev[1] == h[1]:
                self.exprpos(st, h[1], h[2], False)
                return rest, None
            if ev[0] == 'b' and ev[1] == 40:
                return (('Ep', h[1], h[2]), T(')')) + rest, None
            return None
        if k == 'Ep':
            if ev[0] == 'c' and ev[1] == h[1]:
                self.exprpos(st, h[1], h[2], True)
                return rest, None
            return None
        if k in ('arrowparams', 'alt', 'altbytes'):
            if k == 'arrowparams':
                p = h[1]
                if ev[0] == 'b':
                    alts = [params(p)]
                else:
                    i = self.need_len(st, p, [frozenset((1,)), frozenset((0, 2))])
                    if i != 0 or not self.guard(st, p + '[0]', 'Pattern', ('Identifier',)):
                        raise SpecError('arrow parameters without parentheses', 'arrow parameter list printed without parentheses although it is not a single plain name')
                    alts = [(X(p + '[0]'),), (C(p + '[0]'),)]
            else:
                alts = h[1:]
            for a in alts:
                fl, b = self.reqs(st, tuple(a) + rest)
                r = self.match(st, b, ev)
                if r is not None:
                    return r
            return None
        if k == 'may':
            fl, b = self.reqs(st, tuple(h[1]) + rest)
            r = self.match(st, b, ev)
            if r is not None:
                if SP in fl and st.dom[1] == 0:
                    raise SpecError('no space before ' + self.show(ev), 'no separator between adjacent words')
                return r
            fl, b = self.reqs(st, rest)
            return self.match(st, b, ev)
        if k in ('semi?', 'TERM'):
            if ev == ('b', 59):
                return rest, None
            b = self.settle(st, rest)
            return self.match(st, b, ev)
        if k == 'specs':
            # import specifiers, in groups: default, namespace, { named }
            seen, mode = h[1], h[2]
            return self.match_specs(st, h, rest, ev)
        if k in ('eachnext', 'tmplnext'):
            # neither the end of the list nor its next element has been established
            if k == 'eachnext':
                nb = tuple(h[3]) + self.sub(h[2], h[1] + '[+]') + (('eachnext', h[1], h[2], h[3], 1),) + rest
                fl, b = self.reqs(st, nb)
                return self.match(st, b, ev)
            return None
        return None

    def match_specs(self, st, h, rest, ev):
        # modes: 0 before the first, 1 after an outer one, 2 after ',', 3 inside { before the first, 4 inside after one, 5 inside after ',', 6 after }
        mode = h[2]
        if ev[0] == 'c':
            m = re.match(r'^self\.specifiers\[(0|\+|\*)\]$', ev[1])
            if not m:
                return None
            named = self.guard(st, ev[1], 'ForImportSpecifier', ('ImportSpecifier',))
            if named and mode in (3, 5):
                return (('specs', h[1] | {'n'}, 4),) + rest, None
            if not named and mode in (0, 2):
                return (('specs', h[1] | {'o'}, 1),) + rest, None
            return None
        if ev[0] == 'b':
            c = chr(ev[1])
            if c == '{' and mode in (0, 2):
                return (('specs', h[1], 3),) + rest, None
            if c == ',' and mode == 1:
                return (('specs', h[1], 2),) + rest, None
            if c == ',' and mode == 4:
                return (('specs', h[1], 5),) + rest, None
            if c == '}' and mode == 4:
                return (('specs', h[1], 6),) + rest, None
            if mode in (1, 6):
                if st.dom[1] == 0 and mode == 1:
                    raise SpecError("no space before 'from'", 'no separator before from')
                fl, b = self.reqs(st, rest)
                return self.match(st, b, ev)
        return None

    def check_glue_right(self, st, op, path):
        s = SPELL[op]
        tid, vs = self.facts_of(st, path, 'Expression')
        names = self.names(tid, vs)
        if s == '/' and 'Literal' in names:
            if names != {'Literal'}:
                raise Split((path, tid), [frozenset(v for v in vs if self.p.types[tid]['variants'][v]['name'] == 'Literal'),
                                          frozenset(v for v in vs if self.p.types[tid]['variants'][v]['name'] != 'Literal')])
            t2, ls = self.facts_of(st, path, 'Literal')
            if 'RegEx' in self.names(t2, ls):
                k = self.vkey(st, 'operator Division runs into a regular expression')
                self.glue.setdefault(k, {'key': k, 'msg': '/ is printed directly before a regular expression', 'where': self.eng.where(st), 'trace': [str(x) for x in st.events()]})
            return
        if s[-1] not in '+-':
            return
        if 'Prefix' in names:
            if names != {'Prefix'}:
                raise Split((path, tid), [frozenset(v for v in vs if self.p.types[tid]['variants'][v]['name'] == 'Prefix'),
                                          frozenset(v for v in vs if self.p.types[tid]['variants'][v]['name'] != 'Prefix')])
            t2, ops = self.facts_of(st, path + '.operator', 'OperatorKind')
            bad = sorted(n for n in self.names(t2, ops) if n in ('Increment', 'Decrement', 'Addition', 'Subtraction') and SPELL[n][0] == s[-1])
            if bad:
                k = self.vkey(st, 'operator %s runs into %s' % (op, '/'.join(bad)))
                if k not in self.glue:
                    self.glue[k] = {'key': k, 'msg': '%s is printed directly before an operand that starts with %s' % (s, SPELL[bad[0]]), 'where': self.eng.where(st),
                                    'trace': [str(x) for x in st.events()]}

    def check_first(self, st, ch):
        """the node starts with `ch`: is that known not to be the last byte printed so far?"""
        known = False
        for k, f in st.facts.items():
            if k[0] == '@last' and len(k) == 2:
                if self.names(k[1], f) == {'None'}:
                    known = True
            elif k[0] == 'sym' and k[1] == '@last':
                if f[0] == 'is' and f[1] != ord(ch) or f[0] == 'not' and ord(ch) in f[1]:
                    known = True
            elif k[0] == 'cmp' and k[1] == 'Eq' and f == frozenset((0,)):
                if any(x[0] == 'sym' and x[1] == '@last' for x in k[2:4]) and ('i', ord(ch)) in k[2:4]:
                    known = True
        if not known:
            self.unguarded.add(ch)

    def exprpos(self, st, path, pos, paren):
        """an expression printed at a position that needs at least level `pos`"""
        tid, vs = self.facts_of(st, path, 'Expression')
        min_l = POS[pos] if isinstance(pos, str) else pos
        vn = self.p.types[tid]['variants']
        lead = pos in ('stmt', 'arrowbody')
        t2 = None
        for v in sorted(vs):
            n = vn[v]['name']
            if n == 'Postfix':
                t2 = self.tw.adt(path + '.operator', 'OperatorKind')
                if t2 is not None and not self.names(t2, self.eng.variants(st, path + '.operator', t2)) & {'Increment', 'Decrement'}:
                    continue
            if pos == 'target' and n not in LVALUES:
                continue
            if lead and not paren and n in LEFT:
                self.lead.add((n, path, pos, self.leadfacts(st, path, n)))
            if n == 'Binary':
                t2 = self.tw.adt(path + '.operator', 'OperatorKind')
                ops = self.eng.variants(st, path + '.operator', t2) if t2 is not None else ()
                kinds = [('Binary ' + self.p.types[t2]['variants'][o]['name'], LEVEL.get(self.p.types[t2]['variants'][o]['name'])) for o in ops]
            else:
                kinds = [(n, KIND_LEVEL.get(n))]
            for kn, lv in kinds:
                if lv is None:
                    continue
                rec = self.paren.setdefault((path, str(pos)), {})
                rec.setdefault(kn, set()).add(paren)
                bad = lv < min_l
                if pos == 'stmt' and kn in ('Object', 'Function', 'Class'):
                    bad = True
                if pos == 'arrowbody' and kn == 'Object':
                    bad = True
                if bad and not paren:
                    k = kn.split()[0] if kn.startswith('Binary') and lv < min_l and all(True for _ in ()) else kn
                    self.parenviol.setdefault((path, str(pos)), set()).add(kn)

    parenviol = None

    def leadfacts(self, st, path, n):
        """what is known about the first operand of an expression printed where a statement starts"""
        child = path + '.' + LEFT[n]
        if n == 'Sequence' and self.lens(st, path + '.body') == frozenset((0,)):
            return None
        out = []
        for k, f in st.facts.items():
            if k[0] == 'sym' and k[1].startswith('rec:') and k[1].split(':', 2)[2] == child and len(f) == 1:
                out.append((int(k[1].split(':', 2)[1]), min(f)))
        return frozenset(out)

    def recursion(self, st, fn, args):
        """a predicate that calls itself on an operand: an unknown, but fixed, answer"""
        if 'locals' not in fn or len(args) != 1 or self.p.types[fn['locals'][0]]['k'] != 'bool':
            return None
        if not any(f.fid == fn['id'] for f in st.frames):
            return None
        a = args[0]
        while a[0] == 'ref' and a[1][0] != 'S':
            a = self.eng.load(st, a[1], a[2])
        if a[0] == 'ref' and a[1][0] == 'S':
            self.recfns.add(fn['id'])
            return [(None, ('sym', 'rec:%d:%s' % (fn['id'], a[1][1]), fn['locals'][0]))]
        return None

    # --- engine hooks
    def key(self, st):
        return st.dom

    def emit(self, st, ev):
        st.ev(ev)
        if ev[0] in 'cx':
            st.park = True
        try:
            self.event(st, ev)
        except SpecError as e:
            self.report(st, self.vkey(st, e.key), e.msg)
            raise Prune()

    def emit_bytes(self, st, bs):
        try:
            bytes(bs).decode()
        except UnicodeDecodeError:
            raise SpecError('not UTF-8', 'prints bytes that are not a whole UTF-8 text')
        for b in bs:
            self.emit(st, ('b', b))

    def text(self, st, v):
        """emit the bytes a slice value denotes"""
        for _ in range(4):
            if v[0] == 'ref' and v[1][0] in ('H', 'L', 'K'):
                x = self.eng.load(st, v[1], v[2])
                if x[0] not in ('ref', 'altered'):
                    break
                v = x
        if v[0] == 'altered':
            raise SpecError('changes %s' % v[1], 'not the text of %s is printed but what %s makes of it' % (v[1], v[2]))
        from models import const_bytes, strkey
        b = const_bytes(self.eng, st, v)
        if b is not None:
            return ('const', b)
        k = strkey(self.eng, st, v)
        if k is not None and k[0] == 'S':
            return ('sym', k[1])
        if v[0] == 'ref':
            x = self.eng.load(st, v[1], v[2])
            if x[0] == 'sym':
                return ('sym', x[1])
        raise Unmodelled('printing %r' % (v,))

    def emit_text(self, st, t):
        if t[0] == 'const':
            self.emit_bytes(st, t[1])
        else:
            self.emit(st, ('x', t[1]))

    def is_sink(self, st, v):
        for _ in range(4):
            if v[0] == 'ref':
                v = self.eng.load(st, v[1], v[2])
        return v == ('sink',)

    def unit(self):
        return [(None, ('tup', ()))]

    def clean(self, st):
        s = st.dom[3]
        if s[0] is not None or s[1] is not None:
            raise SpecError('raw append incomplete', 'length set for a raw append and bytes copied differ (%s vs %s)' % (s[0], s[1]))

    def setsink(self, st, i, val):
        d = st.dom
        s = list(d[3])
        s[i] = val
        if s[0] is not None and s[1] is not None:
            if s[0] != s[1]:
                raise SpecError('raw append length', 'vector length grows by %s but %s is copied' % (s[0], s[1]))
            s = [None, None, None]
        st.dom = (d[0], d[1], d[2], tuple(s), d[4])

    def call(self, st, fn, decl, args):
        n = fn['name']
        if decl == 'ratel_codegen::ToCode::to_code' and args:
            a = args[0]
            if a[0] == 'ref' and a[1][0] == 'S' and not a[2]:
                path, tid = a[1][1], a[1][2]
            elif a[0] == 'sym':
                path, tid = a[1], self.eng.pointee(a[2])
            elif a[0] == 'ref':
                # a reference held in a local (for example an element bound by a pattern)
                x = self.eng.load(st, a[1], a[2])
                while x[0] == 'ref' and x[1][0] != 'S':
                    x = self.eng.load(st, x[1], x[2])
                if x[0] == 'ref':
                    path, tid = x[1][1], x[1][2]
                elif x[0] == 'sym':
                    path, tid = x[1], x[2]
                else:
                    path = None
            else:
                path = None
            if path is not None and tid is not None:
                sh = self.strip(tid)
                if sh in CUT and not (path == 'self' and sh == self.rootname):
                    try:
                        self.clean(st)
                    except SpecError as e:
                        self.report(st, self.vkey(st, e.key), e.msg)
                        raise Prune()
                    self.emit(st, ('c', path, sh))
                    return self.unit()
        r = self.recursion(st, fn, args)
        if r is not None:
            return r
        if self.rootname == 'Module':
            if re.search(r'Vec::<u8>::(with_capacity|new)$', n):
                if self.created:
                    raise Unmodelled('more than one buffer')
                self.created = True
                return [(None, ('sink',))]
            if re.search(r'String::from_utf8_unchecked$|String::from_utf8$', n) and args[0] == ('sink',):
                self.clean(st)
        try:
            r = self.textcall(st, fn, n, args)
            return r if r is not None else self.sinkcall(st, fn, n, args)
        except SpecError as e:
            self.report(st, self.vkey(st, e.key), e.msg)
            raise Prune()

    def strip(self, tid):
        for _ in range(8):
            ty = self.p.types[tid]
            if ty['k'] in ('ref', 'ptr'):
                tid = ty['elem']
                continue
            if ty['k'] == 'adt':
                sh = self.eng.short(tid)
                if sh in ('Node', 'Loc', 'CopyCell'):
                    if sh == 'Node':
                        a = [x for x in ty.get('args', []) if x is not None]
                        tid = a[-1]
                    elif sh == 'Loc':
                        tid = ty['args'][-1]
                    else:
                        tid = ty['args'][-1]
                    continue
                return sh
            return None
        return None

    def textcall(self, st, fn, n, args):
        """questions about a text of the tree fork; parts of it and altered copies are not that text"""
        seg = segments(n)
        if not args or not args[0]:
            return None
        if args[0][0] == 'ref' and args[0][1][0] == 'K' and args[0][1][1][0] == 'altered':
            args = [args[0][1][1]] + list(args[1:])
        if args[0][0] == 'altered':
            if 'copy' in seg[-1]:
                self.text(st, args[0])
            if seg[-1] in ('len', 'is_empty', 'cmp', 'eq', 'ne', 'starts_with', 'ends_with'):
                return [(None, ('top', fn['locals'][0] if 'locals' in fn else None))]
            return [(None, args[0])]
        st_fn = re.match(r'(core|alloc)::(str|slice|string)\b', n) or re.search(r'\bstr as |\b(str|\[u8\]|String) as .*Index', n)
        if not st_fn:
            return None
        m = seg[-1]
        if m not in PREDS and not ALTER.match(m):
            return None
        try:
            t = self.text(st, args[0])
        except (Unmodelled, SpecError):
            return None
        if t[0] != 'sym':
            return None
        if m in PREDS:
            key = ('about', t[1], m, repr(args[1:])[:80])
            return [(lambda c, x=x: c.facts.__setitem__(key, frozenset((x,))), ('i', x)) for x in sorted(st.facts.get(key, (0, 1)))]
        if m == 'index' and 'RangeFull' in n:
            return [(None, args[0])]
        return [(None, ('altered', t[1], m))]

    def sinkcall(self, st, fn, n, args):
        if not args or not args[0] or not self.is_sink(st, args[0]):
            if 'copy_nonoverlapping' in n and len(args) == 3 and args[1][0] == 'sptr':
                t = self.text(st, args[0])
                ln = self.lenval(st, t)
                if args[2] != ln:
                    raise SpecError('raw append length', 'copies %s bytes of a text of length %s' % (args[2], ln))
                if args[1][1] != ('slen', ()):
                    raise SpecError('raw append position', 'bytes are copied to an offset other than the end of the output')
                if st.dom[3][2] != ln:
                    raise SpecError('raw append not reserved', 'bytes are copied past the reserved capacity')
                self.emit_text(st, t)
                self.setsink(st, 1, ln)
                return self.unit()
            if args and args[0][0] == 'sptr' and re.search(r'::(add|offset|wrapping_add)$', n):
                if args[0][1] is not None:
                    raise Unmodelled('pointer arithmetic')
                return [(None, ('sptr', args[1]))]
            return None
        if re.search(r'Vec::<u8>::push$', n):
            self.clean(st)
            b = args[1]
            if b[0] != 'i':
                raise Unmodelled('push of an unknown byte')
            if b[1] > 127:
                raise SpecError('not UTF-8', 'prints a lone byte %d' % b[1])
            self.emit(st, ('b', b[1]))
            return self.unit()
        if re.search(r'Vec::<u8>::extend_from_slice$|Extend<&.*u8>>::extend', n):
            self.clean(st)
            self.emit_text(st, self.text(st, args[1]))
            return self.unit()
        if re.search(r'Vec::<u8>::reserve(_exact)?$', n):
            self.clean(st)
            self.setsink(st, 2, args[1])
            return self.unit()
        if re.search(r'Vec::<u8>::len$', n):
            return [(None, ('slen', ()))]
        if re.search(r'Vec::<u8>::set_len$', n):
            v = args[1]
            if v[0] != 'slen' or len(v[1]) != 1:
                raise SpecError('raw append length', 'the output length is set to something other than old length plus one text')
            self.setsink(st, 0, v[1][0])
            return self.unit()
        if re.search(r'Vec::<u8>::as_mut_ptr$', n):
            return [(None, ('sptr', None))]
        if re.search(r'Vec::<u8>::(is_empty)$', n):
            return [(None, ('top', None))]
        if re.search(r'Deref(Mut)?>::deref(_mut)?$|as_slice$|as_ref$|<\[u8\]>::last$|impl \[.*\]>::last$', n):
            if n.endswith('last'):
                return self.sinklast(st, fn)
            return [(None, ('sink',))]
        if 'blocks' in fn and not n.startswith('std::vec'):
            return None
        m = re.search(r'::(truncate|clear|remove|swap_remove|drain|retain|retain_mut|dedup\w*|split_off|set_range|rotate_left|rotate_right|reverse|sort\w*|insert)$', n)
        if m and 'Vec::<u8>' in n or m and n.startswith('core::slice'):
            raise SpecError('output rewritten', 'what was already printed is changed afterwards: ' + m.group(1))
        raise Unmodelled('operation on the output: ' + n)

    def sinklast(self, st, fn):
        opt = fn['locals'][0] if 'locals' in fn else None
        spec, sep, last, sink, dent = st.dom
        if opt is None:
            raise Unmodelled('last byte of the output')
        vs = self.p.types[opt]['variants']
        some = [i for i, v in enumerate(vs) if v['name'] == 'Some'][0]
        if sep:
            b = ('i', 32)
        elif isinstance(last, int):
            b = ('i', last)
        elif last is None:
            return [(None, ('sym', '@last', opt))]
        else:
            b = ('top', self.eng.pointee(vs[some]['fields'][0][1]))
        return [(None, ('adt', opt, some, (('ref', st.alloc(b), ()),)))]

    def lenval(self, st, t):
        return ('i', len(t[1])) if t[0] == 'const' else ('lenof', t[1])

    def binop(self, st, op, a, b, ty):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'slen' and op == 'Add':
                return ('slen', x[1] + (y,))
            if x[0] == 'dent' and y[0] == 'i' and (op == 'Add' or op == 'Sub' and x is a):
                k = x[2] + (y[1] if op == 'Add' else -y[1])
                if abs(k) > 6:
                    raise Unmodelled('indentation grows')
                if k < 0:
                    self.report(st, self.vkey(st, 'indentation below start'), 'the indentation drops below the level at which the node started')
                    raise Prune()
                return ('dent', x[1], k)
        return None

    def ret(self, st, val):
        try:
            self.clean(st)
            spec, sep, last, sink, dent = st.dom
            while True:
                spec = self.settle(st, spec, True)
                while spec and spec[0][0] in ('SP', 'NONL', 'NOSP', 'glued', 'first'):
                    if spec[0] == NOSP and sep:
                        raise SpecError('space in literal text', 'white space printed next to literal text')
                    spec = spec[1:]
                if spec and spec[0][0] in ('semi?', 'may'):
                    spec = spec[1:]
                    continue
                if spec and spec[0][0] == 'TERM':
                    self.noterm = True
                    spec = spec[1:]
                    continue
                break
            if spec:
                raise SpecError('missing %s' % self.describe(spec), 'the printer returns without printing %s' % self.describe(spec))
            if self.rootname == 'Module':
                if 'sink' not in repr(val):
                    raise SpecError('output not returned', 'the printed text is not what is returned')
                return
            g = st.heap[self.genroot]
            for f in g[3]:
                if f[0] == 'dent' and f[2] != 0:
                    raise SpecError('indentation not restored', 'the indentation is %+d after the node' % f[2])
        except SpecError as e:
            self.report(st, self.vkey(st, e.key), e.msg)

    noterm = False
    created = False
    panics = None

    def panic(self, st, what, where):
        if self.variant == 'Error':
            return
        self.report(st, self.vkey(st, 'panics'), 'printing this node panics: %s' % what, where)

    def small_overflow(self, st, a, b, bits):
        if a[0] in ('dent', 'cnt', 'lenof', 'slen') or b[0] in ('dent', 'cnt', 'lenof', 'slen'):
            self.report(st, self.vkey(st, 'wraps a count of %d bits' % bits), 'printing goes wrong when a count exceeds %d bits' % bits)

    def deref(self, st, v):
        if v == ('sink',) or v[0] == 'altered':
            return ('K', v), ()
        return None

    def loaded(self, st, root, proj, v):
        return v


def gen_value(prog, eng, tid):
    ty = prog.types[tid]
    fs = []
    for f in ty['variants'][0]['fields']:
        t = prog.types[f[1]]
        if t['k'] == 'adt' and t['name'].endswith('vec::Vec'):
            fs.append(('sink',))
        elif t['k'] == 'int':
            fs.append(('dent', f[0], 0))
        else:
            fs.append(('top', f[1]))
    return ('adt', tid, 0, tuple(fs))


def cut_roots(prog, gen):
    """name of the node type -> entry function for one generator"""
    out = {}
    for f in prog.find(r'ToCode<ratel_codegen::%s>>::to_code$' % gen):
        m = re.match(r"^<ratel::ast::Node<'_, (?:[\w:]*::)?(\w+)(?:<.*>)?> as ratel_codegen::ToCode", f['name'])
        if m and m.group(1) in CUT:
            out[m.group(1)] = f
    return out


class Pred(CG):
    """summary of a recursive predicate over expressions"""
    def __init__(self, prog, fid):
        CG.__init__(self, prog, 'Expression', None, None)
        self.fid = fid
        self.rets = []

    def call(self, st, fn, decl, args):
        return self.recursion(st, fn, args)

    def ret(self, st, val):
        tid, vs = self.facts_of(st, 'self', 'Expression')
        recs = {}
        for k, f in st.facts.items():
            if k[0] == 'sym' and k[1].startswith('rec:') and len(f) == 1:
                recs[k[1].split(':', 2)[2]] = min(f)
        empty = self.lens(st, 'self.body') == frozenset((0,))
        neg = False
        while val[0] == 'not':
            neg, val = not neg, val[1]
        for n in self.names(tid, vs):
            self.rets.append((n, val, neg, recs, empty))

    def panic(self, st, what, where):
        pass


BAD = {'stmt': ('Object', 'Function', 'Class'), 'arrowbody': ('Object',)}


def predicate(prog, fid):
    """-> {(position, value)}: answering `value` implies the expression does not start with a forbidden token"""
    f = prog.fns[fid]
    dom = Pred(prog, fid)
    eng = Engine(prog, dom)
    st = State()
    stid = prog.types[f['locals'][1]]['elem']
    dom.tw = TypeWalk(prog, eng, stid)
    try:
        eng.push_call(st, fid, [('ref', ('S', 'self', stid), ())], None, None)
        eng.run(st)
    except (Unmodelled, EngineLimit):
        return set(), eng
    ok = set()
    for pos, bad in BAD.items():
        for v in (0, 1):
            good = True
            for n, val, neg, recs, empty in dom.rets:
                if val[0] == 'i':
                    if val[1] ^ int(neg) != v:
                        continue
                    if n in bad:
                        good = False
                    elif n in LEFT and not (n == 'Sequence' and empty) and recs.get('self.' + LEFT[n]) != v:
                        good = False
                elif val[0] == 'sym' and val[1].startswith('rec:'):
                    child = val[1].split(':', 2)[2]
                    if n in bad or n in LEFT and (child != 'self.' + LEFT[n] or neg):
                        good = False
                elif n in bad or n in LEFT:
                    good = False
            if good:
                ok.add((pos, v))
    return ok, eng


def jobs(prog):
    out, un = [], []
    for gen in ('MinifyingGenerator', 'PrettyGenerator'):
        roots = cut_roots(prog, gen)
        for ty in sorted(CUT):
            if ty not in roots:
                un.append('%s: no printer found for %s' % (gen, ty))
                continue
            specs = SPECS[ty]
            for var, spec in (specs.items() if isinstance(specs, dict) else [(None, specs)]):
                if spec != ('*unreachable*',):
                    out.append((roots[ty]['id'], gen, ty, var, spec))
        f = prog.find(r'^ratel_codegen::codegen$')
        if f:
            out.append((f[0]['id'], gen, 'Module', None, (Each('self.body', (C('%'),)),)))
        else:
            un.append('codegen not found')
    # long ones first
    out.sort(key=lambda j: -({'Binary': 9, 'Import': 8, 'For': 7, 'Method': 6, 'Literal': 6}.get(j[3], 0)))
    return out, un


def run_job(prog, job):
    fid, gen, ty, var, spec = job
    f = prog.fns[fid]
    dom = CG(prog, ty, var, gen)
    eng = Engine(prog, dom)
    un = []
    st = State()
    stid = prog.types[f['locals'][1]]['elem']
    dom.tw = TypeWalk(prog, eng, stid)
    label = '%s %s' % (gen, dom.label())
    t0 = time.time()
    if var is not None:
        tid = dom.tw.adt('self', ty)
        vi = [i for i, v in enumerate(prog.types[tid]['variants']) if v['name'] == var]
        if not vi:
            return {'label': label, 'un': ['%s has no variant %s' % (ty, var)]}
        st.facts[('self', tid)] = frozenset(vi)
    seeds = [{}]
    for name, q in (('Template', 'self'), ('TaggedTemplate', 'self.quasi')):
        if var == name:
            # the parser always produces one more chunk than expressions (property S05)
            seeds = [{('#', q + '.quasis'): frozenset((1,)), ('#', q + '.expressions'): frozenset((0,))},
                     {('#', q + '.quasis'): frozenset((2,)), ('#', q + '.expressions'): frozenset((1, 2))}]
    st.dom = (tuple(spec), 0, None, (None, None, None), 0)
    if ty == 'Module':
        args = [('ref', ('S', 'self', stid), ()), ('i', int(gen == 'MinifyingGenerator'))]
    else:
        gr = st.alloc(gen_value(prog, eng, prog.types[f['locals'][2]]['elem']))
        dom.genroot = gr
        dom.roots = lambda s: (gr,)
        args = [('ref', ('S', 'self', stid), ()), ('ref', gr, ())]
    try:
        eng.push_call(st, fid, args, None, None)
        t0 = time.time()
        for sd in seeds:
            c = st.copy()
            c.facts.update(sd)
            eng.run(c)
    except (Unmodelled, EngineLimit) as e:
        un.append('%s: %s' % (label, e))
    for u in eng.unmodelled:
        un.append('%s: unmodelled %s' % (label, u))
    preds = {}
    for fid in dom.recfns:
        ok, pe = predicate(prog, fid)
        preds[fid] = ok
        eng.fns_seen |= pe.fns_seen | {fid}
    for n, path, pos, lf in dom.lead:
        if lf is not None and not any((pos, v) in preds.get(x, ()) for x, v in lf):
            dom.parenviol.setdefault((path, pos), set()).add('%s whose first operand may be an object, function or class' % n)
    return {'label': label, 'gen': gen, 'node': dom.label(), 'un': un, 'viol': dom.violations, 'glue': dom.glue, 'unguarded': dom.unguarded, 'paren': dom.paren,
            'parenviol': dom.parenviol, 'noterm': dom.noterm, 'empties': dom.empties, 'fns': eng.fns_seen, 'obl': dom.obl, 'states': eng.nstates, 'wall': time.time() - t0, 'steps': eng.nsteps}


def run_all(prog, par=None):
    import par as P
    js, un = jobs(prog)
    res = {'violations': {}, 'unanalysed': un, 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'paren': {}, 'parenviol': {}, 'noterm': set(), 'labels': [], 'times': []}
    rs = P.pmap(lambda j: run_job(prog, j), js)
    guard = {}
    for r in rs:
        if r.get('node') in ('Expression::Prefix', 'Expression::Literal'):
            guard.setdefault(r['gen'], set()).update(r['unguarded'])
    for r in rs:
        res['unanalysed'] += r['un']
        res['labels'].append(r['label'])
        if 'gen' not in r:
            continue
        gen = r['gen']
        for k, v in r['viol'].items():
            res['violations'][(gen, k)] = v
        for k, v in r['glue'].items():
            ch = '/' if 'regular' in k else '+' if ('Addition' in k.split(' into ')[1] or 'Increment' in k.split(' into ')[1]) else '-'
            if ch in guard.get(gen, set('+-/')):
                res['violations'][(gen, k)] = v
        for k, v in r['parenviol'].items():
            for kn in v:
                res['parenviol'].setdefault((r['node'],) + k + (kn,), set()).add(gen)
        for k, v in r['paren'].items():
            for kn, s in v.items():
                res['paren'].setdefault((r['node'],) + k + (kn,), {})[gen] = frozenset(s)
        if r['noterm']:
            res['noterm'].add((gen, r['node']))
        res['functions'] |= r['fns']
        res['obligations'] += r['obl']
        res['states'] += r['states']
        res['roots'] += 1
        res['times'].append((r['wall'], r['states'], r['label']))
    # an empty statement may only be handed to its printer where the printer prints something for it
    vanish = {g for g, n in res['noterm'] if n == 'Statement::Empty'}
    for r in rs:
        for p in r.get('empties', ()):
            if r['gen'] in vanish:
                k = '%s: empty statement at %s vanishes' % (r['node'], p)
                res['violations'][(r['gen'], k)] = {'key': k, 'msg': 'an empty statement at %s is printed as nothing although a statement is required there' % p, 'where': r['label'], 'trace': []}
    # the callee of `new` may not contain a bare call
    for (node, path, pos, kn), gs in list(res['paren'].items()):
        if pos == 'newcallee' and kn in ('Member', 'ComputedMember', 'TaggedTemplate'):
            inner = {'Member': ('Expression::Member', 'self.object', 'object'), 'ComputedMember': ('Expression::ComputedMember', 'self.object', 'object'),
                     'TaggedTemplate': ('Expression::TaggedTemplate', 'self.tag', 'lhs')}[kn]
            for g, s in gs.items():
                if False in s and False in res['paren'].get(inner + ('Call',), {}).get(g, ()):
                    res['parenviol'].setdefault((node, path, pos, kn + ' containing a call'), set()).add(g)
    return res


if __name__ == '__main__':
    import facts, time, sys
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'], '|', ' '.join(v['trace'][-12:]))
    for k, v in sorted(r['parenviol'].items()):
        print('PAREN', k, sorted(v))
    for k, v in sorted(r['paren'].items()):
        if len(set(v.values())) > 1:
            print('PDIFF', k, v)
    for r0 in sorted(r['times'])[-8:]: print('T', r0)
    print('noterm', r['noterm'])
    for u in r['unanalysed']:
        print('UNAN', u)
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), time.time() - t)
