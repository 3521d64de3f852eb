"""The ESTree output.

Every Serialize implementation of the tree is run once on a symbolic node with a recording
serializer: the object that it writes is a term over the parts of the node, and is compared
with the format. Parts that are nodes themselves are written by the implementation of their
own kind. A panic on any path is a way to abort on a tree that the parser can produce.
"""
import os, re
from ast import literal_eval
from engine import Engine, State, Domain, Prune, Split, SplitVal, Unmodelled, EngineLimit
from codegen import CG, TypeWalk

S = 'self'


# -------------------------------------------------------------------- format
def N(p): return ('node', p)
def L(p): return ('list', p)
def OPT(p): return ('opt', p)
def TXT(p): return ('text', p)
def K(x): return ('const', x)
def B(x): return ('bool', x)
def POS(p): return ('pos', p)
NULL = ('null',)
def O(kind_, **f): return ('O', kind_, f)
def VAR(p, ty, then, els): return ('var', p, ty, then, els)


def func(p, kind, id_):
    return O(kind, generator=B(p + '.generator'), id=id_, params=L(p + '.params'), body=N(p + '.body'))


def klass(p, kind, id_):
    return O(kind, id=id_, superClass=OPT(p + '.extends'), body=N(p + '.body'))


COMPUTED = ('computed', S + '.key')
EXPR = {
    'This': O('ThisExpression'),
    'Identifier': O('Identifier', name=TXT(S)),
    'Array': O('ArrayExpression', elements=('holes', S + '.body', 'Expression')),
    'Sequence': O('SequenceExpression', expressions=L(S + '.body')),
    'Binary': O(('optype', 'binary'), operator=('op',), left=N(S + '.left'), right=N(S + '.right')),
    'Prefix': ('new', O('NewExpression', callee=N(S + '.operand.callee'), arguments=L(S + '.operand.arguments')),
               O('NewExpression', callee=N(S + '.operand'), arguments=('empty',)),
               O(('optype', 'prefix'), operator=('op',), argument=N(S + '.operand'), prefix=B(1))),
    'Postfix': O(('optype', 'postfix'), operator=('op',), argument=N(S + '.operand'), prefix=B(0)),
    'Object': O('ObjectExpression', properties=L(S + '.body')),
    'Template': O('TemplateLiteral', quasis=('quasis', S + '.quasis'), expressions=L(S + '.expressions')),
    'TaggedTemplate': O('TaggedTemplateExpression', tag=N(S + '.tag'), quasi=N(S + '.quasi')),
    'Spread': O('SpreadElement', argument=N(S + '.argument')),
    'Member': O('MemberExpression', object=N(S + '.object'), property=N(S + '.property'), computed=B(0)),
    'ComputedMember': O('MemberExpression', object=N(S + '.object'), property=N(S + '.property'), computed=B(1)),
    'MetaProperty': O('MetaProperty', meta=N(S + '.meta'), property=N(S + '.property')),
    'Call': O('CallExpression', callee=N(S + '.callee'), arguments=L(S + '.arguments')),
    'Conditional': O('ConditionalExpression', test=N(S + '.test'), consequent=N(S + '.consequent'), alternate=N(S + '.alternate')),
    'Arrow': O('ArrowFunctionExpression', params=L(S + '.params'), body=N(S + '.body')),
    'Function': func(S, 'FunctionExpression', OPT(S + '.name')),
    'Class': klass(S, 'ClassExpression', OPT(S + '.name')),
}
LITERAL = {
    'Undefined': O('Literal', raw=K('undefined')),
    'Null': O('Literal', value=NULL, raw=K('null')),
    'True': O('Literal', value=B(1), raw=K('true')),
    'False': O('Literal', value=B(0), raw=K('false')),
    'Number': O('Literal', value=('number',), raw=TXT(S)),
    'Binary': O('Literal', value=('binary',), raw=TXT(S)),
    'String': O('Literal', value=('cut', S, 1, 'len-1'), raw=TXT(S)),
    'RegEx': O('Literal', regex=('P', 'RegExLiteral', {'pattern': ('cut', S, 1, 'slash'), 'flags': ('cut', S, 'slash+1', 'len')}), raw=TXT(S)),
}
STMT = {
    'Empty': O('EmptyStatement'), 'Debugger': O('DebuggerStatement'),
    'Expression': O('ExpressionStatement', expression=N(S)),
    'Declaration': O('VariableDeclaration', kind=('kind', S + '.kind', 'DeclarationKind', {'Var': 'var', 'Let': 'let', 'Const': 'const'}), declarations=L(S + '.declarators')),
    'Return': O('ReturnStatement', argument=OPT(S + '.value')),
    'Break': O('BreakStatement', label=OPT(S + '.label')),
    'Continue': O('ContinueStatement', label=OPT(S + '.label')),
    'Throw': O('ThrowStatement', argument=N(S + '.value')),
    'If': O('IfStatement', test=N(S + '.test'), consequent=N(S + '.consequent'), alternate=OPT(S + '.alternate')),
    'While': O('WhileStatement', test=N(S + '.test'), body=N(S + '.body')),
    'Do': O('DoWhileStatement', body=N(S + '.body'), test=N(S + '.test')),
    'For': O('ForStatement', init=OPT(S + '.init'), test=OPT(S + '.test'), update=OPT(S + '.update'), body=N(S + '.body')),
    'ForIn': O('ForInStatement', left=N(S + '.left'), right=N(S + '.right'), body=N(S + '.body')),
    'ForOf': O('ForOfStatement', left=N(S + '.left'), right=N(S + '.right'), body=N(S + '.body')),
    'Try': O('TryStatement', block=N(S + '.block'), handler=OPT(S + '.handler'), finalizer=OPT(S + '.finalizer')),
    'Block': O('BlockStatement', body=L(S + '.body')),
    'Labeled': O('LabeledStatement', label=N(S + '.label'), body=N(S + '.body')),
    'Function': func(S, 'FunctionDeclaration', N(S + '.name')),
    'Class': klass(S, 'ClassDeclaration', N(S + '.name')),
    'Switch': O('SwitchStatement', discriminant=N(S + '.discriminant'), cases=L(S + '.cases.body')),
    'Import': O('ImportDeclaration', specifiers=L(S + '.specifiers'), source=('any', TXT(S + '.source'), N(S + '.source'))),
}
PATTERN = {
    'Identifier': O('Identifier', name=TXT(S)),
    'ObjectPattern': O('ObjectPattern', keys=L(S + '.properties')),
    'ArrayPattern': O('ArrayPattern', elements=('holes', S + '.elements', 'Pattern')),
    'AssignmentPattern': O('AssignmentPattern', left=N(S + '.left'), right=N(S + '.right')),
    'RestElement': O('RestElement', argument=N(S + '.argument')),
}
PROPERTY = {
    'Shorthand': O('Identifier', name=TXT(S)),
    'Literal': O('Property', key=N(S + '.key'), method=B(0), shorthand=B(0), computed=COMPUTED, value=N(S + '.value'), kind=K('init')),
    'Method': O('Property', key=N(S + '.key'), method=B(1), shorthand=B(0), computed=COMPUTED, value=N(S + '.value'), kind=K('init')),
    'Spread': O('SpreadProperty', argument=N(S + '.argument')),
}
KEY = {'Computed': N(S), 'Literal': O('Identifier', name=TXT(S)), 'Binary': O('Identifier', name=TXT(S))}
MEMBER = {
    'Method': O('MethodDefinition', kind=('kind', S + '.kind', 'MethodKind', {'Constructor': 'constructor', 'Method': 'method', 'Get': 'get', 'Set': 'set'}),
                static=B(S + '.is_static'), computed=COMPUTED, key=N(S + '.key'), value=N(S + '.value')),
    'Literal': O('PropertyDefinition', static=B(S + '.is_static'), computed=COMPUTED, key=N(S + '.key'), value=N(S + '.value')),
}
IMPORT = {
    'ImportSpecifier': O('ImportSpecifier', imported=N(S + '.imported'), local=N(S + '.local')),
    'ImportDefaultSpecifier': O('ImportDefaultSpecifier', local=N(S + '.local')),
    'ImportNamespaceSpecifier': O('ImportNamespaceSpecifier', local=N(S + '.local')),
}
FORINIT = {'Declaration': STMT['Declaration'], 'Expression': O('@Expression self')}
SPECS = [
    (r'Loc<ratel::ast::Statement<', 'Statement', STMT), (r'Loc<ratel::ast::Expression<', 'Expression', EXPR),
    (r'Loc<ratel::ast::Pattern<', 'Pattern', PATTERN), (r'Loc<ratel::ast::Property<|Loc<ratel::ast::expression::Property<', 'Property', PROPERTY),
    (r'Loc<ratel::ast::(expression::)?PropertyKey<', 'PropertyKey', KEY), (r'Loc<ratel::ast::(function::)?ClassMember<', 'ClassMember', MEMBER),
    (r'Loc<ratel::ast::(statement::)?ForImportSpecifier<', 'ForImportSpecifier', IMPORT), (r'Loc<ratel::ast::(statement::)?ForInit<', 'ForInit', FORINIT),
    (r'Loc<ratel::ast::(statement::)?Declarator<', 'Declarator', O('VariableDeclarator', id=N(S + '.id'), init=OPT(S + '.init'))),
    (r'Loc<ratel::ast::(statement::)?SwitchCase<', 'SwitchCase', O('SwitchCase', test=OPT(S + '.test'), consequent=L(S + '.consequent'))),
    (r'Loc<ratel::ast::(statement::)?CatchClause<', 'CatchClause', O('CatchClause', param=N(S + '.param'), body=N(S + '.body'))),
    (r"Loc<ratel::ast::Block<'_, ratel::ast::(statement::)?Statement<", 'Block of statements', O('BlockStatement', body=L(S + '.body'))),
    (r"Loc<ratel::ast::Block<'_, ratel::ast::(function::)?ClassMember<", 'class body', O('ClassBody', body=L(S + '.body'))),
    (r"Loc<ratel::ast::(expression::)?TemplateLiteral<", 'TemplateLiteral', EXPR['Template']),
    (r"Loc<ratel::ast::Function<'_, ratel::ast::EmptyName>>", 'method', func(S, 'FunctionExpression', NULL)),
    (r'Loc<&str>>', 'name', O('Identifier', name=TXT(S))),
    (r'ratel::Module<', 'Module', ('module',)),
]
ASSIGN = {'Assign', 'AddAssign', 'SubtractAssign', 'ExponentAssign', 'MultiplyAssign', 'DivideAssign', 'RemainderAssign', 'BSLAssign', 'BSRAssign', 'UBSRAssign',
          'BitAndAssign', 'BitXorAssign', 'BitOrAssign'}
LOGICAL = {'LogicalAnd', 'LogicalOr'}
UPDATE = {'Increment', 'Decrement'}
UNARY = {'Typeof', 'Void', 'Delete', 'LogicalNot', 'BitwiseNot', 'Addition', 'Subtraction'}
BINARY = {'StrictEquality', 'StrictInequality', 'Lesser', 'LesserEquals', 'Greater', 'GreaterEquals', 'Instanceof', 'In', 'Equality', 'Inequality', 'BitShiftLeft',
          'BitShiftRight', 'UBitShiftRight', 'Addition', 'Subtraction', 'Multiplication', 'Division', 'Remainder', 'Exponent', 'BitwiseAnd', 'BitwiseXor', 'BitwiseOr'}
OPTEXT = {
    'FatArrow': '=>', 'Accessor': '.', 'New': 'new', 'Increment': '++', 'Decrement': '--', 'LogicalNot': '!', 'BitwiseNot': '~', 'Typeof': 'typeof', 'Void': 'void',
    'Delete': 'delete', 'Multiplication': '*', 'Division': '/', 'Remainder': '%', 'Exponent': '**', 'Addition': '+', 'Subtraction': '-', 'BitShiftLeft': '<<',
    'BitShiftRight': '>>', 'UBitShiftRight': '>>>', 'Lesser': '<', 'LesserEquals': '<=', 'Greater': '>', 'GreaterEquals': '>=', 'Instanceof': 'instanceof', 'In': 'in',
    'StrictEquality': '===', 'StrictInequality': '!==', 'Equality': '==', 'Inequality': '!=', 'BitwiseAnd': '&', 'BitwiseXor': '^', 'BitwiseOr': '|', 'LogicalAnd': '&&',
    'LogicalOr': '||', 'Conditional': '?', 'Assign': '=', 'AddAssign': '+=', 'SubtractAssign': '-=', 'ExponentAssign': '**=', 'MultiplyAssign': '*=', 'DivideAssign': '/=',
    'RemainderAssign': '%=', 'BSLAssign': '<<=', 'BSRAssign': '>>=', 'UBSRAssign': '>>>=', 'BitAndAssign': '&=', 'BitXorAssign': '^=', 'BitOrAssign': '|=', 'Spread': '...'}
NUM = ('A01', 'R02')
MINLEN = {'Number': 1, 'Binary': 3, 'String': 2, 'RegEx': 3}


def mk(x, t=None):
    """a value that stands for a computation"""
    return ('sym', '@' + repr(x), t)


def un(v):
    return literal_eval(v[1][1:]) if v[0] == 'sym' and isinstance(v[1], str) and v[1].startswith('@') else None


class AG(Domain):
    """dom = stack of what is being written; the last thing written when it is complete"""

    def __init__(self, prog, label, variant):
        Domain.__init__(self)
        self.p = prog
        self.name = label
        self.variant = variant
        self.obl = 0
        self.folds = set()

    def key(self, st): return st.dom

    def bad(self, st, key, msg, prop='A01'):
        self.report(st, (prop if isinstance(prop, tuple) else (prop,), '%s: %s' % (self.name, key)), '%s: %s' % (self.name, msg))

    # ---- terms
    def term(self, st, v):
        for _ in range(20):
            if v[0] == 'ref':
                r = v[1]
                if r[0] == 'S' and not v[2]:
                    return ('text', r[1])
                if r[0] == 'K' and r[1][0] in ('sl', 'ch', 'oth'):
                    return r[1]
                if r[0] == 'S':
                    raise Unmodelled('text %r' % (v,))
                v = self.eng.load(st, r, v[2])
                continue
            if v[0] == 'sym':
                return ('text', v[1])
            if v[0] == 'str':
                return ('const', v[1])
            if v[0] == 'bytes':
                return ('const', v[1].decode('utf8', 'replace'))
            if v[0] in ('sl', 'ch', 'oth'):
                return v
            break
        raise Unmodelled('text %r' % (v[:2],))

    def minlen(self, st, p):
        lo = MINLEN.get(self.variant, 0) if p == S else 0
        for k, f in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'teq' and k[1][:3] == ('sl', p, 0) and isinstance(k[1][3], int) and f == frozenset((1,)):
                lo = max(lo, k[1][3])
            if isinstance(k, tuple) and k[:2] == ('sym', p + '#1') and f[0] == 'is':
                lo = max(lo, 2)
            if isinstance(k, tuple) and k[0] == 'cmp' and len(f) == 1:
                op, a, b = k[1:4]
                t = next(iter(f))
                if a == ('lenof', p) and b[0] == 'i':
                    n = b[1]
                    if (op, t) in (('Gt', 1), ('Le', 0)):
                        lo = max(lo, n + 1)
                    elif (op, t) in (('Ge', 1), ('Lt', 0), ('Eq', 1)):
                        lo = max(lo, n)
                if b == ('lenof', p) and a[0] == 'i':
                    n = a[1]
                    if (op, t) in (('Lt', 1), ('Ge', 0)):
                        lo = max(lo, n + 1)
                    elif (op, t) in (('Le', 1), ('Gt', 0), ('Eq', 1)):
                        lo = max(lo, n)
        return lo

    def off(self, v):
        if v[0] == 'i':
            return v[1]
        if v[0] == 'lenof':
            return 'len'
        if v[0] == 'lenminus':
            return 'len-%d' % v[2]
        if v[0] == 'sym' and v[1].startswith('idx:'):
            return v[1][4:]
        return None

    def slice(self, st, t, a, b):
        """text slice; panics where the bounds may be wrong"""
        if t[0] != 'text' or a is None or b is None:
            raise Unmodelled('slice of %r' % (t,))
        p = t[1]
        lo = self.minlen(st, p)
        ok = False
        if isinstance(a, int):
            if b == 'len':
                ok = a <= lo
            elif isinstance(b, int):
                ok = a <= b <= lo
            elif isinstance(b, str) and b.startswith('len-'):
                ok = a + int(b[4:]) <= lo
            elif b == 'slash':
                ok = a <= 1
        else:
            ok = (a, b) in (('first+1', 'len'), (1, 'first+1'), ('slash+1', 'len'), ('slash', 'len'), ('len', 'len'), ('flag', 'len'))
        edge = all(x in (0, 1, 'first+1', 'len', 'len-1', 'slash', 'slash+1', 'flag') for x in (a, b)) or self.variant in ('Number', 'Binary')
        if self.variant not in MINLEN or p != S:
            edge = a == 0 and b == 'len'
        self.obl += 1
        return ok and edge, ('sl', p, a, b)

    # ---- what is written
    def put(self, st, v):
        if st.dom and st.dom[-1][0] == 'done':
            raise Unmodelled('two values written')
        self.obl += 1
        if not st.dom:
            st.dom = (('done', v),)
            return
        f = st.dom[-1]
        if f[0] == 'obj':
            if f[4] is None:
                raise Unmodelled('value without a key')
            k = f[4]
            st.ev('%s: %s' % (k, str(v)[:60]))
            if k in dict(f[3]):
                self.bad(st, 'field %s twice' % k, 'the field %s is written twice' % k)
            st.dom = st.dom[:-1] + (('obj', f[1], f[2], f[3] + ((k, v),), None),)
        else:
            self.element(st, f, v)

    def element(self, st, f, v):
        if self.name in ('Expression::Template', 'TemplateLiteral'):
            return self.quasi(st, f, v)
        if len(f[1]) > 2:
            raise Unmodelled('long sequence')
        st.dom = st.dom[:-1] + (('seq', f[1] + (v,)),)

    def quasi(self, st, f, v):
        p = S + '.quasis'
        n, tail = f[1] if f[1] else (0, False)
        if tail:
            self.bad(st, 'piece after the tail', 'a piece of the template is written after the one marked as the last')
        fs = dict(v[3]) if v[0] == 'obj' else {}
        val = fs.get('value')
        raw = dict(val[3]).get('raw') if val and val[0] == 'obj' else None
        at = raw[1] if raw and raw[0] == 'text' else None
        if at not in (p + '[0]', p + '[+]', p + '[old]') or (n == 0) != (at == p + '[0]'):
            self.bad(st, 'another piece', 'piece %d of the template has the text %s' % (n, raw))
            raise Prune()
        want = ('P', 'TemplateElement', {'type': K('TemplateElement'), 'tail': ('tail',), 'value': ('P', 'TemplateElementValue', {'raw': TXT(at), 'cooked': TXT(at)}),
                                         'start': ('pos+', at + '.start', 1), 'end': ('pos+', at + '.end', -1)})
        self.compare(st, v, want, 'quasis[]')
        end = st.facts.get(('end', p))
        t = fs.get('tail')
        last = bool(end)
        if t != ('bool', int(last)):
            self.bad(st, 'tail of a piece', 'a piece of the template that is %s the last one is written with tail: %s' % ('' if last else 'not', t))
        st.dom = st.dom[:-1] + (('seq', (min(n + 1, 2), t == ('bool', 1))),)

    # ---- comparison
    def shown(self, v):
        if v is None:
            return 'nothing'
        k = v[0]
        if k in ('obj',):
            return 'an object %s' % v[1]
        if k in ('null',):
            return 'null'
        return ' '.join(str(x) for x in v)[:70]

    def spec(self, st, s):
        k = s[0]
        if k == 'new':
            op = self.variants(st, S + '.operator', 'OperatorKind')
            if op != {'New'}:
                return s[3]
            x = self.variants(st, S + '.operand', 'Expression')
            return s[1] if x == {'Call'} else s[2]
        return s

    def variants(self, st, path, ty):
        t = self.tw.adt(path, ty)
        if t is None:
            return set()
        vs = self.p.types[t]['variants']
        f = st.facts.get((path, t))
        return {vs[i]['name'] for i in (f if f is not None else range(len(vs)))}

    def optype(self, st, which):
        """names an object may have, None: any"""
        out = set()
        for o in self.variants(st, S + '.operator', 'OperatorKind'):
            if which == 'binary':
                t = 'AssignmentExpression' if o in ASSIGN else 'LogicalExpression' if o in LOGICAL else 'BinaryExpression' if o in BINARY else None
            elif which == 'prefix':
                t = 'UpdateExpression' if o in UPDATE else 'UnaryExpression' if o in UNARY else None
            else:
                t = 'UpdateExpression' if o in UPDATE else None
            out.add(t)
        return out

    def compare(self, st, v, s, at):
        self.obl += 1
        s = self.spec(st, s)
        k = s[0]

        def no(want, prop='A01'):
            self.bad(st, '%s is %s' % (at or 'value', self.shown(v)), '%s is written as %s instead of %s' % (at or 'the node', self.shown(v), want), prop)
        if k == 'O' and not isinstance(s[1], str):
            ts = self.optype(st, s[1][1])
            if None in ts:
                return
            name = ts.pop() if len(ts) == 1 else None
            if ts:
                return self.bad(st, 'type does not depend on the operator', 'nodes of different kinds are written with one type')
            s = ('O', name, s[2])
        if k in ('O', 'P'):
            if v[0] != 'obj':
                return no('an object ' + s[1])
            want = dict(s[2])
            fs = dict(v[3])
            at_ = at + '.' if at else ''
            if k == 'O':
                want['start'], want['end'] = POS(S + '.start'), POS(S + '.end')
                if not s[1].startswith('@'):
                    want['type'] = K(s[1])
            if v[1] != s[1]:
                self.bad(st, '%sobject %s' % (at_, v[1]), 'the object is a %s instead of a %s' % (v[1], s[1]))
            for f in sorted(set(want) | set(fs)):
                if f not in fs:
                    self.bad(st, '%sno field %s' % (at_, f), 'the field %s%s is missing' % (at_, f))
                elif f not in want:
                    self.bad(st, '%sfield %s' % (at_, f), 'there is an additional field %s%s: %s' % (at_, f, self.shown(fs[f])))
                else:
                    self.compare(st, fs[f], want[f], at_ + f)
            if v[2] is not None and v[2] != ('i', len(v[3])) and len(v[3]) == len(want):
                self.bad(st, '%s%s fields announced' % (at_, v[2][1]), '%s fields are announced and %d written' % (v[2][1], len(v[3])))
            return
        if k in ('node', 'list', 'text'):
            if v != s:
                no('%s %s' % (k, s[1]))
        elif k == 'any':
            if v not in s[1:]:
                no('%s %s' % s[1])
        elif k == 'opt':
            t = self.tw.adt(s[1], 'Option')
            f = self.variants(st, s[1], 'Option') if t is not None else set()
            if v == ('null',):
                if f != {'None'}:
                    no('the part if there is one')
            elif v != ('node', s[1]):
                no('node %s' % s[1])
            elif 'None' in f and 'Some' not in f:
                no('null')
        elif k == 'null':
            if v != s:
                no('null')
        elif k == 'const':
            if v != s:
                no(repr(s[1]))
        elif k == 'bool':
            if v != s and not (isinstance(s[1], str) and v[0] == 'bool' and self.fact(st, s[1]) == v[1]):
                no(s[1])
        elif k == 'pos':
            if v not in (('num', s[1]), ('pos+', s[1], 0)):
                no(s[1])
        elif k == 'pos+':
            if v != s:
                no('%s %+d' % s[1:])
        elif k == 'tail':
            if v[0] != 'bool':
                no('a flag')
        elif k == 'computed':
            f = self.variants(st, s[1], 'PropertyKey')
            if v[0] != 'bool' or len(f & {'Computed'}) + len(f - {'Computed'}) > 0 and ('Computed' in f and f != {'Computed'}):
                no('whether the key is in brackets')
            elif v[1] != int(f == {'Computed'}):
                no('true' if f == {'Computed'} else 'false')
        elif k == 'kind':
            f = self.variants(st, s[1], s[2])
            if v[0] != 'const' or {s[3].get(x) for x in f} != {v[1]}:
                no('/'.join(sorted(str(s[3].get(x)) for x in f)))
        elif k == 'op':
            f = self.variants(st, S + '.operator', 'OperatorKind')
            if v[0] != 'const' or {OPTEXT.get(x) for x in f} != {v[1]}:
                no('/'.join(sorted(str(OPTEXT.get(x)) for x in f)))
        elif k == 'empty':
            if v != ('seq', ()):
                no('an empty list')
        elif k == 'cut':
            if v != ('sl',) + s[1:]:
                no('the text of the literal from %s to %s' % (s[2], s[3]))
        elif k in ('number', 'binary'):
            self.number(st, v, k, no)
        elif k == 'holes':
            if v[0] != 'vec':
                return no('the elements, with null for holes')
            for x in v[1]:
                item, facts = x
                t = self.tw.adt(s[1] + '[*]', s[2])
                f = None
                for kk, ff in facts:
                    if kk[0] == s[1] + '[*]' and len(kk) == 2 and kk[1] == t:
                        f = {self.p.types[t]['variants'][i]['name'] for i in ff}
                if item == ('null',):
                    if f != {'Void'}:
                        self.bad(st, '%s: element dropped' % at, 'an element that is no hole is written as null')
                elif item != ('node', s[1] + '[*]'):
                    no('the elements')
                elif f is None or 'Void' in f:
                    self.bad(st, '%s: hole written as a node' % at, 'a hole of the list is written as if it were an element')
            if v[2] is False:
                self.bad(st, '%s: trailing holes' % at, 'holes at the end of the list are written')
        elif k == 'quasis':
            if v[0] != 'seq':
                return no('the pieces of the template')
            n = v[1][0] if v[1] else 0
            ln = st.facts.get(('#', s[1]), frozenset((0, 1, 2)))
            if ln != frozenset((n,)) or not st.facts.get(('end', s[1])):
                self.bad(st, '%s: pieces' % at, '%d pieces of a template with %s pieces are written' % (n, sorted(ln)))
            elif n and not v[1][1]:
                self.bad(st, '%s: no tail' % at, 'no piece of the template is marked as the last')
        else:
            raise Unmodelled('format ' + k)

    def fact(self, st, path):
        for t in self.tw.at(path):
            f = st.facts.get(('sym', path, t)) or st.facts.get((path, t))
            if f and len(f) == 1:
                return next(iter(f))
        return None

    def prefix(self, st):
        """(prefixes the text is known to have, prefixes it is known not to have)"""
        yes, non = set(), set()
        for k, f in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'teq' and k[1][:1] == ('sl',) and k[1][1:] == (S, 0, 2) and len(f) == 1:
                (yes if 1 in f else non).add(k[2][1])
        # single bytes
        by = [st.facts.get(('sym', '%s#%d' % (S, i), None)) for i in (0, 1)]

        def may(i, c):
            f = by[i]
            return None if f is None or f[0] == 'not' and c not in f[1] else f == ('is', c)
        for c in 'xXoO':
            x = (may(0, ord('0')), may(1, ord(c)))
            if x == (True, True):
                yes.add('0' + c)
            if False in x:
                non.add('0' + c)
        return yes, non

    def number(self, st, v, kind, no):
        yes, non = self.prefix(st)
        short = self.short(st)
        if kind == 'binary':
            radix, cut = 2, ('sl', S, 2, 'len')
        elif yes & {'0x', '0X'}:
            radix, cut = 16, ('sl', S, 2, 'len')
        elif yes & {'0o', '0O'}:
            radix, cut = 8, ('sl', S, 2, 'len')
        elif short or {'0x', '0X', '0o', '0O'} <= non:
            radix, cut = 10, ('text', S)
        elif self.other(st):
            raise Unmodelled('radix of a number')
        else:
            return self.bad(st, 'radix not looked at', 'the number is converted without a look at its prefix', NUM)
        if v[0] != 'numeral' and ('looped',) in st.facts:
            raise Unmodelled('conversion of a number in a loop')
        if v[0] != 'numeral' or v[1] == 'f32':
            return no('the value of the literal', NUM)
        if v[2] != radix and v[2] is not None or v[2] is None and radix != 10:
            self.bad(st, 'radix %s for %s' % (v[2], radix), 'a literal of radix %d is read with radix %s' % (radix, v[2]), NUM)
        if v[3] != cut:
            self.bad(st, 'digits %s' % (self.shown(v[3]),), 'the value is read from %s instead of %s' % (self.shown(v[3]), self.shown(cut)), NUM)

    # ---- calls
    def path(self, st, a):
        """path and type of a reference into the tree"""
        for _ in range(8):
            if a[0] == 'ref' and a[1][0] == 'S' and not a[2]:
                return a[1][1], a[1][2]
            if a[0] == 'sym':
                return a[1], a[2]
            if a[0] == 'adt' and self.eng.short(a[1]) in ('Node', 'CopyCell') and a[3]:
                a = a[3][0]
                continue
            if a[0] == 'ref':
                a = self.eng.load(st, a[1], a[2])
                continue
            return None, None
        return None, None

    def unit(self): return ('tup', ())

    def ok(self, fn, v):
        t = fn['locals'][0] if 'locals' in fn else None
        return ('adt', t, 0, (v,))

    def call(self, st, fn, decl, args):
        n = fn['name']
        d = decl or ''
        if d.startswith('serde::Serializer::') or d.startswith('serde::ser::Serializer::'):
            return self.prim(st, d.rsplit('::', 1)[1], fn, args)
        m = re.match(r'serde::ser::(Serialize\w+)::(\w+)$', d)
        if m:
            return self.compound(st, m.group(2), fn, args)
        if d in ('serde::Serialize::serialize', 'serde::ser::Serialize::serialize'):
            return self.serialize(st, fn, args)
        if d.endswith('SerializeInLoc::serialize') and not st.dom:
            p, t = self.path(st, args[0])
            if p == S and self.name.startswith('ForInit') and re.search(r'for ratel::ast::Expression<|<ratel::ast::Expression<', n):
                st.dom = st.dom + (('obj', '@Expression self', None, (), None),)
                return [(None, self.ok(fn, args[1]))]
        if re.search(r'toolshed::list::UnsafeList|toolshed::list::List::<.*>::(into_unsafe)', n):
            return None
        if re.search(r'<.*str as (std|core)::(ops|slice)::.*Index<.*>>::index$|str::traits::<impl .*Index<.*> for str>::index$|<impl str>::get_unchecked::<', n):
            return self.substr(st, fn, args, 'get_unchecked' in n)
        if d in ('std::cmp::PartialEq::eq', 'core::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'core::cmp::PartialEq::ne') and len(args) == 2 and re.search(r'for &*str>|^<&*str as', n):
            return self.texteq(st, args, d.endswith('::ne'))
        m = re.search(r'num::<impl (\w+)>::from_str_radix$', n)
        if m:
            t = self.term(st, args[0])
            r = args[1][1] if args[1][0] == 'i' else None
            return self.parsed(st, fn, ('numeral', m.group(1), r, t))
        m = re.search(r'<impl str>::parse::<(\w+)>$', n)
        if m:
            t = self.term(st, args[0])
            ty = m.group(1)
            yes, non = self.prefix(st)
            short = self.short(st)
            if self.other(st) and not (short or {'0x', '0X', '0o', '0O'} <= non or yes):
                raise Unmodelled('radix of a number')
            sure = ty in ('f64', 'f32') and t == ('text', S) and self.variant == 'Number' and (short or {'0x', '0X', '0o', '0O'} <= non)
            return self.parsed(st, fn, ('numeral', ty, 10 if ty[0] in 'iu' else None, t), sure)
        if re.search(r'Iterator(>)?::fold::<f(64|32)', n) or re.search(r'as std::iter::Iterator>::fold::<f64', n):
            it = args[0]
            src = self.bytesof(st, it)
            if src is not None and args[2][0] == 'clo':
                cap = [self.capture(st, x) for x in args[2][2]] if len(args[2]) > 2 else []
                self.folds.add((args[2][1], tuple(cap), args[1]))
                r = next((c[1] for c in cap if c and c[0] == 'i'), None)
                return [(None, mk(('fold', r, src), fn['locals'][0]))]
        if re.search(r'Iterator>::(any|all)::<', n):
            src = self.anybytes(st, args[0])
            if src is None or args[1][0] != 'clo':
                return None
            key = ('any', src, args[1][1])
            out = []
            for x in sorted(st.facts.get(key, frozenset((0, 1)))):
                def m(c, x=x):
                    c.facts[key] = frozenset((x,))
                out.append((m, ('i', x)))
            return out
        m = re.search(r'<impl str>::(trim\w*?|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)(::<.*)?$', n)
        if m:
            return self.altered(st, fn, m.group(1), args)
        if re.search(r'<impl str>::starts_with::<&str>$', n):
            pat = self.term(st, args[1])
            t = self.term(st, args[0])
            if pat[0] == 'const' and t[0] == 'text':
                return self.textis(st, ('sl', t[1], 0, len(pat[1])), pat, False)
            return None
        if re.search(r'<impl str>::get::<std::ops::Range', n):
            return self.substr(st, fn, args, 'get')
        if re.search(r'<impl str>::rfind::<char>$', n) and args[1] == ('i', ord('/')) and self.variant == 'RegEx' and self.term(st, args[0]) == ('text', S):
            return [(None, ('adt', fn['locals'][0], 1, (('sym', 'idx:slash', None),)))]
        m = re.search(r'<impl str>::(find|rfind|contains)::<(char|&str|\{closure)', n)
        if m:
            t = self.term(st, args[0])
            pat = args[1][1] if args[1][0] == 'i' else None
            if pat is None and m.group(2) == '&str':
                q = self.term(st, args[1])
                pat = ord(q[1]) if q[0] == 'const' and len(q[1]) == 1 else None
            rt = fn['locals'][0]
            if self.variant == 'RegEx' and m.group(1) == 'find' and pat == ord('/'):
                if t == ('text', S):
                    return [(None, ('adt', rt, 1, (('i', 0),)))]
                if t == ('sl', S, 1, 'len'):
                    return [(None, ('adt', rt, 1, (('sym', 'idx:first', None),)))]
            if t == ('text', S) and self.variant in ('Number', 'Binary'):
                if pat not in (ord('.'), ord('e'), ord('E')):
                    st.facts[('looked',)] = frozenset((1,))
                key = ('has', pat)
                out = []
                for x in sorted(st.facts.get(key, frozenset((0, 1))) if pat is not None else (0, 1)):
                    def m1(c, x=x):
                        if pat is not None:
                            c.facts[key] = frozenset((x,))
                    out.append((m1, ('i', x) if m.group(1) == 'contains' else ('adt', rt, x, (('sym', 'idx:at', None),) if x else ())))
                return out
            raise Unmodelled('search in a text')
        if re.search(r'<std::str::(Bytes|Chars)<.*> as std::iter::Iterator>::next$', n):
            src = self.anybytes(st, args[0])
            if src is None:
                return None
            st.facts[('looked',)] = st.facts[('looped',)] = frozenset((1,))
            rt = fn['locals'][0]
            return [(None, ('adt', rt, 0, ())), (None, ('adt', rt, 1, (('top', None),)))]
        if re.search(r'<impl str>::chars$', n):
            return [(None, ('adt', fn['locals'][0], 0, (mk(('bytes', self.term(st, args[0]))),)))]
        if re.search(r'<impl str>::bytes$', n):
            return [(None, ('adt', fn['locals'][0], 0, (mk(('bytes', self.term(st, args[0]))),)))]
        if re.search(r'<std::ops::Range<usize> as std::iter::DoubleEndedIterator>::next_back$|<impl std::iter::DoubleEndedIterator for std::ops::Range<.*>>::next_back$', n):
            return self.backward(st, fn, args)
        if re.search(r'<impl \[.*\]>::last$', n):
            return self.last(st, fn, args)
        if re.search(r'^std::vec::Vec::<.*>::pop$', n):
            return self.pop(st, fn, args)
        if re.search(r'^std::vec::Vec::<.*>::push$', n):
            st.facts.pop(('lost',), None)
            return None
        if re.search(r'^std::vec::Vec::<.*>::retain(::<|$)', n):
            return self.retain(st, fn, args)
        return None

    def short(self, st):
        """is the literal known to have at most two bytes"""
        for k, f in st.facts.items():
            if isinstance(k, tuple) and k[0] == 'cmp' and k[2] == ('lenof', S) and k[3][0] == 'i' and len(f) == 1:
                n, t = k[3][1], (k[1], next(iter(f)))
                if t in (('Gt', 0), ('Le', 1), ('Eq', 1)) and n <= 2 or t in (('Lt', 1), ('Ge', 0)) and n <= 3:
                    return True
        return False

    def capture(self, st, x):
        for _ in range(5):
            if x[0] == 'ref':
                x = self.eng.load(st, x[1], x[2])
        return x

    def bytesof(self, st, it):
        x = un(it[3][0]) if it[0] == 'adt' and it[3] else None
        return x[1] if x and x[0] == 'bytes' else None

    def anybytes(self, st, it):
        for _ in range(4):
            if it[0] != 'ref':
                break
            it = self.eng.load(st, it[1], it[2])
        return self.bytesof(st, it)

    def other(self, st):
        """is there a look at the literal that may tell its radix in a way that is not followed"""
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == 'looked':
                return True
            if isinstance(k, tuple) and k[0] == 'any':
                f = self.p.types[k[2]].get('fn')
                txt = repr(self.p.fns[f].get('blocks')) if f is not None else '120'
                if re.search(r'\b(120|88|111|79)\b', txt):
                    return True
        return False

    def parsed(self, st, fn, v, sure=False):
        rt = fn['locals'][0]
        vs = self.p.types[rt]['variants']
        okt = vs[0]['fields'][0][1]
        out = [(None, ('adt', rt, 0, (mk(v, okt),)))]
        if not sure:
            out.append((None, ('adt', rt, 1, (('top', vs[1]['fields'][0][1]),))))
        return out

    def texteq(self, st, args, neg):
        a, b = self.term(st, args[0]), self.term(st, args[1])
        if a[0] == 'const' and b[0] != 'const':
            a, b = b, a
        if a[0] == 'const':
            return [(None, ('i', int((a == b) != neg)))]
        if a == b:
            return [(None, ('i', int(not neg)))]
        if a[0] == 'ch':
            if b != ('const', '/'):
                raise Unmodelled('comparison with %r' % (b,))
            if a[1] in ('slash', 'flag'):
                return [(None, ('i', int((a[1] == 'slash') != neg)))]
            return [(None, ('i', 0)), (None, ('i', 1))]
        return self.textis(st, a, b, neg)

    def textis(self, st, a, b, neg):
        key = ('teq', a, b)
        got = st.facts.get(key, frozenset((0, 1)))
        # one text, two different constants of the same length
        if 1 in got and a[0] == 'sl' and any(isinstance(k, tuple) and k[0] == 'teq' and k[1] == a and k[2] != b and f == frozenset((1,)) for k, f in st.facts.items()):
            got = frozenset((0,))
        out = []
        for x in sorted(got):
            def m(c, x=x):
                c.facts[key] = frozenset((x,))
            out.append((m, ('i', x ^ int(neg))))
        return out

    def substr(self, st, fn, args, raw):
        t = self.term(st, args[0])
        r = args[1]
        if t[0] != 'text' or r[0] != 'adt':
            raise Unmodelled('slice of %r' % (t[:2],))
        sh = self.eng.short(r[1])
        fs = r[3]
        if sh == 'Range':
            a, b = self.off(fs[0]), self.off(fs[1])
        elif sh == 'RangeFrom':
            a, b = self.off(fs[0]), 'len'
        elif sh == 'RangeTo':
            a, b = 0, self.off(fs[0])
        elif sh == 'RangeInclusive' and fs[0] == fs[1] == ('i', 0) and self.variant == 'RegEx':
            return [(None, ('bytes', b'/'))]
        elif sh == 'RangeInclusive' and fs[0] == fs[1] and isinstance(self.off(fs[0]), str):
            a = self.off(fs[0])
            if a not in ('flag', 'slash'):
                self.bad(st, 'byte of the text', 'the text of the literal is cut inside of a character', 'A02')
            return [(None, ('ref', ('K', ('ch', a)), ()))]
        else:
            raise Unmodelled('slice by ' + sh)
        ok, v = self.slice(st, t, a, b)
        if raw == 'get':
            rt = fn['locals'][0]
            out = [(None, ('adt', rt, 1, (('ref', ('K', v), ()),)))]
            if not ok:
                if a == 0 and isinstance(b, int):
                    key = ('cmp', 'Lt', ('lenof', t[1]), ('i', b))
                    out = [(lambda c: c.facts.__setitem__(key, frozenset((0,))), out[0][1]),
                           (lambda c: c.facts.__setitem__(key, frozenset((1,))), ('adt', rt, 0, ()))]
                else:
                    out.append((None, ('adt', rt, 0, ())))
            return out
        if not ok:
            self.bad(st, 'slice from %s to %s' % (a, b), 'the text of the literal may be shorter than the part that is taken (from %s to %s), or be cut inside of a character' % (a, b), 'A02')
        return [(None, ('ref', ('K', v), ()))]

    def altered(self, st, fn, how, args):
        """a text that is cut or changed according to its content"""
        t = self.term(st, args[0])
        if t[0] == 'const':
            return None
        whole = t[0] == 'text'
        lit = self.variant if whole and t[1] == S or t[0] == 'sl' else None
        quasi = whole and '.quasis' in t[1]
        if how.startswith('trim') and len(args) == 1:
            if not quasi and (lit != 'String' or whole) and (lit != 'RegEx' or whole) and t[0] != 'oth':
                return [(None, args[0])]
        elif how.startswith('trim'):
            if lit in ('Number', 'Binary') and not (t[0] == 'sl' and how in ('trim_right_matches', 'trim_end_matches', 'trim_matches')):
                raise Unmodelled('text without what matches a pattern')
            if lit == 'RegEx' or t[0] == 'oth':
                raise Unmodelled('text without what matches a pattern')
        elif lit in ('Number', 'Binary') or t[0] == 'oth':
            raise Unmodelled('text in another case')
        return [(None, ('ref', ('K', ('oth', how) + t), ()))]

    def backward(self, st, fn, args):
        ref = args[0]
        r = self.eng.load(st, ref[1], ref[2])
        if self.variant != 'RegEx' or r[0] != 'adt':
            return None
        a, b = self.off(r[3][0]), self.off(r[3][1])
        if not isinstance(a, int) or a > 1:
            raise Unmodelled('backward from %r' % (a,))
        rt = fn['locals'][0]

        def go(where):
            def m(c):
                i = ('sym', 'idx:' + where, None)
                self.eng.store(c, ref[1], ref[2], ('adt', r[1], r[2], (r[3][0], i)))
                return ('adt', rt, 1, (i,))
            return (m, None)
        if b in ('len', 'flag'):
            return [go('flag'), go('slash')]
        if b in ('slash', 'body'):
            return [go('body'), (None, ('adt', rt, 0, ()))]
        raise Unmodelled('backward from %r' % (b,))

    def last(self, st, fn, args):
        v = args[0]
        while v[0] == 'ref':
            v = self.eng.load(st, v[1], v[2])
        if v[0] != 'vec':
            return None
        rt = fn['locals'][0]
        out = []

        def em(c):
            c.facts[('last',)] = 'none'
        out.append((em, ('adt', rt, 0, ())))
        for x, fs in v[1]:
            def m(c, x=x):
                nul = x[0] == 'adt' and x[2] == 0
                c.facts[('last',)] = 'hole' if nul else 'elem'
                return ('adt', rt, 1, (('ref', c.alloc(x), ()),))
            out.append((m, None))
        return out

    def pop(self, st, fn, args):
        v = args[0]
        while v[0] == 'ref':
            v = self.eng.load(st, v[1], v[2])
        if v[0] != 'vec':
            return None
        rt = fn['locals'][0]
        l = st.facts.get(('last',))
        if l == 'elem':
            self.bad(st, 'element dropped', 'an element is taken off the end of the list')

        def m(c):
            c.facts.pop(('last',), None)
        if l is not None:
            return [(m, ('adt', rt, 1, (('top', None),)))]

        # nobody has looked at the last element
        def none(c):
            c.facts[('last',)] = 'none'
        out = [(none, ('adt', rt, 0, ()))]
        for x, fs in v[1]:
            def go(c, x=x):
                if not (x[0] == 'adt' and x[2] == 0):
                    c.facts[('lost',)] = frozenset((1,))
                return ('adt', rt, 1, (x,))
            out.append((go, None))
        return out

    def retain(self, st, fn, args):
        v, clo = args[0], args[1]
        while v[0] == 'ref':
            v = self.eng.load(st, v[1], v[2])
        if v[0] != 'vec' or clo[0] != 'clo':
            return None
        fid = self.p.types[clo[1]].get('fn')
        if fid is None:
            raise Unmodelled('closure of retain')
        unit = self.unit()

        def post(e, s, val):
            if val[0] != 'i':
                val = self.decide(s, val)
            if val == ('i', 0):
                self.bad(s, 'element dropped', 'elements are taken out of the list')
            return unit
        if not v[1]:
            return [(None, unit)]
        if ('retain',) not in st.facts:
            raise SplitVal([(lambda c, i=i: c.facts.__setitem__(('retain',), frozenset((i,)))) for i in range(len(v[1]))])
        x = v[1][next(iter(st.facts.pop(('retain',))))][0]
        return ('inline', fid, [('ref', st.alloc(clo), ()), ('ref', st.alloc(x), ())], post)

    # ---- the serializer
    def prim(self, st, m, fn, args):
        unit = self.ok(fn, self.unit())
        if m == 'serialize_bool':
            v = args[1]
            if v[0] not in ('i', 'sym'):
                v = self.decide(st, v)
            self.put(st, ('bool', v[1]))
            return [(None, unit)]
        if m in ('serialize_none', 'serialize_unit', 'serialize_unit_struct'):
            self.put(st, ('null',))
            return [(None, unit)]
        if m == 'serialize_some':
            return None
        if m == 'collect_seq':
            v = args[1]
            while v[0] == 'ref' and v[1][0] != 'S':
                v = self.eng.load(st, v[1], v[2])
            if v[0] == 'vec':
                self.elems(st, v)
                return [(None, unit)]
            if v[0] == 'sym':
                self.put(st, ('list', v[1]))
                return [(None, unit)]
            if v == ('arr', ()):
                self.put(st, ('seq', ()))
                return [(None, unit)]
            raise Unmodelled('sequence %r' % (v[:1],))
        if m == 'serialize_str':
            t = self.term(st, args[1])
            self.put(st, t)
            return [(None, unit)]
        if re.match(r'serialize_[iuf]\d+$', m):
            v = args[1]
            x = un(v)
            if x is not None and x[0] == 'numeral' and m != 'serialize_' + x[1]:
                x = ('converted from %s with %s' % (x[1], m[10:]),)
            if x is not None:
                self.put(st, x if x[0] == 'numeral' else ('numeral', 'fold', x[1], x[2]) if x[0] == 'fold' else x)
            elif v[0] == 'sym':
                self.put(st, ('num', v[1]))
            elif v[0] == 'i':
                self.put(st, ('int', v[1]))
            else:
                self.put(st, ('unknown number',))
            return [(None, unit)]
        if m in ('serialize_seq', 'serialize_tuple'):
            st.dom = st.dom + (('seq', ()),)
            return [(None, self.ok(fn, args[0]))]
        if m == 'serialize_struct':
            t = self.term(st, args[1])
            st.dom = st.dom + (('obj', t[1], args[2], (), None),)
            st.ev('object %s' % t[1])
            return [(None, self.ok(fn, args[0]))]
        raise Unmodelled('serializer ' + m)

    def decide(self, st, v):
        if v[0] == 'not':
            x = self.decide(st, v[1])
            if x[0] == 'i':
                return ('i', 1 - x[1])
        if v[0] in ('cmp', 'streq'):
            f = st.facts.get(v, frozenset((0, 1)))
            if len(f) == 1:
                return ('i', next(iter(f)))
            raise SplitVal([(lambda c, x=x: c.facts.__setitem__(v, frozenset((x,)))) for x in (0, 1)])
        if v[0] == 'sym':
            f = st.facts.get(v, frozenset((0, 1)))
            if len(f) == 1:
                return ('i', next(iter(f)))
            raise SplitVal([(lambda c, x=x: c.facts.__setitem__(v, frozenset((x,)))) for x in (0, 1)])
        raise Unmodelled('flag %r' % (v[:2],))

    def compound(self, st, m, fn, args):
        if m == 'serialize_field':
            f = st.dom[-1] if st.dom else None
            if f is None or f[0] != 'obj' or f[4] is not None:
                raise Unmodelled('field outside of an object')
            k = self.term(st, args[1])
            if k[0] != 'const':
                raise Unmodelled('key %r' % (k,))
            st.dom = st.dom[:-1] + (('obj', f[1], f[2], f[3], k[1]),)
            return None
        if m == 'serialize_element':
            if not st.dom or st.dom[-1][0] != 'seq':
                raise Unmodelled('element outside of a list')
            return None
        if m == 'end':
            f = st.dom[-1]
            st.dom = st.dom[:-1]
            if f[0] == 'obj':
                if f[4] is not None:
                    raise Unmodelled('key without value')
                self.put(st, ('obj', f[1], f[2], f[3]))
            else:
                self.put(st, ('seq', f[1]))
            return [(None, self.ok(fn, self.unit()))]
        raise Unmodelled('serializer ' + m)

    def cut(self, n):
        return re.search(r'Loc<|Node<', n) and not re.search(r'ArrowBody<|, ratel::ast::(statement::)?SwitchCase<', n)

    def serialize(self, st, fn, args):
        n = fn['name']
        m = re.search(r'(?:Serialize for |^<&?)(.*?)(?: as serde::(?:ser::)?Serialize)?>+::serialize', n)
        what = n
        unit = self.ok(fn, self.unit())
        if re.search(r'toolshed::list::(List|UnsafeList)<', n):
            p, t = self.path(st, args[0])
            if p is not None:
                self.put(st, ('list', p))
                return [(None, unit)]
            v = args[0]
            while v[0] == 'ref' and v[1][0] != 'S':
                v = self.eng.load(st, v[1], v[2])
            raise Unmodelled('list %r' % (v[:2],))
        if re.search(r'std::vec::Vec<', n) or re.search(r'<\[.*\] as', n) or re.search(r'for \[', n):
            v = args[0]
            while v[0] == 'ref' and v[1][0] != 'S':
                v = self.eng.load(st, v[1], v[2])
            if v[0] == 'vec':
                self.elems(st, v)
                return [(None, unit)]
            return None
        if re.search(r'Loc<', n) and self.cut(n) or re.search(r'Node<', n) and self.cut(n) and 'Option<' not in n:
            p, t = self.path(st, args[0])
            if p is not None:
                self.put(st, ('node', p))
                return [(None, unit)]
        return None

    def elems(self, st, v):
        """a collected vector is written"""
        items = []
        for x, fs in v[1]:
            if x[0] == 'adt' and x[2] == 0 and not x[3]:
                items.append((('null',), fs))
                continue
            if x[0] == 'adt' and x[3]:
                x = x[3][0]
            p, t = self.path(st, x)
            if p is None:
                raise Unmodelled('element %r' % (x[:2],))
            items.append((('node', p), fs))
        l = st.facts.get(('last',))
        if st.facts.get(('lost',)):
            self.bad(st, 'element dropped', 'an element is taken off the end of the list')
        self.put(st, ('vec', tuple(items), l in ('none', 'elem') or not any(i == ('null',) for i, _ in items)))

    def snap(self, st, v):
        """a value made from the current element of a list, together with what is known of the element"""
        at = set()

        def look(x):
            if isinstance(x, tuple):
                if x and x[0] == 'liter':
                    at.add((x[1], x[3]))
                else:
                    for y in x:
                        look(y)
        for fr in st.frames:
            for x in fr.loc.values():
                look(x)
        for x in st.heap.values():
            look(x)
        if len({x[0] for x in at}) != 1:
            raise Unmodelled('collection from %d lists' % len(at))
        lp, pos = max(at)
        cur = lp + ('[0]' if pos == 1 else '[+]')

        def sub(x):
            if isinstance(x, tuple):
                if len(x) >= 3 and x[0] in ('sym', 'S', 'symv') and isinstance(x[1], str) and x[1].startswith(cur):
                    return (x[0], lp + '[*]' + x[1][len(cur):]) + tuple(x[2:])
                return tuple(sub(y) for y in x)
            return x
        fs = frozenset(((lp + '[*]' + k[0][len(cur):],) + k[1:], x) for k, x in st.facts.items()
                       if isinstance(k, tuple) and isinstance(k[0], str) and k[0].startswith(cur))
        return (sub(v), fs)

    # ---- the rest
    def loaded(self, st, root, proj, v): return v

    def index(self, st, v, iv):
        if v[0] == 'sym' and v[1] == S and self.variant in ('Number', 'Binary'):
            if iv[0] == 'i' and iv[1] < 2:
                return ('sym', '%s#%d' % (S, iv[1]), None)
            st.facts[('looked',)] = frozenset((1,))
            return ('top', None)
        return None

    def length(self, st, v):
        if v[0] == 'sl':
            return ('top', None)
        return None

    def binop(self, st, op, a, b, ty):
        if op == 'Sub' and a[0] == 'lenof' and b[0] == 'i':
            if b[1] > self.minlen(st, a[1]):
                self.bad(st, 'length minus %d' % b[1], 'the text may be shorter than %d bytes' % b[1], 'A02')
            return ('lenminus', a[1], b[1])
        if op in ('Add', 'Sub') and a[0] == 'lenminus' and b[0] == 'i':
            k = a[2] - b[1] if op == 'Add' else a[2] + b[1]
            if k > self.minlen(st, a[1]):
                self.bad(st, 'length minus %d' % k, 'the text may be shorter than %d bytes' % k, 'A02')
            return ('lenminus', a[1], k) if k > 0 else ('lenof', a[1]) if k == 0 else None
        if op in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne'):
            if a[0] == 'lenminus' and b[0] == 'i':
                a, b = ('lenof', a[1]), ('i', b[1] + a[2])
            elif b[0] == 'lenminus' and a[0] == 'i':
                a, b = ('i', a[1] + b[2]), ('lenof', b[1])
        if op in ('Add', 'Sub') and a[0] == 'sym' and a[1].startswith('idx:') and b[0] == 'i':
            return ('sym', '%s%s%d' % (a[1], '+' if op == 'Add' else '-', b[1]), None)
        if op in ('Add', 'Sub') and a[0] == 'sym' and b[0] == 'i' and a[1].endswith(('.start', '.end')):
            return mk(('pos+', a[1], b[1] if op == 'Add' else -b[1]), ty)
        if op in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne') and (a[0] == 'lenof' or b[0] == 'lenof'):
            return ('cmp', op, a, b)
        return None

    def roots(self, st): return ()

    def panic(self, st, what, where):
        if self.name in ('ClassMember::Error', 'Statement::Error', 'Expression::Error'):
            return
        self.bad(st, 'panics', 'serializing this node panics: %s' % re.sub(r'::<.*', '', what), 'A02')

    def assert_unknown(self, st, msg, v, exp):
        pass

    def ret(self, st, val):
        self.obl += 1
        if val[0] != 'adt' or val[2] != 0:
            self.bad(st, 'fails', 'serializing the node reports an error that the serializer has not')
            return
        if len(st.dom) != 1 or st.dom[0][0] != 'done':
            self.bad(st, 'incomplete', 'the object is not closed')
            return
        v = st.dom[0][1]
        if self.spec_ == ('module',):
            return self.module(st, v)
        self.compare(st, v, self.spec_, '')

    def module(self, st, v):
        p = S + '.body'
        ln = st.facts.get(('#', p), frozenset((0, 1, 2)))
        first = {0: ('int', 0)}
        want = {'type': K('Program'), 'body': L(p)}
        fs = dict(v[3]) if v[0] == 'obj' else {}
        if len(ln) != 1:
            self.bad(st, 'positions', 'the positions of the module do not depend on its statements')
            return
        n = next(iter(ln))
        want['start'] = ('is', ('int', 0) if n == 0 else ('num', p + '[0].start'))
        want['end'] = ('is', ('int', 0) if n == 0 else ('num', p + ('[0]' if n == 1 else '[last]') + '.end'))
        for f in sorted(set(want) | set(fs)):
            if f not in fs:
                self.bad(st, 'no field ' + f, 'the field %s is missing' % f)
            elif f not in want:
                self.bad(st, 'field ' + f, 'there is an additional field %s' % f)
            elif want[f][0] == 'is':
                if fs[f] == ('num', p + '[+].end') and f == 'end' and n == 2 and st.facts.get(('end', p)):
                    continue
                if fs[f] != want[f][1]:
                    self.bad(st, '%s is %s' % (f, self.shown(fs[f])), '%s of the module is %s instead of %s' % (f, self.shown(fs[f]), self.shown(want[f][1])))
            else:
                self.compare(st, fs[f], want[f], f)
        if v[2] != ('i', len(v[3])):
            self.bad(st, '%s fields announced' % v[2][1], '%s fields are announced and %d written' % (v[2][1], len(v[3])))


class FC(Domain):
    """one step of a conversion of digits: terms over the value so far and the next byte"""

    def __init__(self, prog):
        Domain.__init__(self)
        self.p = prog
        self.out = []

    def key(self, st): return None

    def enc(self, v):
        x = un(v)
        if x is not None:
            return x
        if v[0] == 'i':
            return v
        if v[0] == 'sym':
            return ('sym', v[1])
        raise Unmodelled('term %r' % (v[:2],))

    def binop(self, st, op, a, b, ty):
        if a[0] == 'sym' or b[0] == 'sym':
            return mk((op, self.enc(a), self.enc(b)), ty)
        return None

    def call(self, st, fn, decl, args):
        if re.search(r'<impl char>::to_digit$', fn['name']):
            return [(None, ('adt', fn['locals'][0], 1, (mk(('digit', self.enc(args[0]), self.enc(args[1])), None),)))]
        return None

    def ret(self, st, val):
        self.out.append(self.enc(val))


def fold_step(prog, clo, caps, init):
    """None if the closure computes value * radix + digit, otherwise what it computes; raises if that cannot be told"""
    if prog.types[clo].get('fn') is None:
        raise Unmodelled('conversion of digits')
    me_t, clo = clo, prog.types[clo]['fn']
    f = prog.fns[clo]
    radix = [c for c in caps if c and c[0] == 'i']
    if not radix or len(set(caps)) != 1:
        raise Unmodelled('conversion with %d captured values' % len(caps))
    dom = FC(prog)
    eng = Engine(prog, dom, max_states=500)
    st = State()
    st.dom = ()
    c = ('clo', me_t, tuple(('ref', st.alloc(x), ()) for x in caps))
    me = st.alloc(c)
    eng.push_call(st, clo, [('ref', me, ()), ('sym', 'acc', f['locals'][2]), ('sym', 'byte', f['locals'][3])], None, None)
    eng.run(st)
    if eng.unmodelled or not dom.out:
        raise Unmodelled('conversion of digits')
    acc, r = ('sym', 'acc'), radix[0]
    dig = ('digit', ('sym', 'byte'), r)
    mul = (('Mul', acc, r), ('Mul', r, acc))
    good = [('Add', m, dig) for m in mul] + [('Add', dig, m) for m in mul]
    for o in dom.out:
        if o not in good:
            return repr(o)
    return None if init == ('i', 0) else 'starts with %r' % (init,)


def jobs(prog):
    out, un = [], []
    fs = prog.find(r'Serialize for (ratel::ast::Loc<.*>|ratel::Module<.*>|ratel::module::Module<.*>)>::serialize::<harness::Rec>$')
    for rx, label, spec in SPECS:
        rx = rx.replace('ratel::Module<', r'ratel::(module::)?Module<')
        f = [x for x in fs if re.search(r'Serialize for (ratel::ast::)?' + rx, x['name']) and 'Node<' not in x['name']]
        if len(f) != 1:
            un.append('no serializer found for %s (%d)' % (label, len(f)))
            continue
        if isinstance(spec, dict):
            for v, s in spec.items():
                out.append((f[0]['id'], label, v, None, s))
            if label == 'Expression':
                for v, s in LITERAL.items():
                    out.append((f[0]['id'], label, 'Literal', v, s))
        else:
            out.append((f[0]['id'], label, None, None, spec))
    for f in prog.find(r'Serialize for ratel::ast::Node<.*>>::serialize::<harness::Rec>$'):
        m = re.match(r'.*Serialize for ratel::ast::Node<(.*)>>::serialize', f['name'])
        if m and 'Loc<' not in m.group(1):
            out.append((f['id'], 'Node of ' + re.sub(r"ratel::ast::(\w+::)?|<'_>|'_, ?", '', m.group(1)), None, None, N(S)))
    return out, un


def run_job(prog, job):
    fid, ty, var, sub, spec = job
    f = prog.fns[fid]
    label = ty if var is None else '%s::%s' % (ty, var if sub is None else sub + ' literal')
    dom = AG(prog, label, sub)
    dom.spec_ = spec
    eng = Engine(prog, dom, max_states=6000)
    st = State()
    stid = prog.types[f['locals'][1]]['elem']
    dom.tw = TypeWalk(prog, eng, stid)
    un_ = []
    for v, t in ((var, ty), (sub, 'Literal')):
        if v is None:
            continue
        tid = dom.tw.adt('self', t)
        vi = [i for i, x in enumerate(prog.types[tid]['variants']) if x['name'] == v] if tid is not None else []
        if not vi:
            return {'label': label, 'un': ['%s has no variant %s' % (t, v)]}
        st.facts[('self', tid)] = frozenset(vi)
    st.dom = ()
    try:
        eng.push_call(st, fid, [('ref', ('S', 'self', stid), ()), ('tup', ())], None, None)
        eng.run(st)
    except (Unmodelled, EngineLimit) as e:
        un_.append('%s: %s' % (label, e))
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
        if os.environ.get('DEBUG'):
            raise
        un_.append('%s: construct outside of the analysis (%s: %s)' % (label, type(e).__name__, e))
    for clo, caps, init in sorted(dom.folds, key=repr):
        dom.obl += 1
        try:
            w = fold_step(prog, clo, caps, init)
        except (Unmodelled, EngineLimit, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            un_.append('%s: %s' % (label, e))
            continue
        if w:
            dom.report(st, (('A01', 'R02'), '%s: conversion of digits' % label), '%s: the digits of a large number are converted by %s' % (label, w[:200]))
    for u in eng.unmodelled:
        un_.append('%s: unmodelled %s' % (label, u))
    return {'label': label, 'folds': dom.folds, 'un': un_, 'viol': dom.violations, 'fns': eng.fns_seen, 'obl': dom.obl, 'states': eng.nstates}


def run_all(prog):
    import par as P
    js, un = jobs(prog)
    res = {'violations': {}, 'unanalysed': un, 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}
    for r in P.pmap(lambda j: run_job(prog, j), js):
        res['unanalysed'] += r['un']
        res['labels'].append(r['label'])
        if 'viol' not in r:
            continue
        res['violations'].update(r['viol'])
        res['functions'] |= r['fns']
        res['obligations'] += r['obl']
        res['states'] += r['states']
        res['roots'] += 1
    return res


if __name__ == '__main__':
    import facts, time, sys
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    if len(sys.argv) > 1:
        os.environ['DEBUG'] = '1'
        _j = jobs
        def jobs(prog):
            js, un = _j(prog)
            return [j for j in js if sys.argv[1] in '%s::%s::%s' % j[1:4]], un
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:200], '|', ' ; '.join(v['trace'][-8:])[:300])
    for u in sorted(r['unanalysed']):
        print('UNAN', u[:200])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), round(time.time() - t, 1))
