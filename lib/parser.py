"""Parser: every parsing function against the grammar of what it parses.

The parser's functions are interpreted abstractly.  The current token is a set of
possible tokens, calls of the tokenizer are replaced by their contracts (decided by
the L checks), and calls of other nonterminals by theirs (each decided on its own).
What is consumed is compared, step by step, with the grammar; what is returned is
compared with the tree that the grammar prescribes, part by part.
"""
import re, time
from collections import namedtuple
from engine import Engine, State, Split, Prune, Unmodelled, EngineLimit, Domain, segments

# ---------------------------------------------------------------- tokens
EOP = 'EndOfProgram'
PUNCT = {'Semicolon': ';', 'Colon': ':', 'Comma': ',', 'ParenOpen': '(', 'ParenClose': ')', 'BracketOpen': '[', 'BracketClose': ']', 'BraceOpen': '{',
         'BraceClose': '}', 'OperatorFatArrow': '=>', 'OperatorSpread': '...', 'OperatorAssign': '=', 'OperatorMultiplication': '*', 'EndOfProgram': 'end of program',
         'OperatorConditional': '?'}


def fs(s): return frozenset(s.split())


LITERALS = fs('LiteralTrue LiteralFalse LiteralNull LiteralUndefined LiteralString LiteralNumber LiteralBinary')
PREFIXES = fs('OperatorIncrement OperatorDecrement OperatorLogicalNot OperatorBitwiseNot OperatorTypeof OperatorVoid OperatorDelete OperatorAddition OperatorSubtraction')
WORDS = fs('Identifier Break Do Case Else Catch Export Class Extends Return While Finally Super With Continue For Switch Yield Debugger Function This Default If Throw '
           'Import Try Static OperatorNew OperatorTypeof OperatorVoid OperatorDelete OperatorInstanceof LiteralTrue LiteralFalse LiteralNull LiteralUndefined')
EXPR_FIRST = fs('ParenOpen BracketOpen BraceOpen OperatorNew OperatorDivision Class Function This Identifier TemplateOpen TemplateClosed') | LITERALS | PREFIXES
STMT_FIRST = EXPR_FIRST | fs('Semicolon DeclarationVar DeclarationLet DeclarationConst Break Do Return While Continue For Switch Debugger If Throw Import Try')
PAT_FIRST = fs('Identifier BracketOpen BraceOpen')
PROP_FIRST = WORDS | fs('OperatorSpread LiteralString LiteralNumber LiteralBinary BracketOpen')
MEMBER_FIRST = WORDS | fs('LiteralNumber LiteralBinary BracketOpen')

ASSIGNS = fs('OperatorAssign OperatorAddAssign OperatorSubtractAssign OperatorExponentAssign OperatorMultiplyAssign OperatorDivideAssign OperatorRemainderAssign '
             'OperatorBSLAssign OperatorBSRAssign OperatorUBSRAssign OperatorBitAndAssign OperatorBitXorAssign OperatorBitOrAssign')
UPDATES = fs('OperatorIncrement OperatorDecrement')
BINARY = [fs('OperatorLogicalOr'), fs('OperatorLogicalAnd'), fs('OperatorBitwiseOr'), fs('OperatorBitwiseXor'), fs('OperatorBitwiseAnd'),
          fs('OperatorStrictEquality OperatorStrictInequality OperatorEquality OperatorInequality'),
          fs('OperatorLesser OperatorLesserEquals OperatorGreater OperatorGreaterEquals OperatorInstanceof OperatorIn'),
          fs('OperatorBitShiftLeft OperatorBitShiftRight OperatorUBitShiftRight'), fs('OperatorAddition OperatorSubtraction'),
          fs('OperatorMultiplication OperatorDivision OperatorRemainder'), fs('OperatorExponent')]
MEMBERS = fs('BracketOpen Accessor TemplateOpen TemplateClosed')
# what may continue an operand, by how tightly the operand binds; => is judged where arrows are allowed only
LEVEL = {'unary': MEMBERS | UPDATES | fs('ParenOpen'), 'member': MEMBERS}
for _i in range(len(BINARY) - 1, -1, -1):
    LEVEL['above%d' % _i] = frozenset().union(LEVEL['unary'], *BINARY[_i + 1:])
    LEVEL['from%d' % _i] = frozenset().union(LEVEL['unary'], *BINARY[_i:])
LEVEL['assign'] = LEVEL['from0'] | ASSIGNS | fs('OperatorConditional OperatorFatArrow')
LEVEL['any'] = LEVEL['assign'] | fs('Comma')
LVALUE_MUST = fs('Identifier Member ComputedMember')
LVALUE_MAY = fs('Identifier Member ComputedMember Object Array Spread Void')

FIRSTS = {'X': EXPR_FIRST, 'S': STMT_FIRST, 'Pat': PAT_FIRST, 'Param': PAT_FIRST, 'PatElem': PAT_FIRST | fs('Comma BracketClose'), 'Prop': PROP_FIRST,
          'CallArg': EXPR_FIRST | fs('OperatorSpread'), 'ArrElem': EXPR_FIRST | fs('OperatorSpread Comma BracketClose'), 'Decl': PAT_FIRST, 'Member': MEMBER_FIRST,
          'Case': fs('Case Default'), 'Block': fs('BraceOpen'), 'Params': fs('ParenOpen')}


def tn(s, lim=4):
    """tokens for messages"""
    out = []
    for t in sorted(s):
        x = PUNCT.get(t)
        if x is None:
            x = re.sub(r'^(Operator|Literal|Declaration|Reserved)(?=.)', '', t)
            x = re.sub(r'(?<=[a-z])(?=[A-Z])', ' ', x).lower() if not t.startswith('Literal') else x.lower() + ' literal'
        out.append(x)
    if len(out) > lim:
        return 'any of %d other tokens' % len(out)
    return ' or '.join('`%s`' % x if len(x) < 4 and not x.isalpha() else x for x in out)


# ---------------------------------------------------------------- grammar items
def T(toks, slot=None, text=None):
    return ('T', fs(toks) if isinstance(toks, str) else toks, slot, text)


def N(kind, slot, *extra): return ('N', kind, slot) + extra
def X(slot, level='any'): return ('N', 'X', slot, level)
def opt(*items): return ('opt', items)
def optstop(stop, *items): return ('opt', items, fs(stop))
def rep(*items): return ('rep', items)
def alt(*brs): return ('alt', brs)
def item(lst, t): return ('item', lst, t)
def flag(x): return ('flag', x)
def res(t): return ('res', t)
def rule(n): return ('rule', n)
def cond(f): return ('cond', f)      # the alternative exists if f(domain, state) is not False


SEMI = ('semi',)


# templates
def slot(s): return ('slot', s)
def node(variant, fields=(), first='^', last='$'):
    return ('node', variant, tuple(sorted(fields.items())) if isinstance(fields, dict) else fields, first, last)
def struct(variant, fields=()): return ('struct', variant, tuple(sorted(fields.items())) if isinstance(fields, dict) else fields)
def text(s, kind='text'): return ('str', s + '.' + kind)
def wordnode(s, kind='text'): return ('strnode', s + '.' + kind, s, s)
def lst(n): return ('lst', n)
def option(fl, t): return ('option', fl, t)
def mand(s): return struct('MandatoryName', {'0': wordnode(s)})
def optname(fl, s): return struct('OptionalName', {'0': option(fl, wordnode(s))})


EMPTYNAME = struct('EmptyName')
GEN = ('flagged', 'gen')
RULES = {}
RULES['decls'] = (N('Decl', 'd'), item('declarators', slot('d')), rep(T('Comma'), N('Decl', 'd'), item('declarators', slot('d'))))
RULES['props'] = (N('Prop', 'p'), item('properties', slot('p')), opt(T('Comma'), opt(rule('props'))))
RULES['args'] = (N('CallArg', 'a'), item('arguments', slot('a')), opt(T('Comma'), opt(rule('args'))))


def blockof(kind): return (T('BraceOpen', 'ob'), rep(N(kind, 's'), item('body', slot('s'))), T('BraceClose', 'cb'))


BLOCKT = struct('Block', {'body': lst('body')})
ARROWBODY = (alt((T('BraceOpen', 'ob'), rep(N('S', 's'), item('body', slot('s'))), T('BraceClose', 'cb'), flag('block')), (X('body', 'assign'),)),)


def arrowbody(dom, st):
    if 'block' in st.dom.flags:
        return struct('Block', {'0': node('Block', {'body': lst('body')}, 'ob', 'cb')})
    return struct('Expression', {'0': slot('body')})


ELEMS = (optstop('BracketClose', N('ArrElem', 'e'), item('elements', slot('e')), rep(T('Comma'), N('ArrElem', 'e'), item('elements', slot('e')))),)
PELEMS = (optstop('BracketClose', N('PatElem', 'e'), item('elements', slot('e')), rep(T('Comma'), N('PatElem', 'e'), item('elements', slot('e')))),)
RULES['template'] = (alt((T('TemplateOpen', 'q'), item('quasis', wordnode('q', 'quasi')), X('e'), item('expressions', slot('e')), ('tb',), rule('template')),
                         (T('TemplateClosed', 'q'), item('quasis', wordnode('q', 'quasi')))),)
TEMPLATE = (T('TemplateOpen', 'q0'), item('quasis', wordnode('q0', 'quasi')), X('e'), item('expressions', slot('e')), ('tb',), rule('template'))
TEMPLATET = {'expressions': lst('expressions'), 'quasis': lst('quasis')}
PLAIN = (T('TemplateClosed', 'q'), item('quasis', wordnode('q', 'quasi')))


def func(name): return (opt(T('OperatorMultiplication'), flag('gen')),) + name + (N('Params', 'params'), N('Block', 'body', 'S'))
def functmpl(name): return {'name': name, 'generator': GEN, 'params': slot('params'), 'body': slot('body')}
def klass(name): return name + (opt(T('Extends'), X('ext', 'assign'), flag('ext')), N('Block', 'body', 'Member'))
def klasstmpl(name): return {'name': name, 'extends': option('ext', slot('ext')), 'body': slot('body')}


ONAME = (opt(T('Identifier', 'name'), flag('name')),)
MNAME = (T('Identifier', 'name'),)

# primary expressions: (items, template)
PRIMARY = [
    ((T('Identifier', 'id'),), node('Identifier', {'0': text('id')}, 'id', 'id')),
    ((T('This', 'id'),), node('This', {}, 'id', 'id')),
    ((T('LiteralTrue', 'id'),), node('Literal', {'0': struct('True')}, 'id', 'id')),
    ((T('LiteralFalse', 'id'),), node('Literal', {'0': struct('False')}, 'id', 'id')),
    ((T('LiteralNull', 'id'),), node('Literal', {'0': struct('Null')}, 'id', 'id')),
    ((T('LiteralUndefined', 'id'),), node('Literal', {'0': struct('Undefined')}, 'id', 'id')),
    ((T('LiteralString', 'id'),), node('Literal', {'0': struct('String', {'0': text('id')})}, 'id', 'id')),
    ((T('LiteralNumber', 'id'),), node('Literal', {'0': struct('Number', {'0': text('id')})}, 'id', 'id')),
    ((T('LiteralBinary', 'id'),), node('Literal', {'0': struct('Binary', {'0': text('id')})}, 'id', 'id')),
    ((('re',), T('LiteralRegEx', 'id')), node('Literal', {'0': struct('RegEx', {'0': text('id', 'regex')})}, 'id', 'id')),
    (PLAIN, node('Template', TEMPLATET, 'q', 'q')),
    (TEMPLATE, node('Template', TEMPLATET, 'q0', 'q')),
    ((T(PREFIXES, 'op'), X('operand', 'unary')), node('Prefix', {'operator': ('op', 'op'), 'operand': slot('operand')}, 'op', 'operand')),
    ((T('OperatorNew', 'new'), alt((T('Accessor', 'prop', 'target'), flag('meta')), (X('operand', 'member'), opt(T('ParenOpen', 'cp'), flag('args'), opt(rule('args')), T('ParenClose', 'c'))))),
     lambda dom, st: node('MetaProperty', {'meta': ('conststrnode', 'new', 'new', 'new'), 'property': wordnode('prop', 'acc')}, 'new', 'prop') if 'meta' in st.dom.flags
     else node('Prefix', {'operator': ('op', 'new'), 'operand': node('Call', {'callee': slot('operand'), 'arguments': lst('arguments')}, 'operand', 'c')}, 'new', 'c')
     if 'args' in st.dom.flags else node('Prefix', {'operator': ('op', 'new'), 'operand': slot('operand')}, 'new', 'operand')),
    ((T('ParenOpen', 'po'), alt((T('ParenClose'), T('OperatorFatArrow'), flag('arrow')) + ARROWBODY, (X('e'), T('ParenClose')))),
     lambda dom, st: node('Arrow', {'params': ('empty',), 'body': arrowbody}, 'po', '$') if 'arrow' in st.dom.flags else slot('e')),
    ((T('BracketOpen', 'o'),) + ELEMS + (T('BracketClose', 'c'),), node('Array', {'body': lst('elements')}, 'o', 'c')),
    ((T('BraceOpen', 'o'), opt(rule('props')), T('BraceClose', 'c')), node('Object', {'body': lst('properties')}, 'o', 'c')),
    ((T('Function', 'f'),) + func(ONAME), node('Function', functmpl(optname('name', 'name')), 'f', 'body')),
    ((T('Class', 'f'),) + klass(ONAME), node('Class', klasstmpl(optname('name', 'name')), 'f', 'body')),
]
SPREAD = ((T('OperatorSpread', 'o'), X('arg', 'assign')), node('Spread', {'argument': slot('arg')}, 'o', 'arg'))
HOLE = ((('peek', fs('Comma BracketClose')),), ('node', 'Void', (), 'tok', 'tok<'))


def nest(t, level, slotname='nest'): return ('N', 'Nest', slotname, level, t)


def exprspec(level, extra=()):
    return (alt(*[tuple(i) + (nest(t, level),) for i, t in PRIMARY + list(extra)]), res(slot('nest')))


NOT_STMT = ('BraceOpen', 'Function', 'Class', 'Identifier')


def estmt(items, t, slotname='nest'):
    return tuple(items) + (nest(t, 'any'), SEMI, res(node('Expression', {'0': slot('nest')}, 'nest', 'nest')))


def isfirst(items, tok):
    h = items[0]
    return h[0] == 'T' and tok in h[1]


def stmt(name, *items): return tuple(items)


def kindof(dom, st, s):
    return st.facts.get((s, dom.TOK))


def declkind(dom, st):
    ks = dom.slot_tokens(st, 'kw')
    if len(ks) == 1:
        return struct(next(iter(ks)).replace('Declaration', ''))
    return ('never', 'declaration kind of ' + tn(ks))


def forres(dom, st):
    fl = st.dom.flags
    if 'decl' in fl:
        init = node('Declaration', {'kind': declkind, 'declarators': lst('declarators')}, 'kw', 'd')
    else:
        init = node('Expression', {'0': slot('init')}, 'init', 'init')
    if 'inbin' in fl:
        left = node('Expression', {'0': slot('init.left')}, 'init.left', 'init.left')
        if dom.is_in(st, 'init') is not True:
            return ('never', 'a for statement that ends after an initialiser other than `a in b`')
        return node('ForIn', {'left': left, 'right': slot('init.right'), 'body': slot('body')})
    if 'in' in fl or 'of' in fl:
        return node('ForIn' if 'in' in fl else 'ForOf', {'left': init, 'right': slot('right'), 'body': slot('body')})
    return node('For', {'init': option('init', init), 'test': option('test', slot('test')), 'update': option('update', slot('update')), 'body': slot('body')})


def forin(dom, st): return dom.is_in(st, 'init')
def notforin(dom, st):
    x = dom.is_in(st, 'init')
    return None if x is None else not x


FORTAIL = (opt(X('test'), flag('test')), T('Semicolon'), opt(X('update'), flag('update')), T('ParenClose'), N('S', 'body'), res(forres))
FORIN = (T('OperatorIn'), flag('in'), X('right'), T('ParenClose'), N('S', 'body'), res(forres))
FOROF = (T('Identifier', None, 'of'), flag('of'), X('right'), T('ParenClose'), N('S', 'body'), res(forres))
IMPORTED = struct('ImportSpecifier', {'imported': wordnode('n'), 'local': lambda d, s: wordnode('l') if 'as' in s.dom.flags else wordnode('n')})


def specifier(d, s):
    l = 'l' if 'as' in s.dom.flags else 'n'
    return node('ImportSpecifier', {'imported': wordnode('n'), 'local': wordnode(l)}, 'n', l)


RULES['named'] = (T('Identifier', 'n'), ('unflag', 'as'), opt(T('Identifier', None, 'as'), T('Identifier', 'l'), flag('as')), item('specifiers', specifier), opt(T('Comma'), rule('named')))
CLAUSE = alt((T('BraceOpen'), rule('named'), T('BraceClose')),
             (T('OperatorMultiplication', 'star'), T('Identifier', None, 'as'), T('Identifier', 'l'), item('specifiers', node('ImportNamespaceSpecifier', {'local': wordnode('l')}, 'star', 'l'))))
FROM = (T('Identifier', None, 'from'), T('LiteralString', 'src'), SEMI, res(node('Import', {'specifiers': lst('specifiers'), 'source': ('str', 'src.text{1..-1}')})))

STATEMENT = alt(
    (T('Semicolon', 'id'), res(node('Empty', {}, 'id', 'id'))),
    (T('Debugger', 'id'), SEMI, res(node('Debugger', {}, 'id', 'id'))),
    blockof('S') + (res(node('Block', {'body': lst('body')})),),
    (T('DeclarationVar DeclarationLet DeclarationConst', 'kw'), rule('decls'), SEMI, res(node('Declaration', {'kind': declkind, 'declarators': lst('declarators')}))),
    (T('Return'), ('optasi', (X('value'), flag('value'))), SEMI, res(node('Return', {'value': option('value', slot('value'))}))),
    (T('Break'), ('optasi', (T('Identifier', 'label'), flag('label'))), SEMI, res(node('Break', {'label': option('label', wordnode('label'))}))),
    (T('Continue'), ('optasi', (T('Identifier', 'label'), flag('label'))), SEMI, res(node('Continue', {'label': option('label', wordnode('label'))}))),
    (T('Throw'), X('value'), SEMI, res(node('Throw', {'value': slot('value')}))),
    (T('Function'),) + func(MNAME) + (res(node('Function', functmpl(mand('name')))),),
    (T('Class'),) + klass(MNAME) + (res(node('Class', klasstmpl(mand('name')))),),
    (T('If'), T('ParenOpen'), X('test'), T('ParenClose'), N('S', 'consequent'), opt(T('Else'), N('S', 'alternate'), flag('alternate')),
     res(node('If', {'test': slot('test'), 'consequent': slot('consequent'), 'alternate': option('alternate', slot('alternate'))}))),
    (T('While'), T('ParenOpen'), X('test'), T('ParenClose'), N('S', 'body'), res(node('While', {'test': slot('test'), 'body': slot('body')}))),
    (T('Do'), N('S', 'body'), T('While'), T('ParenOpen'), X('test'), T('ParenClose'), ('dosemi',), res(node('Do', {'test': slot('test'), 'body': slot('body')}))),
    (T('For'), T('ParenOpen'), alt(
        (T('Semicolon'),) + FORTAIL,
        (T('DeclarationVar DeclarationLet DeclarationConst', 'kw'), rule('decls'), flag('decl'), flag('init'), alt(FORIN, FOROF, (T('Semicolon'),) + FORTAIL)),
        (X('init'), flag('init'), alt((cond(forin), T('ParenClose'), flag('inbin'), N('S', 'body'), res(forres)), (cond(notforin),) + FOROF, (cond(notforin), T('Semicolon')) + FORTAIL)))),
    (T('Try'), N('Block', 'block', 'S'), alt(
        (T('Catch', 'catch'), T('ParenOpen'), N('Pat', 'param'), T('ParenClose'), N('Block', 'cbody', 'S'), flag('catch'), opt(T('Finally'), N('Block', 'fbody', 'S'), flag('finally'))),
        (T('Finally'), N('Block', 'fbody', 'S'), flag('finally'))),
     res(node('Try', {'block': slot('block'), 'handler': option('catch', node('CatchClause', {'param': slot('param'), 'body': slot('cbody')}, 'catch', 'cbody')),
                      'finalizer': option('finally', slot('fbody'))}))),
    (T('Switch'), T('ParenOpen'), X('discriminant'), T('ParenClose'), N('Block', 'cases', 'Case'), res(node('Switch', {'discriminant': slot('discriminant'), 'cases': slot('cases')}))),
    (T('Identifier', 'id'), alt((T('Colon'), N('S', 'body'), res(node('Labeled', {'label': text('id'), 'body': slot('body')}))),
                                estmt((), node('Identifier', {'0': text('id')}, 'id', 'id')))),
    (T('Import', 'import'), alt(
        (('peek', fs('ParenOpen Accessor')),) + estmt((), node('Identifier', {'0': text('import')}, 'import', 'import')),
        (T('LiteralString', 'src'), SEMI, res(node('Import', {'specifiers': lst('specifiers'), 'source': ('str', 'src.text{1..-1}')}))),
        (T('Identifier', 'def'), item('specifiers', node('ImportDefaultSpecifier', {'local': wordnode('def')}, 'def', 'def')), opt(T('Comma'), CLAUSE)) + FROM,
        (CLAUSE,) + FROM)),
    *[estmt(i, t) for i, t in PRIMARY if not any(isfirst(i, x) for x in NOT_STMT)]
)

PATPRIM = alt(
    (T('Identifier', 'id'), flag('pid')),
    (T('BracketOpen', 'o'),) + PELEMS + (T('BracketClose', 'c'), flag('parr')),
    (T('BraceOpen', 'o'), opt(rule('props')), T('BraceClose', 'c'), flag('pobj')))


def pattmpl(dom, st):
    fl = st.dom.flags
    if 'pid' in fl:
        return node('Identifier', {'0': text('id')}, 'id', 'id')
    if 'parr' in fl:
        return node('ArrayPattern', {'elements': lst('elements')}, 'o', 'c')
    return node('ObjectPattern', {'properties': lst('properties')}, 'o', 'c')


def patdef(dom, st):
    if 'def' in st.dom.flags:
        return node('AssignmentPattern', {'left': pattmpl, 'right': slot('def')})
    return pattmpl(dom, st)


DEFAULT = opt(T('OperatorAssign'), X('def', 'assign'), flag('def'))
REST = node('RestElement', {'argument': wordnode('r')}, 'dots', 'r')
RULES['params'] = (alt((T('OperatorSpread', 'dots'), T('Identifier', 'r'), item('params', REST), T('ParenClose')),
                       (N('Param', 'p'), item('params', slot('p')), alt((T('Comma'), alt((T('ParenClose'),), (rule('params'),))), (T('ParenClose'),)))),)
METHOD = (N('Params', 'params'), N('Block', 'mbody', 'S'), flag('method'))
METHODT = node('Function', {'name': EMPTYNAME, 'generator': ('b', 0), 'params': slot('params'), 'body': slot('mbody')}, 'params', 'mbody')


def propres(key):
    def f(dom, st):
        if 'method' in st.dom.flags:
            return node('Method', {'key': key, 'value': METHODT})
        return node('Literal', {'key': key, 'value': slot('v')})
    return f


PROPVALUE = alt((T('Colon'), X('v', 'assign')), METHOD)
LITKEY = node('Literal', {'0': text('k')}, 'k', 'k')
BINKEY = node('Binary', {'0': text('k')}, 'k', 'k')
COMPKEY = node('Computed', {'0': slot('ke')}, 'o', 'c')
PROPERTY = alt(
    (T(WORDS, 'k'), alt((T('Colon'), X('v', 'assign'), res(propres(LITKEY))), METHOD + (res(propres(LITKEY)),), (res(node('Shorthand', {'0': text('k')}, 'k', 'k')),))),
    (T('OperatorSpread'), X('arg', 'assign'), res(node('Spread', {'argument': slot('arg')}))),
    (T('LiteralString LiteralNumber', 'k'), PROPVALUE, res(propres(LITKEY))),
    (T('LiteralBinary', 'k'), PROPVALUE, res(propres(BINKEY))),
    (T('BracketOpen', 'o'), X('ke'), T('BracketClose', 'c'), PROPVALUE, res(propres(COMPKEY))))


def accessor(dom, st):
    a, b = dom.text_fact(st, 'w1', 'get'), dom.text_fact(st, 'w1', 'set')
    return False if a == 0 and b == 0 else True if 1 in (a, b) else None


def memberres(dom, st):
    fl = st.dom.flags
    kind = 'Method'
    if 'two' in fl:
        key = node('Literal', {'0': text('w2')}, 'w2', 'w2')
        if dom.text_is(st, 'w1', 'get'):
            kind = 'Get'
        elif dom.text_is(st, 'w1', 'set'):
            kind = 'Set'
        else:
            return ('never', 'a member with two names of which the first is neither get nor set')
    elif 'one' in fl:
        key = node('Literal', {'0': text('w1')}, 'w1', 'w1')
        if 'static' not in fl:
            c = dom.text_fact(st, 'w1', 'constructor')
            if c == 1:
                kind = 'Constructor'
            elif c is None:
                kind = None
    elif 'comp' in fl:
        key = COMPKEY
    else:
        key = LITKEY if 'lit' in fl else BINKEY
    d = {'is_static': ('flagged', 'static'), 'key': key}
    if 'method' in fl:
        if kind is None:
            return ('never', 'a method without looking whether it is the constructor')
        d['kind'] = struct(kind)
        d['value'] = METHODT
        return node('Method', d)
    d['value'] = slot('v')
    return node('Literal', d)


MEMBER = (opt(T('Static'), flag('static')), alt(
    (T(WORDS, 'w1'), alt((cond(accessor), T(WORDS, 'w2'), flag('two')), (flag('one'),))),
    (T('LiteralNumber', 'k'), flag('lit')), (T('LiteralBinary', 'k'), flag('bin')),
    (T('BracketOpen', 'o'), X('ke'), T('BracketClose', 'c'), flag('comp'))),
    alt((T('OperatorAssign'), X('v', 'assign')), METHOD), opt(T('Semicolon', 'semi')), res(memberres))


def arrowparams(dom, st):
    return ('arrowparams',)


LEFTN = 'left'
INFIX = alt(
    (('lhs',), T('Comma'), item('body', slot(LEFTN)), X('x', 'assign'), item('body', slot('x')), rep(T('Comma'), X('x', 'assign'), item('body', slot('x'))),
     res(node('Sequence', {'body': lst('body')}, LEFTN, 'x'))),
    (T('ParenOpen'), opt(rule('args')), T('ParenClose', 'c'), res(node('Call', {'callee': slot(LEFTN), 'arguments': lst('arguments')}, LEFTN, 'c'))),
    (T('BracketOpen'), X('p'), T('BracketClose', 'c'), res(node('ComputedMember', {'object': slot(LEFTN), 'property': slot('p')}, LEFTN, 'c'))),
    (T('Accessor', 'p'), res(node('Member', {'object': slot(LEFTN), 'property': wordnode('p', 'acc')}, LEFTN, 'p'))),
    (T(UPDATES, 'op'), ('lv',), res(node('Postfix', {'operator': ('op', 'op'), 'operand': slot(LEFTN)}, LEFTN, 'op'))),
    (T(ASSIGNS, 'op'), ('lv',), X('right', 'assign'), res(node('Binary', {'operator': ('op', 'op'), 'left': slot(LEFTN), 'right': slot('right')}, LEFTN, 'right'))),
    *[(T(ops, 'op'), X('right', 'from10' if i == 10 else 'above%d' % i), res(node('Binary', {'operator': ('op', 'op'), 'left': slot(LEFTN), 'right': slot('right')}, LEFTN, 'right')))
      for i, ops in enumerate(BINARY)],
    (T('OperatorConditional'), X('consequent', 'assign'), T('Colon'), X('alternate', 'assign'),
     res(node('Conditional', {'test': slot(LEFTN), 'consequent': slot('consequent'), 'alternate': slot('alternate')}, LEFTN, 'alternate'))),
    (T('OperatorFatArrow'),) + ARROWBODY + (res(node('Arrow', {'params': arrowparams, 'body': arrowbody}, LEFTN, '$')),),
    PLAIN + (res(node('TaggedTemplate', {'tag': slot(LEFTN), 'quasi': node('TemplateLiteral', TEMPLATET, 'q', 'q')}, LEFTN, 'q')),),
    TEMPLATE + (res(node('TaggedTemplate', {'tag': slot(LEFTN), 'quasi': node('TemplateLiteral', TEMPLATET, 'q0', 'q')}, LEFTN, 'q')),),
)

SPECS = {
    'Program': (rep(N('S', 's'), item('body', slot('s'))), ('peek', fs(EOP)), res(('program', 'body'))),
    'S': (STATEMENT,),
    'Pat': (PATPRIM, res(pattmpl)),
    'Param': (PATPRIM, DEFAULT, res(patdef)),
    'PatElem': (alt((('peek', fs('Comma BracketClose')), res(('node', 'Void', (), 'tok', 'tok<'))), (PATPRIM, DEFAULT, res(patdef))),),
    'Prop': (PROPERTY,),
    'Member': (MEMBER,) if False else MEMBER,
    'Params': (T('ParenOpen'), alt((T('ParenClose'),), (rule('params'),)), res(lst('params'))),
    'Decl': (N('Pat', 'id'), opt(T('OperatorAssign'), X('init', 'assign'), flag('init')), res(node('Declarator', {'id': slot('id'), 'init': option('init', slot('init'))}))),
    'Case': (alt((T('Case'), X('test'), flag('test')), (T('Default'),)), T('Colon'), rep(N('S', 's'), item('consequent', slot('s'))), ('follow', fs('Case Default BraceClose')),
             res(node('SwitchCase', {'test': option('test', slot('test')), 'consequent': lst('consequent')}))),
    'CallArg': exprspec('assign', [SPREAD]),
    'ArrElem': exprspec('assign', [SPREAD, HOLE]),
    'Infix': (INFIX,),
}
for _k in ('S', 'Case', 'Member'):
    SPECS['Block ' + _k] = blockof(_k) + (res(node('Block', {'body': lst('body')})),)

KINDNAME = {'S': 'statement', 'X': 'expression', 'Pat': 'pattern', 'Param': 'parameter', 'PatElem': 'array pattern element', 'Prop': 'property', 'CallArg': 'call argument',
            'ArrElem': 'array element', 'Decl': 'declarator', 'Member': 'class member', 'Case': 'case', 'Block': 'block', 'Params': 'parameter list', 'Nest': 'rest of the expression',
            'Program': 'program', 'Infix': 'operator', 'Conv': 'parameter of an arrow function', 'ConvList': 'parameters of an arrow function'}
PARTPROP = {'S': 'S03', 'Program': 'S03', 'Case': 'S03', 'Decl': 'S03', 'Infix': 'S04', 'X': 'S05', 'Ctx': 'S05'}

D = namedtuple('D', 'spec first last err exp act bind flags res nl name')
SUBTAGS = ('sym', 'S', 'symv', 'sdiscr', 'lenof', 'liter', 'lenminus')


def subst(v, f):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] in SUBTAGS and isinstance(v[1], str):
            n = f(v[1])
            if n is not v[1]:
                return (v[0], n) + tuple(subst(x, f) for x in v[2:])
            return v
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = subst(x, f)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    return v


class Models(Domain):
    """contracts of the tokenizer, token sets"""
    counters = True

    def __init__(self, prog):
        Domain.__init__(self)
        self.p = prog
        self.TOK = self.tid('ratel::lexer::Token')
        self.ASI = self.tid('ratel::lexer::Asi')
        self.PARSER = self.tid('ratel::parser::Parser')
        self.LEXER = self.tid('ratel::lexer::Lexer')
        self.names = [v['name'] for v in prog.types[self.TOK]['variants']]
        self.ids = {n: i for i, n in enumerate(self.names)}
        self.all = frozenset(self.names)
        self.asin = [v['name'] for v in prog.types[self.ASI]['variants']]
        self.cuts = {}
        self.obl = 0

    def tid(self, name):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'adt' and t.get('name') == name:
                return i
        raise Unmodelled('no type ' + name)

    def strt(self):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'str':
                return i

    # ---- tokens
    def cur(self, st): return self.slot_tokens(st, 'tok')

    def slot_tokens(self, st, s):
        f = st.facts.get((s, self.TOK))
        return self.all if f is None else frozenset(self.names[i] for i in f)

    def setcur(self, st, toks):
        if not toks:
            raise Prune()
        st.facts[('tok', self.TOK)] = frozenset(self.ids[t] for t in toks)

    def splitcur(self, groups):
        return Split(('tok', self.TOK), [frozenset(self.ids[t] for t in g) for g in groups if g])

    def asi(self, st):
        f = st.facts.get(('tok.asi', self.ASI))
        return self.asin[next(iter(f))] if f is not None and len(f) == 1 else None

    def rename(self, st, old, new):
        n = len(old)

        def f(p):
            if p.startswith(old) and (len(p) == n or p[n] in '.[{'):
                return new + p[n:]
            return p
        self.apply(st, f)

    def apply(self, st, f):
        for fr in st.frames:
            for k in list(fr.loc):
                v = fr.loc[k]
                w = subst(v, f)
                if w is not v:
                    fr.loc[k] = w
        for k in list(st.heap):
            v = st.heap[k]
            w = subst(v, f)
            if w is not v:
                st.heap[k] = w
        for k in list(st.facts):
            nk = k
            if isinstance(k, tuple):
                if k[0] in ('#', 'pend', 'end', 'skip'):
                    nk = (k[0], f(k[1]))
                elif len(k) == 2 and isinstance(k[0], str) and isinstance(k[1], int):
                    nk = (f(k[0]), k[1])
                else:
                    nk = subst(k, f)
                    if nk[0] == 'streq' and len(nk) == 3:
                        nk = ('streq',) + tuple(sorted(nk[1:], key=repr))
            if nk != k:
                st.facts[nk] = st.facts.pop(k)

    def dropfacts(self, st, prefix):
        n = len(prefix)

        def hit(p):
            return isinstance(p, str) and p.startswith(prefix) and (len(p) == n or p[n] in '.[{~<')

        def anyhit(v):
            return isinstance(v, tuple) and any(hit(x) or anyhit(x) for x in v)
        for k in list(st.facts):
            if anyhit(k):
                del st.facts[k]

    def fresh(self, st, slotname):
        """the current token becomes `slotname`; another one is current"""
        if slotname is not None:
            self.stale(st, slotname)
            self.dropfacts(st, 'tok.asi')
            self.rename(st, 'tok', slotname)
            self.restore(st)
        st.facts.pop(('tok', self.TOK), None)

    def stale(self, st, slotname):
        # whatever is still held of the previous one can only be compared with other remains
        old = slotname + '~'
        self.rename(st, slotname, old)
        self.dropfacts(st, old)

    def leave(self, st, s, skips):
        """a nonterminal has been read: it began where the current token did"""
        self.stale(st, s)
        st.facts.pop(('tok', self.TOK), None)
        self.dropfacts(st, 'tok')
        if skips:
            self.rename(st, 'tok.start', s + '.start')
        self.rename(st, 'tok', 'tok<')
        self.restore(st)

    def restore(self, st):
        """the lexer's fields speak of the new current token"""
        r = self.parser_root
        v = st.heap[r]
        st.heap[r] = ('adt', v[1], v[2], tuple(self.lexval() if self.p.types[v[1]]['variants'][0]['fields'][i][1] == self.LEXER else x for i, x in enumerate(v[3])))

    def lexval(self):
        out = []
        for n, t in self.p.types[self.LEXER]['variants'][0]['fields']:
            if n == 'token':
                out.append(('sym', 'tok', self.TOK))
            elif n == 'asi':
                out.append(('sym', 'tok.asi', self.ASI))
            elif n == 'quasi':
                out.append(self.strval('tok.quasi'))
            else:
                out.append(('top', t))
        return ('adt', self.LEXER, 0, tuple(out))

    def strval(self, path):
        return ('ref', ('S', path, self.strt()), ())

    def newparser(self, st):
        fsx = []
        for n, t in self.p.types[self.PARSER]['variants'][0]['fields']:
            if t == self.LEXER:
                fsx.append(self.lexval())
            elif n == 'errors':
                fsx.append(('errs',))
            elif n == 'body':
                fsx.append(('lst', 0))
            else:
                fsx.append(('top', t))
        self.parser_root = st.alloc(('adt', self.PARSER, 0, tuple(fsx)))
        return ('ref', self.parser_root, ())

    def roots(self, st):
        return (self.parser_root,)

    # ---- calls
    def cut(self, fn):
        n = fn['name']
        c = self.cuts.get(n, 0)
        if c == 0:
            c = self.cuts[n] = self.p.anchors.get(n)
        return c

    def ret1(self, v): return [(None, v)]

    def u32(self): return None

    def pos(self, s, e): return ('sym', '%s.%s' % (s, e), None)

    def call(self, st, fn, decl, args):
        n = fn['name']
        if n.startswith('ratel::lexer::Lexer'):
            m = n.rsplit('::', 1)[1]
            if m == 'consume':
                self.consume(st)
                return self.ret1(('tup', ()))
            if m == 'token_as_str':
                return self.ret1(self.strval('tok.text'))
            if m == 'accessor_as_str':
                return self.ret1(self.strval('tok.acc'))
            if m == 'loc':
                return self.ret1(('tup', (self.pos('tok', 'start'), self.pos('tok', 'end'))))
            if m == 'start':
                return self.ret1(self.pos('tok', 'start'))
            if m == 'end':
                return self.ret1(self.pos('tok', 'end'))
            if m == 'start_then_consume':
                s = self.consume(st)
                return self.ret1(self.pos(s, 'start'))
            if m == 'end_then_consume':
                s = self.consume(st)
                return self.ret1(self.pos(s, 'end'))
            if m == 'asi':
                return self.ask_asi(st)
            if m == 'invalid_token':
                self.invalid(st)
                return self.ret1(('error',))
            if m == 'read_template_kind':
                self.template_kind(st)
                return self.ret1(('tup', ()))
            if m == 'read_regular_expression':
                self.regex(st)
                return self.ret1(self.strval('tok.regex'))
            return None
        if n.startswith('std::vec::Vec::<ratel::error::Error>::'):
            m = segments(n)[-1]
            if m == 'push':
                if args[1] != ('error',):
                    self.report(st, (('E01',), '%s: records another error' % self.rootkind), '%s: an error is recorded that is not the one of the current token' % self.rootkind)
                self.error(st)
                return self.ret1(('tup', ()))
            if m in ('len', 'is_empty'):
                return None
            raise Unmodelled('use of the list of errors: ' + m)
        if n.startswith('toolshed::arena::Arena::alloc::<') or n.startswith('toolshed::Arena::alloc::<'):
            return self.ret1(('ref', st.alloc(args[1]), ()))
        if n.startswith('toolshed::list::'):
            return self.listcall(st, fn, n, args)
        if 'const_ptr::<impl *const' in n and n.endswith(('::offset', '::add')) and args[1][0] == 'sdiscr':
            arr = self.arrof(st, args[0])
            if arr is not None:
                return self.ret1(('ref', ('K', self.select(st, arr, args[1])), ()))
        if re.search(r'<str as std::ops::Index<std::ops::Range.*>>::index$|str::traits::<impl std::ops::Index<.*> for str>::index$', n):
            r = self.slice(st, args)
            if r is not None:
                return self.ret1(r)
        if args and '<impl str>::' in n:
            r = self.textcall(st, fn, n, args)
            if r is not None:
                return r
        if args and args[0][0] == 'pieces':
            return self.pieces(st, fn, n, args)
        c = self.cut(fn)
        if c is not None:
            return self.nonterminal(st, c, fn, args)
        return None

    def piece(self, st, v):
        """path of a part of the source"""
        for _ in range(6):
            if v[0] == 'ref' and v[1][0] in ('H', 'L', 'K'):
                v = self.eng.load(st, v[1], v[2])
        return v[1][1] if v[0] == 'ref' and v[1][0] == 'S' and re.search(r'\.(text|acc|quasi|regex)\b', v[1][1]) else None

    def about(self, st, p, what):
        """an answer about the content of a token that is not followed further"""
        key = ('about', p, what)
        return [(lambda c, x=x: c.facts.__setitem__(key, frozenset((x,))), ('i', x)) for x in sorted(st.facts.get(key, (0, 1)))]

    def textcall(self, st, fn, n, args):
        p = self.piece(st, args[0])
        if p is None:
            return None
        m = segments(n)[-1]
        if m in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'is_ascii', 'is_char_boundary'):
            return self.about(st, p, (m, repr(args[1:])[:80]))
        if re.match(r'trim\w*$|to_\w*case$|replace\w*$|repeat$', m):
            if len(args) == 1 and m.startswith('trim') and re.search(r'\.(text|acc|regex)$', p):
                return self.ret1(args[0])
            return self.ret1(self.strval(p + '{%s}' % m))
        if m in ('chars', 'bytes', 'char_indices') or re.match(r'r?split|lines|r?match', m):
            return self.ret1(('pieces', p, m))
        if m in ('find', 'rfind'):
            rt = fn['locals'][0]
            return [(None, M.none(self.eng, rt)), (None, M.some(self.eng, rt, ('top', None)))]
        return None

    def pieces(self, st, fn, n, args):
        m = segments(n)[-1]
        if m in ('into_iter', 'iter', 'rev', 'skip', 'take', 'filter', 'enumerate', 'map', 'peekable', 'cloned', 'copied', 'take_while', 'skip_while', 'zip', 'chain'):
            return self.ret1(args[0])
        if m in ('any', 'all', 'eq', 'ne'):
            return self.about(st, args[0][1], (m, repr(args[1:])[:80]))
        if m in ('count', 'len'):
            return self.ret1(('top', fn['locals'][0] if 'locals' in fn else None))
        raise Unmodelled('content of a token: ' + m)

    def ask_asi(self, st):
        S = self.cur(st)
        known = self.asi(st)
        ok = {'ExplicitSemicolon': S & {'Semicolon'}, 'ImplicitSemicolon': S - {'Semicolon'}, 'NoSemicolon': S - {'Semicolon', 'ParenClose', 'BraceClose', EOP}}
        out = []
        for i, a in enumerate(self.asin):
            if known is not None and a != known:
                continue
            if not ok[a]:
                continue

            def m(c, i=i, a=a):
                self.setcur(c, ok[a])
                c.facts[('tok.asi', self.ASI)] = frozenset((i,))
            out.append((m, ('adt', self.ASI, i, ())))
        return out or 'prune'

    def slice(self, st, args):
        v = args[0]
        r = args[1]
        while v[0] == 'ref' and v[1][0] in ('H', 'L', 'K'):
            v = self.eng.load(st, v[1], v[2])
        if v[0] != 'ref' or v[1][0] != 'S' or r[0] != 'adt' or len(r[3]) != 2:
            return None
        p = v[1][1]
        a, b = r[3][0], r[3][1]
        if a[0] != 'i' or b[0] != 'lenminus' or b[1] != p:
            raise Unmodelled('slice of a token')
        return ('ref', ('S', '%s{%d..-%d}' % (p, a[1], b[2]), v[1][2]), ())

    def arrof(self, st, v):
        for _ in range(6):
            if v[0] == 'ref':
                v = self.eng.load(st, v[1], v[2])
        return v if v[0] == 'arr' else None

    def select(self, st, arr, iv):
        """element of a table indexed by a token; tokens with the same element stay together"""
        if iv[2] != self.TOK:
            raise Unmodelled('table indexed by something else than a token')
        vs = self.eng.variants(st, iv[1], iv[2])
        groups = {}
        for x in vs:
            d = self.eng.discr_val(iv[2], x)
            if d >= len(arr[1]):
                raise Unmodelled('table with %d entries indexed by token %d' % (len(arr[1]), d))
            groups.setdefault(arr[1][d], set()).add(x)
        if len(groups) > 1:
            raise Split((iv[1], iv[2]), [frozenset(g) for g in groups.values()])
        return next(iter(groups))

    def index(self, st, v, iv):
        if v[0] == 'arr' and iv[0] == 'sdiscr':
            return self.select(st, v, iv)
        return None

    def binop(self, st, op, a, b, ty):
        if a[0] == 'sdiscr' and b[0] == 'i' and op in ('Lt', 'Le'):
            ds = [self.eng.discr_val(a[2], x) for x in self.eng.variants(st, a[1], a[2])]
            if all((d < b[1]) if op == 'Lt' else (d <= b[1]) for d in ds):
                return ('i', 1)
        if op == 'Sub' and a[0] == 'lenof' and b[0] == 'i':
            return ('lenminus', a[1], b[1])
        return None

    def discr(self, st, v):
        return None


class PA(Models):
    """one nonterminal against its grammar; paths on which an error is reported end there"""

    def __init__(self, prog, root, ctx, allowed):
        Models.__init__(self, prog)
        self.rootkind = root
        self.ctx = ctx or {}
        self.allowed, self.exits = allowed or ({}, {})
        self.uses = set()
        self.accepted = set()
        self.partprop = PARTPROP.get(root.split()[0], 'S05')

    def key(self, st): return st.dom

    def name(self, st):
        return st.dom.name or KINDNAME.get(self.rootkind.split()[0], self.rootkind)

    def bad(self, st, props, key, msg):
        n = self.name(st)
        if isinstance(props, str):
            props = (props,)
        if 'any word as' in key and sum(1 for k in st.facts if isinstance(k, tuple) and k and (k[0] == 'about' or k[0] == 'cmp' and 'lenof' in repr(k))) > 1:
            raise Unmodelled('a word that is recognised in parts')
        self.report(st, (tuple(sorted(props)), '%s: %s' % (n, key)), '%s: %s' % (n, msg))

    def roots(self, st):
        return (self.parser_root,) + tuple(r for _, r in st.dom.act)

    # ---- FIRST sets
    def first(self, items, textok=None):
        """(tokens that may come first, nullable)"""
        out = frozenset()
        for h in items:
            t = h[0]
            if t == 'cond':
                if h[1](self, self.now) is False:
                    return out, False
                continue
            if t == 'T':
                if h[3] is None or (textok is not None and textok(h[3], h[1])):
                    return out | h[1], False
                return out, False
            if t == 'N':
                if h[1] == 'Nest':
                    continue
                return out | FIRSTS[h[1]], False
            if t == 're':
                return out | fs('OperatorDivision'), False
            if t == 'tb':
                return out | fs('BraceClose'), False
            if t in ('opt', 'rep', 'optasi'):
                out |= self.first(h[1], textok)[0]
                continue
            if t == 'dosemi':
                out |= fs('Semicolon')
                continue
            if t == 'alt':
                nl = False
                for b in h[1]:
                    f, n = self.first(b, textok)
                    out |= f
                    nl = nl or n
                if not nl:
                    return out, False
                continue
            if t == 'rule':
                f, n = self.first(RULES[h[1]], textok)
                out |= f
                if not n:
                    return out, False
                continue
            if t == 'semi':
                out |= fs('Semicolon')
                continue
            if t in ('peek',):
                return out | h[1], False
            if t == 'follow':
                return out | h[1], False
        return out, True

    def tfirst(self, items):
        """tokens that may be consumed first"""
        out = frozenset()
        for h in items:
            t = h[0]
            if t == 'cond':
                if h[1](self, self.now) is False:
                    return out, False
                continue
            if t == 'T':
                return out | h[1], False
            if t == 're':
                return out | fs('OperatorDivision'), False
            if t == 'tb':
                return out | fs('BraceClose'), False
            if t == 'N':
                if h[1] == 'Nest':
                    return out, False
                return out, False
            if t in ('opt', 'rep', 'optasi'):
                out |= self.tfirst(h[1])[0]
                continue
            if t in ('semi', 'dosemi'):
                out |= fs('Semicolon')
                continue
            if t == 'alt':
                nl = False
                for b in h[1]:
                    f, n = self.tfirst(b)
                    out |= f
                    nl = nl or n
                if not nl:
                    return out, False
                continue
            if t == 'rule':
                f, n = self.tfirst(RULES[h[1]])
                out |= f
                if not n:
                    return out, False
                continue
        return out, True

    def nfirst(self, items):
        """nonterminals that may be read first"""
        out = set()
        for h in items:
            t = h[0]
            if t == 'cond' and h[1](self, self.now) is False:
                return out, False
            if t in ('T', 're', 'tb'):
                return out, False
            if t == 'N':
                out.add(h[1])
                return out, False
            if t in ('opt', 'rep', 'optasi'):
                out |= self.nfirst(h[1])[0]
                continue
            if t == 'alt':
                nl = False
                for b in h[1]:
                    f, n = self.nfirst(b)
                    out |= f
                    nl = nl or n
                if not nl:
                    return out, False
                continue
            if t == 'rule':
                f, n = self.nfirst(RULES[h[1]])
                out |= f
                if not n:
                    return out, False
                continue
        return out, True

    # ---- stepping through the grammar
    def compat(self, kinds, cls):
        m = {'X': ('X', 'CallArg', 'ArrElem'), 'Ctx': ('CallArg', 'ArrElem', 'X'), 'Pat': ('Pat', 'Param', 'PatElem'), 'Param': ('Param', 'Pat', 'PatElem'), 'PatElem': ('PatElem', 'Param', 'Pat')}
        return any(k in kinds for k in m.get(cls, (cls,)))

    def takes(self, st, ev, items):
        """0/1: does the event begin `items`?"""
        if ev[0] == 'n':
            return int(self.compat(self.nfirst(items)[0], ev[1]))
        f = self.tfirst(items)[0]
        S = ev[1]
        if ev[0] == 't' and items and items[0][0] == 'T' and items[0][3] is not None:
            tf = self.text_fact(st, 'tok', items[0][3])
            if tf == 0:
                return 0
        if not (S & f):
            return 0
        if not (S <= f):
            raise self.splitcur([S & f, S - f])
        return 1

    def text_fact(self, st, s, word):
        key = ('streq',) + tuple(sorted([('S', s + '.text'), ('str', word)], key=repr))
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k and k[0] == 'streq' and ('str', word) in k[1:] and (('S', s + '.text') in k[1:] or ('S', s + '.acc') in k[1:]):
                if len(v) == 1:
                    return next(iter(v))
        return None

    def text_is(self, st, s, word):
        return self.text_fact(st, s, word) == 1

    def step(self, st, ev):
        """advance the grammar over one event; returns (new D, slot)"""
        d = st.dom
        spec = d.spec
        self.obl += 1
        self.now = st
        S = self.cur(st)
        pend = []
        while True:
            if not spec:
                return self.extra(st, ev, S)
            h, rest = spec[0], spec[1:]
            t = h[0]
            if t == 'T':
                if ev[0] == 't':
                    f = h[1]
                    if S <= f:
                        if h[3] is not None:
                            tf = self.text_fact(st, 'tok', h[3])
                            if tf != 1:
                                self.bad(st, 'S02', 'any word as `%s`' % h[3], 'a word is read as `%s` without being compared with it' % h[3])
                        return self.done(st, d, rest, h[2] or ('first' if d.first is None else 'mark'), ev, pend)
                    if S & f:
                        ex = S - f
                        self.bad(st, 'S02', 'accepts %s as %s' % ('something else' if len(ex) > 4 else tn(ex), tn(f)), '%s is consumed where %s is required' % (tn(ex), tn(f)))
                        return self.done(st, d, rest, h[2] or ('first' if d.first is None else 'mark'), ev, pend)
                    self.mismatch(st, ev, S, spec)
                self.mismatch(st, ev, S, spec)
            if t == 're':
                if ev[0] == 're':
                    return self.done(st, d, rest, None, ev, pend)
                self.mismatch(st, ev, S, spec)
            if t == 'tb':
                if ev[0] == 'tb':
                    return self.done(st, d, rest, 'tb', ev, pend)
                self.mismatch(st, ev, S, spec)
            if t == 'N':
                if ev[0] == 'n' and self.compat((h[1],), ev[1]):
                    self.checknt(st, h, ev)
                    if h[1] == 'Nest':
                        # nothing need be consumed
                        return self.done(st, d, rest, h[2], ev, pend)
                    return self.done(st, d, rest, h[2], ev, pend)
                self.mismatch(st, ev, S, spec)
            if t in ('opt', 'rep'):
                body = h[1]
                if self.takes(st, ev, body):
                    if ev[0] == 'n':
                        nf = self.first(body)[0]
                        stop = h[2] if len(h) > 2 else frozenset()
                        other = (self.first(rest)[0] - nf) | stop
                        if S & other and not (S <= nf):
                            self.bad(st, self.partprop, 'reads a %s at %s' % (KINDNAME.get(ev[1], ev[1]), tn(S & other)), 'a %s is read even if %s comes next' % (KINDNAME.get(ev[1], ev[1]), tn(S & other)))
                        elif stop & S:
                            self.bad(st, self.partprop, 'reads a %s at %s' % (KINDNAME.get(ev[1], ev[1]), tn(S & stop)), 'a %s is read even if %s comes next' % (KINDNAME.get(ev[1], ev[1]), tn(S & stop)))
                    spec = tuple(body) + ((h,) if t == 'rep' else ()) + rest
                    continue
                self.skipcheck(st, S, h, ev)
                spec = rest
                continue
            if t == 'optasi':
                if (ev[0] == 'n' or ev[0] == 't') and self.takes(st, ev, h[1]):
                    if self.asi(st) != 'NoSemicolon':
                        self.bad(st, 'S07', 'operand after a line break', 'what follows is taken as part of the statement even if a line break or semicolon has ended it')
                    spec = tuple(h[1]) + rest
                    continue
                spec = rest
                continue
            if t == 'alt':
                br = [b for b in h[1] if self.takes(st, ev, b)]
                if len(br) > 1 and ev[0] == 't':
                    raise Unmodelled('ambiguous grammar')
                if not br:
                    # an alternative may consume nothing
                    br = [b for b in h[1] if self.nullable(b)]
                    pk = [b for b in br if b and b[0][0] == 'peek']
                    if not br:
                        self.mismatch(st, ev, S, spec)
                    b = (pk or br)[0]
                    oth = frozenset().union(*[self.first(x)[0] for x in h[1] if x is not b]) - (b[0][1] if b and b[0][0] == 'peek' else frozenset())
                    if S & oth:
                        if not (S <= oth) and ev[0] != 'n':
                            raise self.splitcur([S & oth, S - oth])
                        self.bad(st, self.partprop, 'skips %s' % tn(S & oth), 'continues without what %s begins' % tn(S & oth))
                    spec = tuple(b) + rest
                    continue
                if ev[0] == 'n' and len(br) > 1:
                    # peeks decide
                    pk = [b for b in br if b[0][0] == 'peek']
                    if len(pk) == 1 and S <= pk[0][0][1]:
                        br = pk
                    elif len(pk) == 1 and not (S & pk[0][0][1]):
                        br = [b for b in br if b is not pk[0]]
                    elif pk:
                        raise self.splitcur([S & pk[0][0][1], S - pk[0][0][1]])
                if ev[0] == 'n':
                    mine = br[0]
                    oth = frozenset().union(*[self.tfirst(x)[0] for x in h[1] if x is not mine]) if len(h[1]) > 1 else frozenset()
                    if not (mine and mine[0][0] == 'peek'):
                        if ev[1] in ('X', 'Ctx'):
                            oth = oth - (EXPR_FIRST if False else frozenset())
                        if S & oth:
                            self.bad(st, self.partprop, 'reads a %s at %s' % (KINDNAME.get(ev[1], ev[1]), tn(S & oth)), 'a %s is read even if %s comes next, which means something else here' % (KINDNAME.get(ev[1], ev[1]), tn(S & oth)))
                spec = tuple(br[0]) + rest
                continue
            if t == 'rule':
                spec = RULES[h[1]] + rest
                continue
            if t == 'semi':
                if ev[0] == 't':
                    if S == {'Semicolon'}:
                        return self.done(st, d, rest, 'semi', ev, pend)
                    if 'Semicolon' in S:
                        raise self.splitcur([{'Semicolon'}, S - {'Semicolon'}])
                self.notsemi(st, S)
                spec = rest
                continue
            if t == 'dosemi':
                if ev[0] == 't':
                    if S == {'Semicolon'}:
                        return self.done(st, d, rest, 'semi', ev, pend)
                    if 'Semicolon' in S:
                        raise self.splitcur([{'Semicolon'}, S - {'Semicolon'}])
                spec = rest
                continue
            if t == 'peek':
                if not (S <= h[1]):
                    if S & h[1]:
                        raise self.splitcur([S & h[1], S - h[1]])
                    self.bad(st, 'S02', 'accepts %s as %s' % ('something else' if len(S) > 4 else tn(S), tn(h[1])), 'goes on at %s where %s is required' % (tn(S), tn(h[1])))
                spec = rest
                continue
            if t in ('follow', 'lhs', 'cond'):
                spec = rest
                continue
            if t == 'lv':
                self.lvcheck(st)
                spec = rest
                continue
            if t in ('item', 'flag', 'unflag', 'res'):
                d = self.effect(st, d, h)
                spec = rest
                continue
            raise Unmodelled('grammar item %s' % t)

    def nullable(self, b):
        for h in b:
            t = h[0]
            if t in ('T', 're', 'tb'):
                return False
            if t == 'N':
                return False
            if t == 'rule' and not self.nullable(RULES[h[1]]):
                return False
            if t == 'alt' and not any(self.nullable(x) for x in h[1]):
                return False
        return True

    def effect(self, st, d, h):
        if h[0] == 'flag':
            return d._replace(flags=d.flags | {h[1]})
        if h[0] == 'unflag':
            return d._replace(flags=d.flags - {h[1]})
        if h[0] == 'res':
            return d._replace(res=h[1])
        return d._replace(exp=d.exp + ((h[1], h[2]),))

    def lvcheck(self, st):
        vs = self.leftkinds(st)
        badk = vs - LVALUE_MAY
        if badk:
            self.bad(st, 'S02', 'assigns to %s' % ('anything' if len(badk) > 6 else ', '.join(sorted(badk))), 'a target that cannot be assigned to is accepted (%s)' % ', '.join(sorted(badk)))

    def leftkinds(self, st, s='left'):
        t = self.tid('ratel::ast::Expression') if False else self.exprt()
        f = st.facts.get((s, t))
        names = [v['name'] for v in self.p.types[t]['variants']]
        return frozenset(names if f is None else [names[i] for i in f])

    def exprt(self):
        return self.tid('ratel::ast::expression::Expression') if self.has('ratel::ast::expression::Expression') else self.tid('ratel::ast::Expression')

    def has(self, name):
        return any(t['k'] == 'adt' and t.get('name') == name for t in self.p.types)

    def is_in(self, st, s):
        k = self.leftkinds(st, s)
        if 'Binary' not in k:
            return False
        ot = self.tid('ratel::ast::OperatorKind') if self.has('ratel::ast::OperatorKind') else self.tid('ratel::ast::operator::OperatorKind')
        f = st.facts.get((s + '.operator', ot))
        ops = None if f is None else {self.p.types[ot]['variants'][i]['name'] for i in f}
        if ops is not None and 'In' not in ops:
            return False
        return True if k == {'Binary'} and ops == {'In'} else None

    def notsemi(self, st, S):
        a = self.asi(st)
        if a == 'ImplicitSemicolon' or S <= {'BraceClose', 'ParenClose', EOP}:
            return
        if a == 'ExplicitSemicolon' or S == {'Semicolon'}:
            self.bad(st, 'S07', 'semicolon not consumed', 'the semicolon that ends the statement is left to be read as an empty statement')
        else:
            self.bad(st, 'S07', 'not terminated', 'the statement is accepted although neither a semicolon nor a line break, closing brace or end of input follows')

    def skipcheck(self, st, S, h, ev=None):
        f = self.first(h[1], lambda w, _: self.text_fact(st, 'tok', w) == 1)[0]
        stop = h[2] if len(h) > 2 else frozenset()
        f = f - stop
        if S & f:
            if not S <= f and ev is not None and ev[0] != 'n':
                raise self.splitcur([S & f, S - f])
            self.bad(st, self.partprop, 'skips %s' % tn(S & f), 'ends or goes on without the part that %s begins' % tn(S & f))

    def extra(self, st, ev, S):
        self.bad(st, self.partprop, 'reads on after the end', 'goes on to read %s after its end' % self.show(ev, S))
        raise Prune()

    def show(self, ev, S):
        if ev[0] == 'n':
            return 'a ' + KINDNAME.get(ev[1], ev[1])
        if ev[0] == 're':
            return 'a regular expression'
        return tn(S)

    def mismatch(self, st, ev, S, spec):
        want = self.want(spec)
        what = 'something else' if ev[0] == 't' and len(S) > 4 else self.show(ev, S)
        self.bad(st, {'S02', self.partprop}, 'reads %s where %s is required' % (what, want), 'reads %s where the grammar demands %s' % (self.show(ev, S), want))
        raise Prune()

    def want(self, spec):
        h = spec[0]
        if h[0] == 'T':
            return tn(h[1])
        if h[0] == 'N':
            return 'a ' + KINDNAME.get(h[1], h[1])
        f, n = self.first(spec)
        return tn(f) if f else 'the end'

    def checknt(self, st, h, ev):
        kind = h[1]
        cls, fn, args = ev[1], ev[2], ev[3]
        if kind in ('X',) and cls == 'X':
            self.checklevel(st, h[3], self.allowed.get(self.bp(fn)), 'operand ' + self.slotname(h[2]))
        elif kind == 'Nest':
            self.checklevel(st, h[3], self.allowed.get(self.bp(fn)), 'expression')
            err = self.match(st, args[1], h[4], 'expression')
            if err:
                self.bad(st, self.partof(err), err[1], err[2])
        elif cls == 'Ctx' or kind in ('CallArg', 'ArrElem'):
            if cls == 'X':
                self.bad(st, self.partprop, '%s without spread' % kind, 'a %s is read as a plain expression' % KINDNAME[kind])
                return
            self.checklevel(st, 'assign', self.allowed.get(self.bp(fn)), KINDNAME[kind])
            c = self.ctxname(args[1])
            self.uses.add((fn['id'], c, kind))
        elif kind == 'Block':
            want = h[3]
            got = 'S' if 'Statement' in fn['name'] else 'Case' if 'SwitchCase' in fn['name'] else 'Member'
            if got != want:
                self.bad(st, self.partprop, 'block of %s' % got, 'reads a block of another kind')
        elif kind in ('Pat', 'Param', 'PatElem') and cls != kind:
            self.bad(st, self.partprop, 'reads a %s as %s' % (KINDNAME[cls], KINDNAME[kind]), 'a %s is read where a %s belongs' % (KINDNAME[cls], KINDNAME[kind]))

    def slotname(self, s): return s

    def bp(self, fn):
        return fn['targs'][-1] if fn['targs'] else None

    def ctxname(self, v):
        for _ in range(4):
            if v[0] == 'ref' and v[1][0] == 'G':
                return v[1][1]
            if v[0] == 'ref':
                x = self.eng.load(None, v[1], v[2]) if v[1][0] == 'K' else None
                if x is None:
                    break
                if x[0] == 'arr':
                    for n in self.p.statics:
                        y = self.p.static_value(n)
                        for _ in range(3):
                            if y[0] == 'ref' and y[1][0] == 'K':
                                y = y[1][1]
                        if y == x:
                            return n
                v = x
        raise Unmodelled('context %r' % (v[:1],))

    def checklevel(self, st, level, got, what):
        if got is None:
            raise Unmodelled('binding power of %s' % what)
        want = LEVEL[level]
        more = got - want
        if level not in ('assign', 'any'):
            more -= {'OperatorFatArrow'}
        less = want - got
        if more:
            self.bad(st, 'S04', '%s takes in %s' % (what, tn(more, 6)), '%s goes on over %s, which binds less tightly' % (what, tn(more, 12)))
        if less:
            self.bad(st, 'S04', '%s stops at %s' % (what, tn(less, 6)), '%s ends before %s, which binds more tightly' % (what, tn(less, 12)))

    def done(self, st, d, rest, s, ev, pend):
        st.ev(self.show(ev, self.cur(st)))
        first = d.first if d.first is not None else s
        last = d.last if s in ('semi', None) else s
        name = d.name
        if name is None and d.first is None and ev[0] == 't' and self.rootkind in ('S', 'Infix', 'X', 'CallArg', 'ArrElem'):
            S = self.cur(st)
            if len(S) <= 4:
                name = '%s beginning with %s' % (KINDNAME.get(self.rootkind), tn(S)) if self.rootkind != 'Infix' else 'operator ' + tn(S)
        # sync: effects directly after a token take place at once
        d = d._replace(spec=rest, first=first if first is not None else d.first, last=last, name=name)
        return d, s

    def commit(self, st, d, s):
        """effects up to the next choice, then pairing of list elements"""
        while d.spec and d.spec[0][0] in ('item', 'flag', 'unflag', 'rule'):
            h = d.spec[0]
            if h[0] == 'rule':
                break
            d = self.effect(st, d, h)._replace(spec=d.spec[1:])
        st.dom = d
        self.pair(st)

    # ---- events
    def event(self, st, ev):
        if st.dom.err is not None:
            self.bad(st, 'S02', 'goes on after an unexpected token', 'an unexpected token is skipped without an error')
            raise Prune()
        return self.step(st, ev)

    def consume(self, st):
        d, s = self.event(st, ('t', self.cur(st)))
        if st.dom.exp and s is not None and not s == 'semi':
            self.pendcheck(st, s)
        self.fresh(st, s)
        self.commit(st, d, s)
        return s

    def pendcheck(self, st, s):
        pass

    def template_kind(self, st):
        S = self.cur(st)
        if S != {'BraceClose'}:
            if 'BraceClose' in S:
                raise self.splitcur([{'BraceClose'}, S - {'BraceClose'}])
        d, s = self.event(st, ('tb', S))
        if S != {'BraceClose'}:
            self.bad(st, 'S02', 'substitution ended by %s' % tn(S), 'the text after a substitution is read although it does not end in a brace')
        self.fresh(st, s)
        self.commit(st, d, s)
        self.setcur(st, fs('TemplateOpen TemplateClosed UnexpectedToken UnexpectedEndOfProgram'))

    def regex(self, st):
        S = self.cur(st)
        d, s = self.event(st, ('re', S))
        st.facts.pop(('tok', self.TOK), None)
        self.dropfacts(st, 'tok.asi')
        self.rename(st, 'tok.end', 'slash.end')
        self.commit(st, d, s)
        self.setcur(st, fs('LiteralRegEx UnexpectedToken UnexpectedEndOfProgram'))

    def invalid(self, st):
        d = st.dom
        st.dom = d._replace(err=(self.cur(st), self.asi(st)))

    def error(self, st):
        """an error is recorded: the text is rejected.  Is that right?"""
        d = st.dom
        S = d.err[0] if d.err is not None else self.cur(st)
        st.dom = d._replace(err=None)
        self.reject(st, S)
        raise Prune()

    def reject(self, st, S):
        self.obl += 1
        self.now = st
        spec = st.dom.spec
        while spec and spec[0][0] in ('item', 'flag', 'unflag', 'res', 'lhs'):
            spec = spec[1:]
        if spec and spec[0][0] == 'lv':
            vs = self.leftkinds(st)
            ok = vs & (LVALUE_MUST | (fs('Object Array') if self.slot_tokens(st, 'op') == {'OperatorAssign'} else frozenset()))
            if ok:
                self.bad(st, {'S02', 'S04'}, 'rejects an assignment to %s' % ', '.join(sorted(ok)), 'a target that can be assigned to is rejected (%s)' % ', '.join(sorted(ok)))
            return
        exp = self.expected(st, spec)
        badt = S & exp
        if badt:
            ends = any(h[0] in ('semi', 'dosemi', 'optasi') for h in spec[:3])
            self.bad(st, {'S02', self.partprop} | ({'S07'} if ends else set()), 'rejects %s' % tn(badt), 'reports an error at %s, which the grammar allows there' % tn(badt))

    def expected(self, st, spec):
        out = frozenset()
        a = self.asi(st)
        for i, h in enumerate(spec):
            t = h[0]
            if t in ('item', 'flag', 'unflag', 'res', 'lhs'):
                continue
            if t == 'semi':
                if a == 'ImplicitSemicolon':
                    return self.all
                if a == 'NoSemicolon':
                    return out
                return out | fs('Semicolon BraceClose') | {EOP}
            if t == 'optasi':
                if a == 'NoSemicolon':
                    out |= self.first(h[1])[0]
                continue
            if t == 'dosemi':        # what follows may be on the same line
                return out | fs('Semicolon BraceClose') | {EOP} | FIRSTS['S']
            if t == 'peek':
                return out | h[1]
            f, n = self.first((h,), lambda w, _: self.text_fact(st, 'tok', w) == 1)
            out |= f
            if not n:
                return out
        return out

    def nonterminal(self, st, c, fn, args):
        if c == 'Conv':
            p = self.pathof(st, args[1])
            return self.ret1(('sym', 'conv(%s)' % p, fn['locals'][0]))
        if c == 'ConvList':
            v = args[1]
            if v[0] == 'sym':
                return self.ret1(('convlist', v[1]))
            if v[0] == 'lst':
                return self.ret1(('convlist', v))
            raise Unmodelled('parameters from %r' % (v[:1],))
        d, s = self.event(st, ('n', c, fn, args))
        self.leave(st, s, c != 'Nest')
        if c in ('X', 'Ctx', 'Nest'):
            ex = self.exits.get(self.bp(fn))
            if ex:
                self.setcur(st, ex)
        self.commit(st, d, s)
        return self.ret1(('sym', s, fn['locals'][0]))

    def pathof(self, st, v):
        for _ in range(6):
            if v[0] == 'sym':
                return v[1]
            if v[0] == 'ref' and v[1][0] == 'S':
                return v[1][1]
            if v[0] == 'ref':
                v = self.eng.load(st, v[1], v[2])
            elif v[0] == 'adt' and len(v[3]) == 1:
                v = v[3][0]
            else:
                break
        raise Unmodelled('node %r' % (v[:1],))

    # ---- lists
    def listcall(self, st, fn, n, args):
        m = re.sub(r'::<[^:]*>$', '', n).rsplit('::', 1)[1]
        if m in ('into_unsafe', 'into_list', 'iter', 'next', 'is_empty', 'only_element', 'first_element', 'into_iter', 'clone'):
            return None
        d = st.dom
        if m == 'empty' and '::List::' in n:
            return self.ret1(('lst', 0))
        if m == 'new' and ('ListBuilder' in n or 'GrowableList' in n):
            k = d.nl + 1
            st.dom = d._replace(nl=k)
            if len(args) == 2:
                self.push(st, k, args[1])
            return self.ret1(('lb', k))
        if m == 'from' and '::List::' in n:
            k = d.nl + 1
            st.dom = d._replace(nl=k)
            self.push(st, k, args[1])
            return self.ret1(('lst', k))
        if m in ('push', 'as_list'):
            v = args[0]
            for _ in range(4):
                if v[0] == 'ref':
                    v = self.eng.load(st, v[1], v[2])
            if v[0] != 'lb':
                raise Unmodelled('list %r' % (v[:1],))
            if m == 'as_list':
                return self.ret1(('lst', v[1]))
            self.push(st, v[1], args[2])
            return self.ret1(('tup', ()))
        raise Unmodelled('list operation ' + n[:80])

    def push(self, st, k, v):
        r = st.alloc(v)
        st.dom = st.dom._replace(act=st.dom.act + ((k, r),))
        self.pair(st)

    def pair(self, st):
        """elements put into lists against elements the grammar has seen"""
        while True:
            d = st.dom
            todo = False
            for i, (k, r) in enumerate(d.act):
                if any(k2 == k for k2, _ in d.act[:i]):
                    continue
                bound = dict(d.bind).get(k)
                cands = []
                for j, (L, tm) in enumerate(d.exp):
                    if any(L2 == L for L2, _ in d.exp[:j]):
                        continue
                    if bound is not None and L != bound:
                        continue
                    if bound is None and any(b == L for _, b in d.bind):
                        continue
                    cands.append((j, L, tm))
                if not cands:
                    continue
                hit = None
                errs = []
                for j, L, tm in cands:
                    e = self.match(st, st.heap[r], tm, 'element of ' + L)
                    if e is None or e[0] == 'S06':
                        hit = (j, L, e)
                        break
                    errs.append((j, L, e))
                if hit is None:
                    if bound is not None:
                        j, L, e = errs[0]
                        self.bad(st, self.partof(e), e[1], e[2])
                        hit = (j, L, None)
                    else:
                        continue
                j, L, e = hit
                if e is not None:
                    self.bad(st, e[0], e[1], e[2])
                st.dom = d._replace(act=d.act[:i] + d.act[i + 1:], exp=d.exp[:j] + d.exp[j + 1:], bind=d.bind if bound is not None else d.bind + ((k, L),))
                todo = True
                break
            if not todo:
                break
        d = st.dom
        if len(d.act) > 6 or len(d.exp) > 6:
            self.bad(st, self.partprop, 'list elements', 'what is put into the lists of the tree is not what was read')
            raise Prune()

    # ---- templates
    def partof(self, err): return err[0] or self.partprop

    def unwrap(self, st, v):
        for _ in range(12):
            if v[0] == 'adt' and self.eng.short(v[1]) in ('Node', 'CopyCell', 'UnsafeCell', 'Cell'):
                v = v[3][0]
            elif v[0] == 'ref' and v[1][0] in ('H', 'K', 'L', 'G'):
                v = self.eng.load(st, v[1], v[2])
            else:
                break
        return v

    def show_val(self, st, v):
        v = self.unwrap(st, v)
        if v[0] == 'sym':
            return self.pretty(v[1])
        if v[0] == 'ref' and v[1][0] == 'S':
            return self.pretty(v[1][1])
        if v[0] == 'adt':
            sh = self.eng.short(v[1])
            if sh == 'Loc':
                return self.show_val(st, v[3][2])
            vs = self.p.types[v[1]]['variants']
            return vs[v[2]]['name']
        if v[0] == 'i':
            return str(v[1])
        if v[0] == 'str':
            return repr(v[1])
        return v[0]

    def pretty(self, p):
        return p.replace('tok.', 'the next token.') if p.startswith('tok.') else p

    def match(self, st, v, t, where):
        """None, or (property or None, key, message)"""
        if callable(t):
            t = t(self, st)
        k = t[0]
        if k == 'never':
            return (None, 'accepts %s' % t[1], '%s is accepted' % t[1])
        if k == 'slot':
            v = self.unwrap(st, v)
            got = v[1] if v[0] == 'sym' else v[1][1] if v[0] == 'ref' and v[1][0] == 'S' else None
            if got == t[1]:
                return None
            return (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s instead of %s' % (where, self.show_val(st, v), t[1]))
        if k == 'str':
            v = self.unwrap(st, v)
            got = v[1][1] if v[0] == 'ref' and v[1][0] == 'S' else v[1] if v[0] == 'sym' else None
            if got == t[1]:
                return None
            return (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s instead of %s' % (where, self.show_val(st, v), t[1]))
        if k in ('strnode', 'conststrnode', 'node'):
            v = self.unwrap(st, v)
            if v[0] != 'adt' or self.eng.short(v[1]) != 'Loc':
                return (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s' % (where, self.show_val(st, v)))
            start, end, it = v[3]
            if k == 'strnode':
                e = self.match(st, it, ('str', t[1]), where)
                a, b = t[2], t[3]
            elif k == 'conststrnode':
                x = self.unwrap(st, it)
                e = None if x == ('str', t[1]) else (None, '%s is %s' % (where, self.show_val(st, x)), '%s is %s instead of `%s`' % (where, self.show_val(st, x), t[1]))
                a, b = t[2], t[3]
            else:
                e = self.struct(st, it, t[1], t[2], where)
                a, b = t[3], t[4]
            if e and e[0] != 'S06':
                return e
            sp = self.span(st, start, end, a, b, where)
            return e or sp
        if k == 'struct':
            return self.struct(st, self.unwrap(st, v), t[1], t[2], where)
        if k == 'option':
            v = self.unwrap(st, v)
            if v[0] != 'adt':
                return (None, '%s is unknown' % where, '%s is %s' % (where, self.show_val(st, v)))
            want = t[1] in st.dom.flags
            got = self.p.types[v[1]]['variants'][v[2]]['name'] == 'Some'
            if want != got:
                return (None, '%s is %s' % (where, 'missing' if want else 'present'), '%s is %s although it was %s' % (where, 'missing' if want else 'present', 'written' if want else 'not written'))
            return self.match(st, v[3][0], t[2], where) if got else None
        if k == 'flagged':
            v = self.unwrap(st, v)
            if v != ('i', int(t[1] in st.dom.flags)):
                return (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s' % (where, self.show_val(st, v)))
            return None
        if k == 'b':
            v = self.unwrap(st, v)
            return None if v == ('i', t[1]) else (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s' % (where, self.show_val(st, v)))
        if k == 'op':
            v = self.unwrap(st, v)
            toks = self.slot_tokens(st, t[1])
            want = {x.replace('Operator', '') for x in toks}
            if v[0] == 'adt' and want == {self.p.types[v[1]]['variants'][v[2]]['name']}:
                return None
            return (None, 'operator is %s' % self.show_val(st, v), 'the operator %s is stored as %s' % (tn(toks), self.show_val(st, v)))
        if k == 'lst':
            v = self.unwrap(st, v)
            if v[0] != 'lst':
                return (None, '%s is not the list' % where, '%s is %s' % (where, v[0]))
            d = st.dom
            b = dict(d.bind).get(v[1])
            if b == t[1]:
                return None
            if b is None and not any(x == t[1] for _, x in d.bind) and not any(L == t[1] for L, _ in d.exp) and not any(k2 == v[1] for k2, _ in d.act):
                return None
            return (None, '%s is %s' % (where, 'empty' if b is None else 'the list of ' + b), '%s is %s instead of %s' % (where, 'an empty list' if b is None else b, t[1]))
        if k == 'empty':
            v = self.unwrap(st, v)
            if v == ('lst', 0) or v == ('convlist', ('lst', 0)):
                return None
            return (None, '%s is not empty' % where, '%s is not empty' % where)
        if k == 'arrowparams':
            v = self.unwrap(st, v)
            seq = self.leftkinds(st) == {'Sequence'}
            if v[0] == 'convlist':
                if v[1] == 'left.body' and seq:
                    return None
                if isinstance(v[1], tuple) and v[1][0] == 'lst' and 'Sequence' not in self.leftkinds(st):
                    for i, (n, r) in enumerate(st.dom.act):
                        if n == v[1][1]:
                            e = self.match(st, st.heap[r], slot('left'), where)
                            if e:
                                return e
                            st.dom = st.dom._replace(act=st.dom.act[:i] + st.dom.act[i + 1:])
                            return None
            return ('S05', 'parameters of the arrow function', 'the parameters of the arrow function are not the expressions before the arrow')
        if k == 'program':
            p = st.heap[self.parser_root]
            names = [f[0] for f in self.p.types[p[1]]['variants'][0]['fields']]
            return self.match(st, p[3][names.index('body')], lst(t[1]), 'body of the program')
        raise Unmodelled('template %s' % k)

    def struct(self, st, v, variant, fields, where):
        v = self.unwrap(st, v)
        if v[0] == 'adt' and self.eng.short(v[1]) == 'Option' and variant not in ('Some', 'None'):
            return (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s' % (where, self.show_val(st, v)))
        if v[0] != 'adt':
            return (None, '%s is %s' % (where, self.show_val(st, v)), '%s is %s instead of %s' % (where, self.show_val(st, v), variant))
        var = self.p.types[v[1]]['variants'][v[2]]
        if var['name'] != variant:
            return (None, '%s is %s' % (where, var['name']), '%s is built as %s instead of %s' % (where, var['name'], variant))
        names = [f[0] for f in var['fields']]
        vals = v[3]
        if fields and fields[0][0] != '0' and names == ['0']:
            w = self.unwrap(st, vals[0])
            if w[0] != 'adt':
                return (None, '%s is %s' % (where, self.show_val(st, w)), '%s is %s' % (where, self.show_val(st, w)))
            var = self.p.types[w[1]]['variants'][w[2]]
            names = [f[0] for f in var['fields']]
            vals = w[3]
        soft = None
        for f, t in fields:
            if f not in names:
                raise Unmodelled('%s has no field %s' % (variant, f))
            e = self.match(st, vals[names.index(f)], t, f if f != '0' else where)
            if e:
                if e[0] != 'S06':
                    return e
                soft = soft or e
        return soft

    def span(self, st, start, end, a, b, where):
        d = st.dom
        a = d.first if a == '^' else a
        b = d.last if b == '$' else b
        self.obl += 1
        ws, we = a + '.start', b + '.end'
        ok_s = {ws}
        ok_e = {we}
        if a == 'nest':
            ok_s.add('%s.start' % d.first)
        if b == 'tok<':
            ws = we = None
            ok_s = ok_e = {'tok.start', 'tok<.start'}
        if 'semi' in d.flags or self.rootkind in ('S', 'Member'):
            if b == d.last:
                ok_e.add('semi.end')
        gs = start[1] if start[0] == 'sym' else str(start)
        ge = end[1] if end[0] == 'sym' else str(end)
        if gs not in ok_s:
            return ('S06', '%s starts at %s' % (where, gs), 'the start of %s is %s instead of %s' % (where, self.pretty(gs), ws))
        if ge not in ok_e:
            return ('S06', '%s ends at %s' % (where, ge), 'the end of %s is %s instead of %s' % (where, self.pretty(ge), we))
        return None

    # ---- end of the nonterminal
    def ret(self, st, val):
        self.obl += 1
        self.now = st
        if st.dom.err is not None:
            self.bad(st, 'S02', 'goes on after an unexpected token', 'an unexpected token is skipped without an error')
            return
        S = self.cur(st)
        spec = st.dom.spec
        d = st.dom
        while spec:
            h, rest = spec[0], spec[1:]
            t = h[0]
            if t in ('item', 'flag', 'unflag', 'res'):
                d = self.effect(st, d, h)
                spec = rest
                continue
            if t in ('opt', 'rep'):
                f = self.first(h[1], lambda w, _: self.text_fact(st, 'tok', w) == 1)[0] - (h[2] if len(h) > 2 else frozenset())
                if S & f:
                    self.bad(st, self.partprop, 'skips %s' % tn(S & f), 'ends without the part that %s begins' % tn(S & f))
                spec = rest
                continue
            if t == 'optasi':
                spec = rest
                continue
            if t == 'alt':
                br = [b for b in h[1] if self.nullable(b)]
                if not br:
                    self.bad(st, {'S02', self.partprop}, 'ends where %s is required' % self.want(spec), 'ends before %s, which the grammar demands' % self.want(spec))
                    return
                b = br[0]
                oth = frozenset().union(*[self.first(x)[0] for x in h[1] if x is not b])
                if b and b[0][0] == 'peek':
                    oth -= b[0][1]
                if S & oth:
                    self.bad(st, self.partprop, 'skips %s' % tn(S & oth), 'ends without what %s begins' % tn(S & oth))
                spec = tuple(b) + rest
                continue
            if t == 'rule':
                spec = RULES[h[1]] + rest
                continue
            if t == 'semi':
                self.notsemi(st, S)
                spec = rest
                continue
            if t == 'dosemi':
                if 'Semicolon' in S:
                    self.bad(st, 'S07', 'semicolon not consumed', 'the semicolon that ends the statement is left to be read as an empty statement')
                spec = rest
                continue
            if t == 'peek':
                if not S <= h[1]:
                    self.bad(st, 'S02', 'ends before %s' % tn(h[1]), 'ends at %s where %s is required' % (tn(S - h[1]), tn(h[1])))
                spec = rest
                continue
            if t in ('follow', 'lhs', 'cond'):
                spec = rest
                continue
            if t == 'lv':
                self.lvcheck(st)
                spec = rest
                continue
            self.bad(st, {'S02', self.partprop}, 'ends where %s is required' % self.want(spec), 'ends before %s, which the grammar demands' % self.want(spec))
            return
        st.dom = d._replace(spec=())
        self.pair(st)
        d = st.dom
        if d.res is None:
            return
        e = self.match(st, val, d.res, KINDNAME.get(self.rootkind.split()[0], 'result'))
        if e:
            self.bad(st, self.partof(e), e[1], e[2])
            if e[0] != 'S06':
                return
        d = st.dom
        for L, _ in d.exp:
            self.bad(st, self.partprop, 'element of %s lost' % L, 'something that was read as part of %s is not in the list' % L)
        if d.act and not d.exp:
            self.bad(st, self.partprop, 'extra list element', 'a list holds an element that is not in the source')
        self.accepted.add(st.dom.name or self.rootkind)

    def panic(self, st, what, where):
        self.bad(st, 'S01', 'panics', 'the parser may panic: %s' % what)

    def assert_unknown(self, st, msg, v, exp): pass

    def small_overflow(self, st, a, b, bits):
        if a[0] == 'cnt' or b[0] == 'cnt':
            self.bad(st, 'S01', 'wraps a count of %d bits' % bits, 'the parser panics or counts wrongly when a count exceeds %d bits' % bits)


class NE(PA):
    """the loop over the operators that may continue an expression: which tokens, with which function"""

    def __init__(self, prog, allowed=None):
        PA.__init__(self, prog, 'Nest', None, allowed)
        self.handlers = set()
        self.exits = set()

    def call(self, st, fn, decl, args):
        if len(args) in (2, 3) and 'locals' in fn and self.is_infix(fn, args) and self.cut(fn) != 'Nest':
            return self.infix(st, fn, args)
        return PA.call(self, st, fn, decl, args)

    def is_infix(self, fn, args):
        rt = self.p.types[fn['locals'][0]]
        if rt['k'] != 'adt' or 'Expression<' not in rt.get('str', '') or self.eng.short(fn['locals'][0]) != 'Node':
            return False
        l = fn['locals'][1:fn['argc'] + 1]
        if not l or self.p.types[l[-1]].get('str') != rt['str']:
            return False
        return any(self.p.types[x]['k'] == 'ref' and self.p.types[x]['elem'] == self.PARSER for x in l)

    def infix(self, st, fn, args):
        S = self.cur(st)
        err = self.match(st, args[-1], slot('left'), 'operand')
        if err:
            self.bad(st, 'S04', 'operator applied to %s' % err[1], 'an operator is applied to something else than what stands before it')
        a = self.asi(st)
        for t in S:
            self.handlers.add((t, a, fn['id']))
        self.leave(st, 'left', False)
        return self.ret1(('sym', 'left', fn['locals'][0]))

    def nonterminal(self, st, c, fn, args):
        raise Unmodelled('call of %s between operators' % fn['name'])

    def consume(self, st):
        raise Unmodelled('token consumed between operators')

    def error(self, st):
        raise Unmodelled('error between operators')

    def ret(self, st, val):
        e = self.match(st, val, slot('left'), 'result')
        if e:
            self.bad(st, 'S04', 'result is %s' % e[1], 'the expression returned is not the one that was built')
        for t in self.cur(st):
            self.exits.add((t, self.asi(st)))


class CV(PA):
    """expressions that are reinterpreted as parameters"""

    def __init__(self, prog, root, allowed):
        PA.__init__(self, prog, root, None, allowed)
        self.partprop = 'S05'

    def consume(self, st): raise Unmodelled('token consumed in a conversion')

    def reject(self, st, S):
        self.now = st
        self.obl += 1
        if self.rootkind != 'Conv':
            self.bad(st, {'S02', 'S05'}, 'rejects a list', 'a list of expressions is rejected as such')
            return
        for k in self.leftkinds(st, 'e'):
            if k == 'Identifier':
                self.bad(st, {'S02', 'S05'}, 'rejects Identifier', 'a name is rejected as a parameter')
            if k == 'Binary' and self.opset(st) & {'Assign'}:
                self.bad(st, {'S02', 'S05'}, 'rejects a default', 'a name with a default is rejected as a parameter')

    def opset(self, st):
        ot = self.tid('ratel::ast::OperatorKind') if self.has('ratel::ast::OperatorKind') else self.tid('ratel::ast::operator::OperatorKind')
        f = st.facts.get(('e.operator', ot))
        names = [v['name'] for v in self.p.types[ot]['variants']]
        return set(names) if f is None else {names[i] for i in f}

    def push(self, st, k, v):
        if self.rootkind != 'ConvList':
            return PA.push(self, st, k, v)
        self.obl += 1
        p = self.pathof(st, v)
        src = 'es'
        if st.facts.get(('skip', src)):
            self.bad(st, 'S05', 'parameter skipped', 'an expression of the list is not converted')
        if p not in ('conv(es[0])', 'conv(es[+])') or not st.facts.get(('pend', src)):
            self.bad(st, 'S05', 'pushes %s' % p, 'the list of parameters gets %s' % p)
        st.facts.pop(('pend', src), None)

    def ret(self, st, val):
        self.now = st
        self.obl += 1
        if self.rootkind == 'ConvList':
            v = self.unwrap(st, val)
            if v[0] != 'lst':
                raise Unmodelled('list of parameters %r' % (v[:1],))
            if st.facts.get(('pend', 'es')) or st.facts.get(('skip', 'es')):
                self.bad(st, 'S05', 'parameter skipped', 'an expression of the list is not converted')
            elif not st.facts.get(('end', 'es')) and st.facts.get(('#', 'es')) != frozenset((0,)):
                self.bad(st, 'S05', 'ends early', 'the conversion ends before the list does')
            elif v == ('lst', 0) and st.facts.get(('#', 'es')) != frozenset((0,)):
                self.bad(st, 'S05', 'parameters lost', 'the converted parameters are not returned')
            self.accepted.add('ConvList')
            return
        kinds = self.leftkinds(st, 'e')
        if kinds == {'Identifier'}:
            t = node('Identifier', {'0': ('slot', 'e')}, 'e', 'e')
        elif kinds == {'Binary'} and self.opset(st) == {'Assign'}:
            t = node('AssignmentPattern', {'left': ('slot', 'conv(e.left)'), 'right': ('slot', 'e.right')}, 'e', 'e')
        else:
            bad = kinds - {'Identifier'}
            self.bad(st, 'S02', 'accepts %s as a parameter' % ('anything' if len(bad) > 6 else ', '.join(sorted(bad))), 'an expression that is no parameter is accepted as one')
            return
        e = self.match(st, val, t, 'parameter')
        if e:
            self.bad(st, e[0] or 'S05', e[1], e[2])
        self.accepted.add('Conv ' + ','.join(sorted(kinds)))


class RP(Models):
    """parse(): succeeds exactly if no error was recorded"""

    def __init__(self, prog):
        Models.__init__(self, prog)
        self.rootkind = 'parse'

    def roots(self, st): return ()

    def bad(self, st, key, msg):
        self.report(st, (('E01', 'S02'), 'parse: ' + key), 'parse: ' + msg)

    def call(self, st, fn, decl, args):
        n = fn['name']
        if n.endswith('::new') and n.startswith('ratel::parser::Parser'):
            r = self.newparser(st)
            return self.ret1(st.heap[r[1]])
        if re.search(r"^ratel::parser::Parser::<'_>::parse$", n):
            st.ev('parses the program')
            st.dom = 'parsed'
            return self.ret1(('tup', ()))
        if n.endswith('::new') and n.startswith('toolshed::arena::Arena'):
            return self.ret1(('top', fn['locals'][0]))
        if n.startswith('toolshed::list::') and n.endswith('into_unsafe'):
            v = args[0]
            return self.ret1(('body',) if v[0] == 'lst' else ('body?',))
        if n.startswith('std::vec::Vec::<ratel::error::Error>::'):
            m = segments(n)[-1]
            v = args[0]
            if v[0] == 'ref':
                v = self.eng.load(st, v[1], v[2])
            if v[0] != 'errs':
                raise Unmodelled('another list of errors')
            if m.startswith(('dedup', 'shrink', 'reserve', 'reverse', 'swap', 'sort')):
                return self.ret1(('tup', ()))
            if m in ('retain', 'retain_mut', 'truncate', 'clear', 'pop', 'remove', 'swap_remove', 'drain', 'split_off'):
                # none of the errors may be left
                self.eng.store(st, args[0][1], args[0][2], ('errs', 'some'))
                return self.ret1(('top', fn['locals'][0]) if 'locals' in fn and m != 'truncate' else ('tup', ()))
            if v == ('errs', 'some') and m in ('len', 'is_empty'):
                return [(None, ('i', 0)), (lambda c: None, ('i', 1))]
            known = st.facts.get('errs')

            def alt(k, val):
                def mm(c):
                    c.facts['errs'] = k
                return (mm, val)
            if m == 'len':
                return [alt(k, ('i', k) if k < 3 else ('cnt', 3)) for k in (0, 1, 2, 3) if known in (None, k)]
            if m == 'is_empty':
                return [alt(k, ('i', int(k == 0))) for k in (0, 1, 2, 3) if known in (None, k)]
            raise Unmodelled('use of the list of errors: ' + m)
        if args and 'errs' == args[0][0] or args and args[0][0] == 'erriter':
            m = segments(n)[-1]
            part = args[0][1:]
            if m in ('into_iter', 'iter', 'by_ref', 'rev', 'fuse', 'cloned'):
                return self.ret1(('erriter',) + part)
            if m in ('filter', 'take', 'skip', 'take_while', 'skip_while', 'step_by', 'filter_map'):
                return self.ret1(('erriter', 'some'))
            if m in ('collect', 'to_vec', 'from_iter', 'into_boxed_slice'):
                return self.ret1(('errs',) + part)
            if m not in ('into', 'from', 'branch'):
                raise Unmodelled('use of the list of errors: ' + m)
        return None

    def drop(self, st, t): return None

    def ret(self, st, val):
        self.obl += 1
        self.now = st
        names = [v['name'] for v in self.p.types[val[1]]['variants']] if val[0] == 'adt' else None
        if names is None or 'Ok' not in names:
            raise Unmodelled('result of parse')
        which = names[val[2]]
        errs = st.facts.get('errs')
        if st.dom != 'parsed':
            return self.bad(st, 'returns without parsing', 'a result is returned before the program was parsed')
        if which == 'Ok':
            if errs != 0:
                self.bad(st, 'accepts despite of errors', 'a module is returned although %s recorded' % ('an error was' if errs == 1 else 'errors may have been'))
            if "('body',)" not in repr(val[3]):
                self.bad(st, 'another body', 'the module returned does not hold the statements that were parsed')
        else:
            if errs == 0:
                self.bad(st, 'rejects without errors', 'a program without errors is rejected')
            if val[3][0] not in (('errs',), ('errs', 'some')):
                self.report(st, (('E01',), 'parse: other errors'), 'parse: the errors returned are not those that were recorded')

    def panic(self, st, what, where):
        self.report(st, (('S01',), 'parse: panics'), 'parse may panic: %s' % what)


def run_extra(prog, job, allowed):
    kind, fid = job
    f = prog.fns[fid]
    label = '%s %s' % (kind, f['name'][-60:])
    un = []
    if kind == 'parse':
        dom = RP(prog)
        dom.accepted = set()
    else:
        dom = CV(prog, kind, allowed)
    try:
        eng = Engine(prog, dom)
        st = State()
        if kind == 'parse':
            st.dom = 'start'
            eng.push_call(st, fid, [dom.strval('source')], None, None)
        else:
            par = dom.newparser(st)
            st.dom = D((), None, None, None, (), (), (), frozenset(), None, 0, None)
            eng.push_call(st, fid, [par, ('sym', 'e' if kind == 'Conv' else 'es', f['locals'][2])], None, None)
        eng.run(st)
        un = finish(dom, eng, label)
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (label, e)]
    return {'job': job, 'label': label, 'viol': dom.violations, 'un': un, 'uses': set(), 'accepted': dom.accepted, 'obl': dom.obl, 'states': dom.eng.nstates, 'fns': dom.eng.fns_seen}


def start(prog, dom, f, spec, args, name=None):
    eng = Engine(prog, dom)
    st = State()
    par = dom.newparser(st)
    st.dom = D(spec, None, None, None, (), (), (), frozenset(), None, 0, name)
    eng.push_call(st, f['id'], [par] + args, None, None)
    return eng, st


def finish(dom, eng, label):
    un = []
    for u in eng.unmodelled:
        un.append('%s: unmodelled %s' % (label, u))
    return un


def run_nest(prog, f):
    dom = NE(prog)
    label = f['name'].rsplit('::', 1)[-1]
    un = []
    try:
        eng, st = start(prog, dom, f, (), [('sym', 'left', f['locals'][2])])
        eng.run(st)
        un = finish(dom, eng, label)
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (f['name'][-60:], e)]
    return {'fid': f['id'], 'targ': f['targs'][-1] if f['targs'] else None, 'handlers': dom.handlers, 'exits': dom.exits, 'viol': dom.violations, 'un': un, 'obl': dom.obl,
            'states': dom.eng.nstates, 'fns': dom.eng.fns_seen}


def jobs1(prog, probe, allowed, handlers):
    """(kind, fid, token set or None, context)"""
    out = []
    for f in prog.fns:
        if 'blocks' not in f:
            continue
        c = probe.cut(f)
        if c in (None, 'Nest', 'Ctx', 'ConvList', 'Conv'):
            continue
        if c == 'Block':
            c = 'Block ' + ('S' if 'Statement' in f['name'] else 'Case' if 'SwitchCase' in f['name'] else 'Member')
        out.append((c, f['id'], None, None))
    for f in prog.find(r"^ratel::parser::Parser::<'_>::parse$"):
        out.append(('Program', f['id'], None, None))
    hs = {}
    for t, fid in handlers:
        hs.setdefault(fid, set()).add(t)
    for fid, ts in sorted(hs.items()):
        out.append(('Infix', fid, frozenset(ts), None))
    return out


def ctxval(prog, ctx):
    """the table of handlers that is passed as an argument"""
    v = prog.static_value(ctx)
    return v if v[0] == 'ref' else ('ref', ('G', ctx), ())


def run_job(prog, job, allowed):
    kind, fid, toks, ctx = job
    f = prog.fns[fid]
    if kind == 'X':
        lv = allowed[0].get(f['targs'][-1] if f['targs'] else None)
        spec = exprspec('own')
        LEVEL['own'] = lv or frozenset()
    else:
        spec = SPECS[kind]
    dom = PA(prog, kind, None, allowed)
    label = '%s %s' % (kind, f['name'][-70:])
    un = []
    args = []
    if kind == 'Infix':
        i = f['argc']
        args = [('sym', 'left', f['locals'][i])]
    if ctx is not None:
        args = [ctxval(prog, ctx)]
    try:
        if kind == 'Infix' and f['argc'] == 3:
            eng = Engine(prog, dom)
            st = State()
            par = dom.newparser(st)
            st.dom = D(spec, None, None, None, (), (), (), frozenset(), None, 0, None)
            eng.push_call(st, fid, [('clo', f['locals'][1], ()), par] + args, None, None)
        else:
            eng, st = start(prog, dom, f, spec, args)
        if toks is not None:
            dom.setcur(st, toks)
        eng.run(st)
        un = finish(dom, eng, label)
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (label, e)]
    return {'job': job, 'label': label, 'viol': dom.violations, 'un': un, 'uses': dom.uses, 'accepted': dom.accepted, 'obl': dom.obl, 'states': dom.eng.nstates, 'fns': dom.eng.fns_seen}


def allowed_of(prog, nests):
    """operators that continue an expression, by binding power"""
    allowed, exits, handlers, viol, un = {}, {}, set(), {}, []
    for r in nests:
        call = {}
        for t, a, fid in r['handlers']:
            call.setdefault((t, a), set()).add(fid)
            handlers.add((t, fid))
        ok = {t for (t, a), v in call.items() if a != 'ImplicitSemicolon'}
        allowed[r['targ']] = frozenset(ok)
        exits[r['targ']] = frozenset(t for t, a in r['exits'])
        name = prog.types[r['targ']]['str'] if r['targ'] is not None else '?'
        after_nl = {t for (t, a), v in call.items() if a in ('ImplicitSemicolon', None)}
        if not any(a for (t, a) in call):
            after_nl = ok
        wrong = after_nl & UPDATES
        if wrong:
            k = (('S07',), 'operators after a line break: %s' % tn(wrong))
            viol[k] = {'key': k, 'msg': 'a %s on the next line is taken as a postfix operator of the expression before the line break (%s)' % (tn(wrong), name), 'where': name, 'trace': []}
        gone = ok - after_nl - UPDATES
        if gone:
            k = (('S07',), 'expression ends at a line break before %s' % tn(gone))
            viol[k] = {'key': k, 'msg': 'an expression does not go on after a line break before %s (%s)' % (tn(gone), name), 'where': name, 'trace': []}
        both = {t for (t, a) in r['exits'] if (t, a) in call}
        if both:
            un.append('%s: undecided operators %s' % (name, tn(both)))
        for (t, a), v in call.items():
            if len(v) > 1:
                un.append('%s: several functions for %s' % (name, t))
    return (allowed, exits), handlers, viol, un


def run_all(prog):
    import par as P
    probe = Models(prog)
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': [], 'accepted': set()}

    def absorb(r):
        for k, v in r['viol'].items():
            if k not in res['violations']:
                res['violations'][k] = v
        res['unanalysed'] += r['un']
        res['obligations'] += r['obl']
        res['states'] += r['states']
        res['functions'] |= r['fns']
        res['roots'] += 1
    nf = [f for f in prog.fns if 'blocks' in f and probe.cut(f) == 'Nest']
    nests = P.pmap(lambda f: run_nest(prog, f), nf)
    for r in nests:
        absorb(r)
    allowed, handlers, viol, un = allowed_of(prog, nests)
    res['violations'].update(viol)
    res['unanalysed'] += un
    res['allowed'] = {prog.types[k]['str']: v for k, v in allowed[0].items() if k is not None}
    js = jobs1(prog, probe, allowed, handlers)
    uses = set()
    for r in P.pmap(lambda j: run_job(prog, j, allowed), js):
        absorb(r)
        uses |= r['uses']
        res['labels'].append(r['label'])
        res['accepted'] |= {(r['job'][0], x) for x in r['accepted']}
    js2 = [(kind, fid, None, ctx) for fid, ctx, kind in sorted(uses, key=repr)]
    for r in P.pmap(lambda j: run_job(prog, j, allowed), js2):
        absorb(r)
        res['labels'].append(r['label'])
        res['accepted'] |= {(r['job'][0], x) for x in r['accepted']}
    js3 = [(c, f['id']) for f in prog.fns if 'blocks' in f for c in [probe.cut(f)] if c in ('Conv', 'ConvList')]
    js3 += [('parse', f['id']) for f in prog.find(r'^ratel::parse(::<.*>)?$')]
    for r in P.pmap(lambda j: run_extra(prog, j, allowed), js3):
        absorb(r)
        res['labels'].append(r['label'])
    return res


if __name__ == '__main__':
    import facts, sys
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:200], '|', ' ; '.join(v['trace'][-8:])[:200])
    for u in r['unanalysed']:
        print('UNAN', u[:250])
    print(sorted(r['accepted'])[:400] if '-a' in sys.argv else len(r['accepted']))
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), time.time() - t)
