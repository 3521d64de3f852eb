"""Which analysis decides which property, and how its reports are attributed."""
import re
import facts
from engine import Prog

_prog = {}


def prog(crate='harness'):
    if crate not in _prog:
        _prog[crate] = Prog(facts.extract(crate))
    return _prog[crate]


def anchored(p, viol, un):
    """what the analysis of the parser relies on could not be found again: nothing it says can be trusted"""
    if p.unanchored and viol:
        un = un + ['%s (not decided, because of: %s)' % (v['key'], '; '.join(p.unanchored)) for v in viol]
        viol = []
    return viol, un


def result(viol, un, cov, vacuous=None):
    if un:      # an unknown result in an unknown place is no violation
        viol = [v for v in viol if not re.search(r'\btop\b', str(v['key']))]
        # nor is a panic that an unfollowed value may have led to
        viol = [v for v in viol if not re.search(r'\bpanics$', str(v['key'])) or not any(str(v['key']).rsplit(': ', 1)[0] in u for u in un)]
    return {'violations': viol, 'unanalysed': un, 'coverage': cov, 'vacuous': vacuous}


# ------------------------------------------------------------ code generation
LEXICAL = ('no space before', 'line break before', 'space in literal', 'token split')


def lexical(what):
    return what.startswith(LEXICAL) or ' runs into ' in what


def codegen(prop, tier):
    import codegen as C
    p = prog()
    r = C.run_all(p)
    viol = {}

    def add(key, v):
        viol.setdefault(key, dict(v, key=key))
    gens = ('MinifyingGenerator', 'PrettyGenerator')
    per = {}
    for (g, k), v in r['violations'].items():
        per.setdefault(k, {})[g] = v
    if prop == 'C01':
        for k, d in per.items():
            what = k.split(': ', 1)[1]
            if not lexical(what) and not what.startswith(('indentation', 'raw append', 'not UTF-8')):
                for g, v in d.items():
                    add('%s %s' % (g, k), v)
    elif prop == 'C02':
        for k, d in per.items():
            if len(d) == 1:
                g, v = next(iter(d.items()))
                add('%s only: %s' % (g, k), v)
        for k, d in r['paren'].items():
            if len(d) == 2 and d[gens[0]] != d[gens[1]]:
                add('%s %s: %s parenthesised differently' % (k[0], k[1], k[3]), {'msg': 'minified and pretty output disagree on the parentheses of %s as %s' % (k[3], k[1]), 'where': k[0]})
        for k, gs in r['parenviol'].items():
            if len(gs) == 1:
                add('%s only: %s' % (next(iter(gs)), '%s %s as %s' % (k[0], k[3], k[1])), {'msg': 'only one of the two outputs omits the parentheses', 'where': k[0]})
        for g, n in r['noterm']:
            if (gens[1 - gens.index(g)], n) not in r['noterm']:
                add('%s only: %s not terminated' % (g, n), {'msg': 'only one of the two outputs terminates the statement', 'where': n})
    elif prop == 'C03':
        for k, d in per.items():
            what = k.split(': ', 1)[1]
            if lexical(what):
                for g, v in d.items():
                    add('%s %s' % (g, k), v)
        for g, n in r['noterm']:
            if n != 'Statement::Empty':
                add('%s %s: not terminated' % (g, n), {'msg': 'the statement is printed without the semicolon that separates it from whatever is printed next', 'where': n})
    elif prop == 'C04':
        for k, gs in r['parenviol'].items():
            for g in gs:
                add('%s %s: bare %s as %s (%s)' % (g, k[0], k[3], k[1], k[2]),
                    {'msg': 'a %s is printed without parentheses as %s, where it would be parsed differently' % (k[3], k[1]), 'where': '%s in %s' % (g, k[0])})
    elif prop == 'C06':
        for k, d in per.items():
            what = k.split(': ', 1)[1]
            if what.startswith(('raw append', 'not UTF-8', 'output not')):
                for g, v in d.items():
                    add('%s %s' % (g, k), v)
    elif prop == 'C07':
        for k, d in per.items():
            what = k.split(': ', 1)[1]
            if what.startswith('indentation'):
                for g, v in d.items():
                    add('%s %s' % (g, k), v)
    cov = {'explanation': 'Abstract interpretation of the MIR of every printer (both generators) for every node kind: the sequence of bytes, texts and child printers on every path is '
                          'compared with the grammar of the node, operands are tracked as sets of possible kinds.',
           'summary': '%d node kinds x generators, %d functions, %d output events checked, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'],
           'operand_positions': len({k[:3] for k in r['paren']}), 'operand_kinds_decided': len(r['paren']), 'samples': sorted(r['labels'])[:12]}
    return result(list(viol.values()), r['unanalysed'], cov, None if r['roots'] >= 60 and r['obligations'] > 1000 else 'too few printers')


# ------------------------------------------------------------------ traversal
def visitor(prop, tier):
    import visitor as V
    r = V.run_all(prog())
    viol = []
    for (props, key), v in r['violations'].items():
        if prop in props:
            viol.append(dict(v, key=key))
    cov = {'explanation': 'Abstract interpretation of the MIR of visit_with of every node kind, with a probe visitor: the sequence of hook calls, parents and scopes on every path is compared '
                          'with the children, scopes and name positions that the node kind is specified to have.',
           'summary': '%d node kinds, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': sorted(r['labels'])[:12]}
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 50 and r['obligations'] > 300 else 'too few node kinds')


def small(p, r):
    """the functions through which the parser looks at the tokenizer"""
    import accessors as A
    a = A.run_all(p)
    r['violations'].update(a['violations'])
    r['unanalysed'] = list(r['unanalysed']) + a['unanalysed']
    r['obligations'] += a['obligations']
    r['states'] += a['states']
    return a['roots']


# ------------------------------------------------------------------ tokenizer
def lexer(prop, tier):
    import lexer as L
    p = prog()
    r = L.run_all(p)
    small(p, r)
    import witness as W
    v, un, n = W.origin(p)
    r['violations'].update(v)
    r['unanalysed'] = list(r['unanalysed']) + un
    r['obligations'] += n
    viol = [dict(v, key=key) for (props, key), v in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR of the tokenizer from each of its entry points over sets of possible source bytes, in lock step with an automaton of the '
                          'lexical grammar; every byte read, every slice and every way to stop is an obligation.',
           'summary': '%d entry points, %d functions, %d ways to stop, %d byte reads, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['reads'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'reads': r['reads'], 'states': r['states'],
           'tokens_reported': len(r['labels']), 'samples': sorted(r['labels'])[:12]}
    viol, r['unanalysed'] = anchored(p, viol, r['unanalysed'])
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 1 else 'no entry point of the tokenizer found')


# --------------------------------------------------------------------- parser
def parser(prop, tier):
    import parser as R
    p = prog()
    r = R.run_all(p)
    small(p, r)
    viol = [dict(v, key=key) for (props, key), v in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR of every function of the parser, over sets of possible current tokens, in lock step with the grammar of the construct it parses; '
                          'on every accepting path the consumed tokens, the built node, its parts and their positions are compared with the grammar, and every rejection must be one that the grammar allows.',
           'summary': '%d parsing functions and handlers, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': sorted(r['labels'])[:12]}
    viol, r['unanalysed'] = anchored(p, viol, r['unanalysed'])
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 60 and r['obligations'] > 3000 else 'too few parsing functions')


# ---------------------------------------------------------------- termination
def progress(prop, tier):
    import progress as G
    p = prog()
    r = G.run_all(p)
    small(p, r)
    viol = [dict(v, key=key) for (props, key), v in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR of every recursive function of the parser, on correct and erroneous input: every cycle of the state graph has to read a token or to take an '
                          'element from a list, and every cycle of calls has to read a token first. Which functions may return without reading anything is computed as a fixpoint.',
           'summary': '%d recursive functions, %d functions, %d obligations, %d abstract states, %d rounds' % (r['roots'], len(r['functions']), r['obligations'], r['states'], r['rounds']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'may_read_nothing': r['lazy'], 'samples': sorted(set(r['labels']))[:12]}
    viol, r['unanalysed'] = anchored(p, viol, r['unanalysed'])
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 20 and r['obligations'] > 3000 else 'too few functions')


# ------------------------------------------------------ scopes and transform
def transform(prop, tier):
    import transform as T
    import visitor as V
    p = prog()
    kind = {'T01': 'scope', 'T02': 'transform'}[prop]
    r = T.run_all(p, kind)
    v = V.run_all(p)
    viol = [dict(x, key=key) for (props, key), x in sorted(r['violations'].items()) if prop in props]
    for (props, key), x in sorted(v['violations'].items()):
        what = key.split(': ', 1)[1]
        reach = re.search(r'visit of|rest of|statement list', what) and not re.search(r'^hook on', what)
        if 'parent' in what:
            continue
        if prop == 'T01' and ('V03' in props or 'scope' in what or reach) or prop == 'T02' and (reach or 'hook on_arrow_expression' in what):
            viol.append(dict(x, key='traversal of ' + key))
    cov = {'explanation': 'Abstract interpretation of the MIR of every hook of the %s on a symbolic world (its effects are compared with the specified ones), together with the traversal that calls the hooks.'
                          % ('scope analyzer' if kind == 'scope' else 'ES2015 transform'),
           'summary': '%d hooks and entry points, %d node kinds traversed, %d functions, %d obligations, %d abstract states'
                      % (r['roots'], v['roots'], len(r['functions'] | v['functions']), r['obligations'] + v['obligations'], r['states'] + v['states']),
           'roots': r['roots'] + v['roots'], 'functions': len(r['functions'] | v['functions']), 'obligations': r['obligations'] + v['obligations'], 'states': r['states'] + v['states'],
           'samples': sorted(r['labels'])[:12]}
    need = {'scope': {'on_enter_scope', 'on_leave_scope', 'on_reference_use', 'on_reference_declaration', 'on_this_expression', 'new', 'analyze'},
            'transform': {'on_arrow_expression', 'transform', 'traversal'}}[kind]
    lack = sorted(need - r['hooks'])
    return result(viol, r['unanalysed'] + v['unanalysed'], cov, 'not found: ' + ', '.join(lack) if lack else None)


# -------------------------------------------------------------------- ESTree
def astgen(prop, tier):
    import astgen as A
    r = A.run_all(prog())
    viol = [dict(x, key=key) for (props, key), x in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR of the serializer of every node kind with a recording serializer: the object that is written on every path is compared, field by field, '
                          'with the format; every reachable panic, slice and conversion of the serializers is an obligation.',
           'summary': '%d node kinds, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': sorted(r['labels'])[:12]}
    lack = [x for x in ('Expression::Number literal', 'Expression::Binary literal') if x not in r['labels']]
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 80 and r['obligations'] > 2500 and not lack else 'too few serializers')


# --------------------------------------------------------- WebAssembly entry
def wasm(prop, tier):
    import wasm as W
    r = W.run_all(prog('wasmshim'))
    viol = [dict(x, key=key) for (props, key), x in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR of every entry point on a symbolic source text and option: what every path returns is a term over the calls it makes '
                          '(parse, generate, serialize, format) and has to be the term specified for that entry point; the exported names are followed through the call graph.',
           'summary': '%d entry points and exports, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': r['labels']}
    lack = [x for x in ('transform', 'generate_ast', 'generate_ast_estree') if x not in r['labels']]
    return result(viol, r['unanalysed'], cov, 'not found: ' + ', '.join(lack) if lack else None)


# --------------------------------------------------------------- Node module
def native(prop, tier):
    import native as N
    r = N.run_all(prog('neonshim'))
    viol = [dict(x, key=key) for (props, key), x in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR of every function of the Node module, for none to three arguments of right or wrong type: what every path returns or throws is a term over the calls '
                          'it makes (arguments, parse, generate, serialize, format) and has to be the one specified; the registration of the module is run for the exported names.',
           'summary': '%d entry points, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': r['labels']}
    lack = [x for x in ('transform', 'parse', 'ast', 'exports') if x not in r['labels']]
    return result(viol, r['unanalysed'], cov, 'not found: ' + ', '.join(lack) if lack else None)


# ------------------------------------------------------------------ operators
def operators(prop, tier):
    import operators as O
    r = O.run_all(prog())
    viol = [dict(v, key=key) for key, v in sorted(r['violations'].items())]
    cov = {'explanation': 'Abstract interpretation of the MIR of every public function of OperatorKind for every operator, and of from_token for every token: every answer has to be the one that the language '
                          'gives for that operator; binding powers are compared pairwise.',
           'summary': '%d functions of operators, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': r['labels']}
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 4 and r['obligations'] > 200 else 'the functions of OperatorKind were not found')


# ----------------------------------------------------------- errors and scopes
def values(prop, tier):
    import values as V
    r = V.run_all(prog())
    viol = [dict(v, key=key) for key, v in sorted(r['violations'].items())]
    cov = {'explanation': 'Abstract interpretation of the MIR of == and of the debug output of errors and scopes, on symbolic values with a recording formatter: errors are equal exactly when all their parts are, '
                          'scopes when they are at the same address; the output shows every part once (of a scope, not its parent).',
           'summary': '%d implementations, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': r['labels']}
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 2 and r['obligations'] > 8 else 'the implementations were not found')


# ------------------------------------------------------------- error messages
def message(prop, tier):
    import message as M
    r = M.run_all(prog())
    viol = [dict(v, key=key) for (props, key), v in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Abstract interpretation of the MIR that prints a parse error, on a symbolic source and symbolic offsets: the printed pieces of every path (texts as slices of the source, numbers as '
                          'linear terms over line breaks and characters before the error) have to show its line and column, the text of that line, and a marker as long as the offending text below it.',
           'summary': '%d methods, %d functions, %d obligations, %d abstract states' % (r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': r['labels']}
    return result(viol, r['unanalysed'], cov, None if r['roots'] >= 2 and r['obligations'] > 20 else 'the methods that print an error were not found')


# ------------------------------------------------- what the compiler must reject
def witness(prop, tier):
    import witness as W
    r = W.run_all()
    v, un, n = W.origin(prog())
    r['violations'].update(v)
    r['unanalysed'] += un
    r['programs'] += n
    viol = [dict(v, key=key) for (props, key), v in sorted(r['violations'].items()) if prop in props]
    cov = {'explanation': 'Every rule is a pair of programs for the public interface of the current tree, which differ only in that one breaks the rule: the type checker has to accept the one and '
                          'to reject the other, for reasons of borrowing (or for a missing auto trait). Programs that have to be possible have to be accepted. No program is run.',
           'summary': '%d rules, %d programs type checked, %d rejected as demanded' % (r['rules'], r['programs'], r['rejected']),
           'roots': r['rules'], 'obligations': r['programs'], 'rejected': r['rejected'], 'rule': 'lib/witness.py', 'samples': r['labels'][:12]}
    return {'violations': viol, 'unanalysed': r['unanalysed'], 'coverage': cov, 'vacuous': None if r['rejected'] or viol or r['unanalysed'] else 'no program was rejected'}


# ------------------------------------------------------- equality and listing
def structure(prop, tier):
    import structure as Q
    if prop == 'Q02':
        r = Q.run_show(prog())
        viol = [dict(v, key=key) for key, v in sorted(r['violations'].items())]
        cov = {'explanation': 'Abstract interpretation of the MIR that lists a node (Debug) for every variant of every type a tree is made of: the name of the kind and every part, under its own label and once, '
                              'have to be among what every path prints; the listing of a module has to print each statement before it goes on to the next.',
               'summary': '%d types, %d variants, %d functions, %d obligations, %d abstract states' % (r['types'], r['roots'], len(r['functions']), r['obligations'], r['states']),
               'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': sorted(r['labels'])[:12]}
        return result(viol, r['unanalysed'], cov, None if r['types'] >= 80 and r['obligations'] > 350 else 'too few listings were found')
    r = Q.run_all(prog())
    viol = [dict(v, key=key) for key, v in sorted(r['violations'].items())]
    cov = {'explanation': 'Abstract interpretation of the MIR of `==` of every type a tree is made of, on two symbolic values, for every pair of variants: an answer `true` has to follow from comparisons of '
                          'every part with its counterpart, an answer `false` from one that found a difference.',
           'summary': '%d types, %d pairs of variants, %d functions, %d obligations, %d abstract states' % (r['types'], r['roots'], len(r['functions']), r['obligations'], r['states']),
           'roots': r['roots'], 'functions': len(r['functions']), 'obligations': r['obligations'], 'states': r['states'], 'samples': sorted(r['labels'])[:12]}
    return result(viol, r['unanalysed'], cov, None if r['types'] >= 30 and r['obligations'] > 1000 else 'too few comparisons were found')


GROUPS = {'O01': operators, 'Q03': values, 'Q01': structure, 'Q02': structure, 'M01': witness, 'R03': message, 'W01': wasm, 'N01': native, 'A01': astgen, 'A02': astgen, 'R02': astgen, 'S01': progress, 'T01': transform, 'T02': transform}
for _p in ('C01', 'C02', 'C03', 'C04', 'C06', 'C07'):
    GROUPS[_p] = codegen

for _p in ('V01', 'V02', 'V03'):
    GROUPS[_p] = visitor

for _p in ('L01', 'L02', 'L03', 'L04', 'L05'):
    GROUPS[_p] = lexer

for _p in ('S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'E01'):
    GROUPS[_p] = parser


def run(prop, tier):
    return GROUPS[prop](prop, tier)
