"""Names that the analyses rely on, found again where they have changed.

A few private functions of the parser stand for nonterminals of the grammar, and the fields of the tokenizer and of
the parser are told apart by name.  Neither is behaviour: a function that was renamed or moved is found again by
what it takes and returns, a field by its type and place.  What cannot be found again makes the parser's analysis
inconclusive instead of wrong.
"""
import re

# functions and fields of the tree that the analyses were written for
KNOWN = set('''ARR BIN BLCK BRK CLAS CONS CONT DBGGR DO EMPT FALS FOR FUNC IDEN IF IMPT LABL LET NEW NULL NUM OBJ OP PRN REG RET SPRD STR SWCH THIS
THRW TPLE TPLS TRUE TRY UNDE VAR VOID WHL ____ alloc alloc_at_loc alloc_in_loc array_elements array_expression arrow_function_expression asi block
block_statement bound_expression break_statement call_arguments call_expression class_expression class_statement context_bound_expression
continue_statement do_statement error expect_semicolon expression expression_in_context expression_statement for_in_statement
for_in_statement_from_parts for_init for_of_statement for_statement function_expression function_statement handler identifier if_statement
import_declaration in_loc labeled_or_expression_statement loc meta_property_expression nested_expression new object_expression params
params_from_expressions paren_expression parse pattern_array pattern_array_element pattern_assign pattern_from_expression pattern_identifier
pattern_object pattern_param pattern_void prefix_expression property property_list raw_block regular_expression rest_element return_statement
statement switch_statement tagged_template_expression template_expression template_literal template_string throw_statement to_error try_statement
unchecked_block variable_declaration_statement variable_declarator variable_declarators void_expression while_statement wrap_expression'''.split())

FIELDS = {
    'ratel::parser::Parser': ['arena', 'lexer', 'errors', 'body'],
    'ratel::lexer::Lexer': ['token', 'asi', 'ptr', 'index', 'token_start', 'accessor_start', 'quasi'],
}

EXPR, PAT = r"^ratel::ast::Node<'_, ratel::ast::Expression<'_>>$", r"^ratel::ast::Node<'_, ratel::ast::Pattern<'_>>$"
# class: (name, number of generic types, types of the arguments behind the parser, type of the result)
ANCHORS = [
    ('S', 'statement', 0, [], r"^ratel::ast::Node<'_, ratel::ast::Statement<'_>>$"),
    ('X', 'expression', 1, [], EXPR),
    ('Ctx', 'expression_in_context', 1, [r'^&\[.*fn\('], EXPR),
    ('Nest', 'nested_expression', 1, [EXPR], EXPR),
    ('Prop', 'property', 0, [], r"^ratel::ast::Node<'_, ratel::ast::Property<'_>>$"),
    ('Block', 'block', 1, [], r"^ratel::ast::Node<'_, ratel::ast::Block<'_, .*>>$"),
    ('Params', 'params', 0, [], r"^toolshed::list::List<'_, ratel::ast::Node<'_, ratel::ast::Pattern<'_>>>$"),
    ('PatElem', 'pattern_array_element', 0, [], PAT),
    ('Param', 'pattern_param', 0, [], PAT),
    ('Decl', 'variable_declarator', 0, [], r"^ratel::ast::Node<'_, ratel::ast::Declarator<'_>>$"),
    ('ConvList', 'params_from_expressions', 0, [r"^toolshed::list::List<'_, ratel::ast::Node<'_, ratel::ast::Expression<'_>>>$"],
     r"^toolshed::list::List<'_, ratel::ast::Node<'_, ratel::ast::Pattern<'_>>>$"),
    ('Conv', 'pattern_from_expression', 0, [EXPR], PAT),
]
TRAITS = [
    ('Pat', r"^ratel::parser::.*Parse<'_> for ratel::ast::Pattern<'_>>::parse$"),
    ('Member', r"^ratel::parser::.*Parse<'_> for ratel::ast::ClassMember<'_>>::parse$"),
    ('Case', r"^ratel::parser::.*Parse<'_> for ratel::ast::statement::SwitchCase<'_>>::parse$"),
]


def last(d):
    """the name of a function without its path and types"""
    while d.endswith('>'):
        depth = 0
        for i in range(len(d) - 1, -1, -1):
            depth += (d[i] == '>' and d[i - 1:i] != '-') - (d[i] == '<')
            if not depth:
                break
        d = d[:i]
        if d.endswith('::'):
            d = d[:-2]
    return d.rsplit('::', 1)[-1]


def anchors(prog):
    """({name of a function: nonterminal}, [what was not found])"""
    out, lost = {}, []
    fns = {}
    for f in prog.fns:
        if 'blocks' in f and f.get('crate') == 'ratel' and f.get('kind') == 'item' and 'ratel::parser' in f['name'] and f['argc'] >= 1:
            ts = [prog.types[t]['str'] for t in f['locals'][:f['argc'] + 1]]
            if len(ts) > 1 and re.match(r"^&mut ratel::parser::Parser<", ts[1]):
                fns.setdefault(last(f['def']), []).append((f, ts))
    for c, rx in TRAITS:
        for f in prog.find(rx, False):
            out[f['name']] = c
    missing = []
    for c, name, ng, args, res in ANCHORS:
        def fits(f, ts):
            return len(f['targs']) == ng and len(ts) == 2 + len(args) and re.search(res, ts[0]) and all(re.search(r, t) for r, t in zip(args, ts[2:]))
        hit = [f for f, ts in fns.get(name, ()) if not str(f.get('assoc', '')).startswith('TraitImpl')]
        if hit:
            for f in hit:
                out[f['name']] = c
            continue
        cands = sorted(n for n, l in fns.items() if n not in KNOWN and any(fits(f, ts) for f, ts in l))
        if len(cands) == 1:
            for f, ts in fns[cands[0]]:
                out[f['name']] = c
        elif cands:
            missing.append('%s (one of %s)' % (name, ', '.join(cands)))
    return out, missing


def fields(prog):
    """gives the fields of the tokenizer and the parser the names that the analyses know them by"""
    lost = []
    for t in prog.types:
        want = FIELDS.get(t.get('name')) if t['k'] == 'adt' else None
        if not want:
            continue
        have = t['variants'][0]['fields']
        names = [n for n, _ in have]
        gone = [n for n in want if n not in names]
        new = [i for i, n in enumerate(names) if n not in want]
        if not gone:
            continue
        if len(gone) == len(new) and len(names) == len(want):
            for n, i in zip(gone, new):
                have[i] = [n, have[i][1]]
        else:
            lost.append('fields %s of %s' % (', '.join(gone), t['name']))
    return lost
