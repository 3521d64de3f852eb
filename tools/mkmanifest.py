#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-sensitive abstract interpretation of the compiler\'s MIR'
TRUST = (' Trusts rustc\'s MIR, the models of core/toolshed container functions in lib/models.py and the specification tables; '
         'paths that the engine cannot follow are listed in the evidence and not decided.')
CHECKS = {
    'C01': (AI + ' of every printer, compared with the grammar of its node', 'Every path through every printer of every node kind, in both modes, with unknown subtrees and list lengths.' + TRUST),
    'C02': (AI + ' of both printers of each node, reports that differ between the modes', 'Both modes are compared with one specification per node kind, so that a deviation of one mode is a disagreement.' + TRUST),
    'C03': (AI + ' tracking the class of the last byte written', 'Adjacent output events on every path: words, signs, slashes, numbers and statement terminators.' + TRUST),
    'C04': (AI + ' with operands as sets of node kinds, compared with a precedence table', 'Each pair of operand position and operand kind that can be printed bare is compared with the grammar, including leftmost-spine conditions by induction.' + TRUST),
    'C06': (AI + ', type of every piece appended to the output buffer', 'Every append to the output buffer on every path of every printer.' + TRUST),
    'C07': (AI + ' with a relational indentation counter', 'The indentation on every exit of every printer equals that on entry.' + TRUST),
    'L01': (AI + ' of the tokenizer over sets of source bytes with symbolic positions', 'Every read and every slice on every path is shown not to lie behind a byte that may be the terminator, for every source text.' + TRUST),
    'L02': (AI + ' of the tokenizer, cycle detection on its state graph', 'No reachable cycle without an advance of the read position, no reachable panic, and every token but the end of the program consumes something.' + TRUST),
    'L03': (AI + ' of the tokenizer in product with an automaton of punctuators and words', 'Every way to report a token, for every sequence of bytes: kind and extent agree with the automaton, including the byte that follows.' + TRUST),
    'L04': (AI + ' of the tokenizer in product with an automaton of literals', 'Every way to report a literal, for every sequence of bytes; text slices are compared by position.' + TRUST),
    'L05': (AI + ' of the tokenizer in product with an automaton of white space and comments', 'Every sequence of white space, line breaks and comments before each token; the recorded flag is compared with the automaton.' + TRUST),
    'S01': (AI + ' of the parser with a progress measure; cycle detection on the state graph and on the graph of calls', 'Every cycle of every parsing function and of their calls, on correct and erroneous input, for every token; exhaustion of the stack is not covered.' + TRUST),
    'E01': (AI + ' of the construction and collection of errors', 'Every path of the function that makes an error from the current token, with symbolic positions, every place that records an error, and every path of the function that returns them.' + TRUST),
    'S02': (AI + ' of the parser in lock step with the grammar', 'Every accepting path through every parsing function consumes the tokens the grammar requires, for every token that may be found in their place; nested constructs by induction.' + TRUST),
    'S03': (AI + ' of the parser in lock step with the grammar, nodes compared with templates', 'Every path through the parsing function of every statement form: kind of node and the part of the grammar stored in each field.' + TRUST),
    'S04': (AI + ' of the parser for every operator token, with binding powers computed from the code', 'Every operator token, the operators that may follow its operands, and the fields its operands are stored in.' + TRUST),
    'S05': (AI + ' of the parser in lock step with the grammar, nodes compared with templates', 'Every path through the parsing functions of functions, classes, objects, arrays, templates, literals and patterns, with lists of any length.' + TRUST),
    'S06': (AI + ' of the parser with symbolic token positions', 'The recorded start and end of every node built on every path are compared with the positions of its first and last token.' + TRUST),
    'S07': (AI + ' of the parser with the line break flag as part of the state', 'Every statement form that needs a terminator, for every token that may follow with and without a line break.' + TRUST),
    'V01': (AI + ' of the traversal of every node kind, compared with its children', 'Every path through the traversal of every node kind, with unknown subtrees and list lengths.' + TRUST),
    'V02': (AI + ' of the traversal of every node kind with a stack of parents and scopes', 'Every path through the traversal of every node kind; parents and scopes are a pushdown typestate.' + TRUST),
    'V03': (AI + ' of the traversal of every node kind, compared with the name positions of the language', 'Every path through the traversal of every node kind; each reported name must come from a position of that sort.' + TRUST),
    'T01': (AI + ' of every hook of the scope analyzer on a symbolic scope tree, and of the traversal that calls them', 'Every path through every hook, from any scope with any parent; effects on the scope tree are compared with the specified ones, so that any history of hooks is covered by induction.' + TRUST),
    'T02': (AI + ' of every hook of the transform on a symbolic arrow function, and of the traversal after the replacement', 'Every path through the hook (both kinds of body), the replacement, and the way on from it; all other hooks must leave the tree alone.' + TRUST),
    'A01': (AI + ' of the serializer of every node kind with a recording serializer, compared with the format', 'Every path through the serializer of every node kind: type, positions, names and contents of the fields and their number; nested nodes by induction.' + TRUST),
    'A02': (AI + ' of the serializer of every node kind, reachability of panics', 'Every path through the serializer of every node kind that a successful parse can produce; slices and conversions of literal texts are decided from the forms that the tokenizer accepts.' + TRUST),
    'R02': (AI + ' of the serializer of number literals with terms for conversions', 'Every path: which digits are converted in which radix, for every combination of prefix, length and failed conversions. Conversions of core are trusted; rounding of integers above 64 bits is not covered.' + TRUST),
    'W01': (AI + ' of the entry points, results compared as terms over the library calls; call graph from the exported names', 'Every path through every entry point, for any source text and both options. The glue generated by wasm_bindgen, serde_json and the formatting of the standard library are trusted.' + TRUST),
    'N01': (AI + ' of the functions of the Node module against a declaration of the binding, results and exceptions compared as terms', 'Every path through every function, for any source text, both options, and none to three arguments of right or wrong type. The binding (neon) is not installed: its interface is declared in neonshim and its calls are trusted to do what they are specified to do; so are serde_json and the formatting of the standard library.' + TRUST),
    'M01': ('compile-fail witnesses for the public interface (pairs of programs that differ in one rule, decided by the type checker) and an origin analysis of the text that tokenizers are made for', 'Every rule is a way to keep, shorten or share something reached from a module; the lifetimes in the signatures decide it for all programs of that form. Other ways to break the rules through unsafe code inside the crates are only covered for the text of the tokenizer. Trusts the borrow checker and the unsafe code of toolshed.'),
    'Q01': (AI + ' of every comparison on two symbolic values, for every pair of variants', 'Every path through the comparison of every node kind: an answer has to follow from the comparisons of the parts with their counterparts; nested nodes by induction. Comparison of texts and of toolshed lists is trusted.' + TRUST),
    'Q02': (AI + ' of the listing of every variant of every node kind with a recording formatter', 'Every path through the listing of every node kind: names, labels and parts that are printed; nested nodes by induction. The formatter of core and the listing of toolshed lists are trusted.' + TRUST),
    'Q03': (AI + ' of == and of the debug output of errors and scopes, on symbolic values with a recording formatter', 'Every path through the four implementations. Words and punctuation between the printed parts are free. The formatter of core and the debug output of texts, tokens and toolshed collections are trusted.' + TRUST),
    'O01': (AI + ' of every function of the operator table for every operator and every token', 'Every path for each of the 48 operators and every token; all pairs of binding powers of neighbouring levels. The numbers themselves, and the level of the arrow, are free.' + TRUST),
    'R03': (AI + ' of the methods that print an error, with texts as slices of the source and numbers as linear terms', 'Every path through Display and Debug of ParseError, for every number of lines before the error (split by its number of digits) and every line of the loop over the source. Formatting and text functions of core are trusted as specified; columns count characters.' + TRUST),
}
NA = {
    'R01': 'Round-trip equality over all programs composes the behaviour of tokenizer, parser and generator over unbounded trees; C01, C03, C04 and S02 to S07 decide the parts that are visible in the shape of the code.',
    'R04': 'Recursive descent recurses as deep as the source nests and there is no depth limit in the design; whether the stack is exhausted depends on its size at run time.',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'python3 lib/facts.py', 'checks': [], 'not_applicable': []}
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check for it has been built yet.')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
