#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because one property per paragraph is easier to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                                 'observe_at': observe or [], 'hook_needed': None}})


LEX = ['ratel/src/lexer/mod.rs', 'ratel/src/lexer/labels.rs', 'ratel/src/lexer/util.rs', 'ratel/src/lexer/token.rs']
PAR = ['ratel/src/parser/mod.rs', 'ratel/src/parser/statement.rs', 'ratel/src/parser/expression.rs', 'ratel/src/parser/nested.rs', 'ratel/src/parser/function.rs']
CG = ['ratel-codegen/src/lib.rs', 'ratel-codegen/src/expression.rs', 'ratel-codegen/src/statement.rs', 'ratel-codegen/src/function.rs']
VIS = ['ratel-visitor/src/lib.rs', 'ratel-visitor/src/expression.rs', 'ratel-visitor/src/statement.rs', 'ratel-visitor/src/function.rs']
AG = ['ratel/src/astgen/mod.rs', 'ratel/src/astgen/expression.rs', 'ratel/src/astgen/statement.rs', 'ratel/src/astgen/function.rs']

# ---------------------------------------------------------------- lexer
p('L01', 'The tokenizer never reads beyond the end of its input',
  'Whatever the source text is, tokenizing it never examines memory beyond the terminator that follows the last byte of the source. Truncated literals, comments, escapes and member accesses at the end of the input end in an error or an end-of-program token instead of a read past the end.',
  ['inputs'], 'every source text, in particular every truncation of every token form',
  'Tests tokenize a few dozen well-formed snippets; reading past the end is silent in most of them, and which input truncations trigger it is an unbounded set.',
  LEX, [('byte reads', 'ratel/src/lexer/mod.rs read_byte/next_byte/bump'), ('byte handlers', 'ratel/src/lexer/mod.rs BYTE_HANDLERS'), ('NUL terminator', 'ratel/src/lexer/mod.rs Lexer::new')])
p('L02', 'Tokenizing always makes progress and stops at the end of the input',
  'Every request for the next token either consumes at least one byte of the source or reports the end of the program, so tokenizing any text terminates. Once the end of the program has been reported it is reported for every later request.',
  ['inputs'], 'every source text and every number of token requests',
  'A byte for which no handler advances makes the tokenizer loop; the tests use a small part of the 256 byte values and of their contexts.',
  LEX, [('consume', 'ratel/src/lexer/mod.rs consume'), ('EOF handler', 'ratel/src/lexer/mod.rs EOF'), ('invalid token', 'ratel/src/lexer/mod.rs invalid_token')])
p('L03', 'Punctuators, keywords and identifiers are tokenized by longest match',
  'Each punctuator and operator of the language is recognised as the longest one that matches at its position, and consumes exactly its own characters. A word is a keyword exactly when the whole word spells that keyword, and otherwise is an identifier that extends over all identifier characters.',
  ['inputs'], 'every byte sequence at the position of a punctuator or word',
  'The tests contain most operators once, in one context; longest match is about every possible following byte, and keyword matching about every word sharing a prefix.',
  LEX, [('punctuator handlers', 'ratel/src/lexer/mod.rs'), ('keyword handlers', 'ratel/src/lexer/labels.rs'), ('identifier bytes', 'ratel/src/lexer/util.rs')])
p('L04', 'Literals extend exactly to their closing delimiter or last digit',
  'String, template, number and regular expression literals extend from their first byte to their closing delimiter or to the last character that belongs to them, honouring escapes, classes, flags, exponents and radix prefixes. A literal that is not closed is reported as an error.',
  ['inputs'], 'every literal body, with every escape and every byte that can follow it',
  'The extent of a literal is decided by a loop over arbitrary content; tests sample a few bodies without nested escapes, truncated exponents or unclosed forms.',
  LEX, [('strings', 'ratel/src/lexer/mod.rs STR/TPL'), ('numbers', 'ratel/src/lexer/mod.rs ZER/DIG/PRD, read_float, read_scientific'), ('regular expressions', 'ratel/src/lexer/mod.rs read_regular_expression')])
p('L05', 'Line breaks and comments between tokens are skipped and recorded for ASI',
  'White space and comments between tokens never become part of a token, and a line break between two tokens (or a closing brace or the end of the input as the next token) is recorded for automatic semicolon insertion, also when comments stand before, after or around the line break.',
  ['inputs'], 'every sequence of white space, line breaks and comments before a token',
  'Tests cover one line break without comments; the flag depends on every interleaving of blanks, breaks and both comment forms.',
  LEX, [('asi flag', 'ratel/src/lexer/mod.rs consume/asi'), ('comments', 'ratel/src/lexer/mod.rs DIV'), ('whitespace table', 'ratel/src/lexer/mod.rs BYTE_HANDLERS')])
# ---------------------------------------------------------------- parser
p('S01', 'Parsing terminates on every input',
  'For every source text the parser returns after finitely many steps, with a module or a list of errors; in particular it does not loop when the input ends inside an unfinished construct.',
  ['inputs'], 'every source text, including every truncation of a program',
  'The tests parse complete programs and a handful of erroneous ones; a loop that makes no progress shows only for particular truncations.',
  PAR, [('list loops', 'ratel/src/parser'), ('error recovery', 'ratel/src/parser/mod.rs error')])
p('E01', 'A parse error carries the offending token with its exact text and position',
  'Each error in the list that parsing returns describes a token at which parsing could not go on: its kind, the byte offsets at which it starts and ends, and exactly the source text between those offsets. The token is skipped afterwards unless it is the end of the program, which is never skipped; parsing fails if and only if at least one error was recorded, and returns all errors that were recorded.',
  ['inputs'], 'every source text that is rejected, and every token at which it is',
  'Tests look at whether a handful of texts is rejected; neither the contents of the errors nor tokens of all kinds and positions are examined.',
  ['ratel/src/error.rs'] + PAR[:1] + LEX[:1], [('error of a token', 'ratel/src/lexer/mod.rs invalid_token'), ('error list', 'ratel/src/parser/mod.rs error'), ('result', 'ratel/src/parser/mod.rs parse')])
p('S02', 'A missing or wrong token is always reported as an error',
  'When a construct lacks a token that its grammar requires (a closing parenthesis, bracket or brace, a colon, a keyword, an operand, an operator or name) the parser reports an error rather than accepting the text as if the token had been there, and an assignment, postfix operator, declaration or parameter whose target cannot be assigned to or bound is reported as well. Conversely it does not report an error for text that the grammar it implements allows. A program is accepted only if no error was reported.',
  ['inputs'], 'every construct, every required token, every token found in its place',
  'Tests check a few accepted programs; the rejected ones are an unbounded set and hardly any is tested.',
  PAR, [('expect', 'ratel/src/parser/mod.rs expect!'), ('error list', 'ratel/src/parser/mod.rs error'), ('module result', 'ratel/src/parser/mod.rs parse')])
p('S03', 'Each statement form is parsed into its own node with its parts in their places',
  'Each statement form of the language is parsed into the tree node of that form, and each part of the statement (test, body, alternative, initialiser, handler, label and so on) ends up in the field that stands for it. Optional parts are present exactly when they are written.',
  ['programs'], 'every statement form with every combination of optional parts and every first token of each part',
  'The tests parse each form once or twice with fixed parts; which part is stored where for other combinations is not observed.',
  PAR, [('statement handlers', 'ratel/src/parser/statement.rs STMT_HANDLERS')])
p('S04', 'Operators are parsed with their precedence, associativity and spelling',
  'Binary, unary, conditional and assignment operators are grouped as the precedence and associativity rules of the language say, for every pair of operators, and every operator token is stored as the operator it spells with its operands on the sides where they are written.',
  ['programs'], 'every ordered pair of operators and every nesting of operator expressions',
  'There are about 50 operators and thousands of pairs of neighbours; the tests contain a handful.',
  PAR + ['ratel/src/ast/operator.rs'], [('binding power', 'ratel/src/parser/expression.rs BindingPower'), ('nested handlers', 'ratel/src/parser/nested.rs'), ('prefix handlers', 'ratel/src/parser/expression.rs')])
p('S05', 'Functions, classes, objects, literals and patterns keep their parts',
  'Parameters, defaults, bodies, generator and static markers, accessor kinds, computed keys, spreads and nested patterns are all kept when functions, classes, object literals, array literals and patterns are parsed, in source order; so are the pieces of templates, the arguments of calls, the names of member accesses and the values of literals.',
  ['programs'], 'every combination of markers, keys, defaults and element kinds',
  'The combinations multiply; the tests exercise each marker once at most.',
  PAR, [('functions and classes', 'ratel/src/parser/function.rs'), ('objects and patterns', 'ratel/src/parser/expression.rs')])
p('S06', 'The span of a node covers exactly the source text of that node',
  'The start and end recorded for a node are the offset of the first byte of its first token and the offset just after its last token, so a parent always encloses its children and siblings do not overlap. Parentheses around an operand do not belong to it; the semicolon that terminates a statement may or may not be counted as part of it.',
  ['inputs'], 'every node of every tree, with any white space and comments around its tokens',
  'The tests compare spans for a few one-line programs; spans go wrong only with particular spacing or optional parts.',
  PAR, [('span bookkeeping', 'ratel/src/parser/mod.rs alloc_at_loc, lexer.loc/end')])
p('S07', 'A statement ends at a semicolon, line break, brace or the end, and nowhere else',
  'A statement that must be terminated is accepted only if a semicolon, a line break, a closing brace or the end of the input follows, and an explicit semicolon is consumed with it. No line break is required or inserted anywhere else, except after return, break and continue and before a postfix operator, where the language says so.',
  ['inputs'], 'every statement form followed by every token, with and without a line break in between',
  'There are thousands of pairs of a statement form and a following token; a few pairs are tested.',
  PAR, [('expect_semicolon', 'ratel/src/parser/mod.rs expect_semicolon'), ('asi', 'ratel/src/lexer/mod.rs asi')])
# ---------------------------------------------------------------- code generation
p('C01', 'Generated code contains every part of the tree, in order, spelled correctly',
  'For every node of the tree, each part that is present is printed exactly once, in source order, between the keywords, operators and delimiters of its syntax; parts that are absent leave nothing behind. This holds for every kind of node and every combination of its optional parts and flags.',
  ['programs'], 'every kind of node, every combination of optional parts, flags, operators and list lengths',
  'The tests print one or two examples of each node; combinations of optional parts (generator methods, try with finally, empty bodies) are what they miss.',
  CG, [('printers', 'ratel-codegen/src/{expression,statement,function}.rs'), ('operator spelling', 'ratel/src/ast/operator.rs as_str')])
p('C02', 'Minified and pretty-printed output are the same program',
  'For every tree the minified and the pretty-printed text consist of the same sequence of tokens and differ only in white space and in the braces and semicolons that do not change the meaning. Neither output drops, adds or reorders anything that the other does not.',
  ['programs', 'configurations'], 'every kind of node with every combination of parts, in both output modes',
  'The tests use one mode for most nodes; agreement of two modes has to hold for every tree.',
  CG, [('generator trait', 'ratel-codegen/src/lib.rs Generator'), ('mode-specific writers', 'ratel-codegen/src/lib.rs MinifyingGenerator/PrettyGenerator')])
p('C03', 'Neighbouring tokens never run together in the generated code',
  'Wherever two tokens that would be read as one (words, numbers, signs, slashes) are printed next to each other they are separated, and consecutive statements are separated by a semicolon, brace or line break that keeps them apart. No separator is printed where a line break would end the statement early.',
  ['programs'], 'every pair of tokens that can become neighbours in any tree, in both output modes',
  'Which tokens meet depends on the last token of one subtree and the first of another; the tests see only a few pairs.',
  CG, [('spacing', 'ratel-codegen/src/lib.rs write_*'), ('statement termination', 'ratel-codegen/src/statement.rs')])
p('C04', 'Parentheses are printed wherever an operand would otherwise be regrouped',
  'Wherever the kind of an operand would make the text parse differently in the position in which it is printed, parentheses are printed around it: operands that bind more weakly than their operator, objects, functions and classes at the start of a statement or arrow body, sequences in lists, and so on.',
  ['programs'], 'every kind of operand in every operand position of every node, at any depth of the leftmost or rightmost spine',
  'There are more than a thousand pairs of a position and an operand kind, and some conditions hold only deep inside the leftmost operand; tests sample few.',
  CG + ['ratel/src/ast/operator.rs', 'ratel/src/ast/expression.rs'], [('binding power', 'ratel-codegen/src/lib.rs write_expression'), ('bare statements', 'ratel/src/ast/expression.rs is_allowed_as_bare_statement')])
p('C06', 'Generated code is always valid UTF-8',
  'The generated text is assembled only from complete pieces of valid UTF-8, so converting it to a string is sound for every tree, in every output mode.',
  ['programs'], 'every tree and output mode, with any text in identifiers, strings, comments and templates',
  'Validity is assumed without a check by the code; the tests use mostly ASCII programs.',
  CG, [('output buffer', 'ratel-codegen/src/lib.rs code, consume, write_bytes')])
p('C07', 'Indentation is restored after every nested construct',
  'In pretty-printed output every construct leaves the indentation level as it found it, so lines are indented by the depth of their nesting alone and never drift.',
  ['programs'], 'every kind of node and nesting',
  'Tests print shallow programs; drift shows after constructs that the tests do not follow with another line.',
  CG, [('indentation', 'ratel-codegen/src/lib.rs indent/dedent/new_line')])
# ---------------------------------------------------------------- visitor / scopes / transformer
p('V01', 'A visitor meets every child of every node once, in source order',
  'Traversing a tree calls the hook of a node before its children are traversed, passes it that very node, and then traverses every child that the node has, once and in source order. No hook of another kind is called.',
  ['programs'], 'every kind of node with every combination of optional parts',
  'The tests traverse a few trees with one visitor; a child skipped in a rare combination goes unnoticed.',
  VIS, [('visit_with', 'ratel-visitor/src/{expression,statement,function}.rs')])
p('V02', 'Parents and scopes are entered and left in balanced pairs',
  'During a traversal, the children of a node are met with that node as the innermost parent, every parent and scope that is entered is left again on every path, and functions and blocks open exactly one scope of the right kind around the names declared in them.',
  ['programs'], 'every kind of node, every nesting, every combination of optional parts',
  'An unbalanced pair shows only for visitors that track parents or scopes and only for the node kinds concerned; the tests check neither.',
  VIS, [('parents', 'ratel-visitor push_parent/pop_parent'), ('scopes', 'ratel-visitor on_enter_scope/on_leave_scope')])
p('V03', 'Each identifier is reported as a declaration or a use, as its position demands',
  'Names that a position binds (variables, parameters, function and class names, catch parameters, import names) are reported as declarations, names that are read or assigned are reported as uses, and property names, labels and other names that refer to no variable are reported as neither.',
  ['programs'], 'every position in which an identifier can occur',
  'The tests check variables and functions; shorthand properties, patterns, labels, catch parameters and class names are not covered.',
  VIS, [('reference hooks', 'ratel-visitor on_reference_use/on_reference_declaration')])
p('T01', 'Scope analysis builds the tree of scopes with the names of each',
  'Scope analysis returns the root scope; every function or block scope is attached once to the scope it is nested in, and the names used and declared, and the use of `this`, while a scope is the innermost one are recorded in that scope and in no other.',
  ['programs'], 'every sequence of scope entries, exits, uses and declarations',
  'The tests analyse two nested scopes; siblings, deeper nesting and return to the parent are histories they do not reach.',
  ['ratel-transformer/src/scope.rs'], [('scope analyzer', 'ratel-transformer/src/scope.rs ScopeAnalyzer')])
p('T02', 'The ES2015 transform replaces arrows by equivalent functions in the tree',
  'Transforming a module replaces each arrow function, in the tree that is printed afterwards, by a function expression with the same parameters and a body that returns the same value, and changes nothing else.',
  ['programs'], 'every module with any number of arrow functions in any position',
  'Only one shape of arrow function is tested; parameters, block bodies and nesting multiply.',
  ['ratel-transformer/src/lib.rs', 'ratel-transformer/src/es2015/mod.rs', 'ratel/src/ast/mod.rs'], [('arrow transform', 'ratel-transformer/src/es2015'), ('swap', 'ratel-transformer/src/lib.rs')])
# ---------------------------------------------------------------- ESTree output
p('A01', 'The ESTree output holds every part of the tree under its ESTree name',
  'For every node, the serialized object carries the ESTree type of that node, its start and end, and every part of the node under the name that ESTree gives it, with absent parts as null; no part is missing, duplicated or stored under another name. (Where the tests of the project fix another form, that form counts: the parts of object patterns are `keys`, spread in objects is SpreadProperty, a shorthand property is its Identifier, import sources are plain strings, holes at the end of arrays are dropped.)',
  ['programs'], 'every kind of node with every combination of optional parts and flags',
  'The tests serialize a few examples of the node kinds; the combinations of parts and flags are what they miss.',
  AG, [('serializers', 'ratel/src/astgen')])
p('A02', 'Serializing a parsed tree never panics',
  'Whatever program was parsed, producing its ESTree form either succeeds or returns an error; it never aborts the process.',
  ['programs'], 'every tree that the parser can produce',
  'A panic needs a node kind or literal form in a position that the tests do not contain.',
  AG, [('serializers', 'ratel/src/astgen')])
p('W01', 'The WebAssembly entry points return the result of the operation asked for',
  'Each exported entry point parses the given source once and returns the output of the requested operation in the requested form (minified or not, plain or ESTree), or all the parse errors; no option is ignored or swapped.',
  ['inputs', 'configurations'], 'every source text and every combination of options',
  'The entry points are not covered by any test.',
  ['ratel-wasm/src/lib.rs'], [('entry points', 'ratel-wasm/src/lib.rs')])
p('N01', 'The Node functions return the result asked for or throw the errors',
  'The functions that the Node module exports as transform, parse and ast parse the string they are given once and return the generated code, the debug listing or the ESTree form of the tree, minified or not as the second argument of transform and ast says. If the source has errors they throw the messages of all of them, in order. They throw too if a required argument is missing or of the wrong type, and otherwise never.',
  ['inputs', 'configurations'], 'every source text, both options, every number of arguments and every type of each',
  'The module cannot be loaded by the test suite: it needs Node, and its own tests try one source per function.',
  ['ffi/native/src/lib.rs'], [('functions', 'ffi/native/src/lib.rs transform, parse, ast'), ('exports', 'ffi/native/src/lib.rs register_module')])
p('M01', 'A tree cannot be used once its module is gone, and can until then',
  'Nothing that safe code reaches from a module (statements, nodes, names, the arena, scopes) or from a tokenizer can be kept longer than the module or the arena that holds it; no node can be made to refer to something that is gone before the tree; nodes, lists and modules are not shared between threads: the compiler rejects every program that tries. The tree does not depend on the source text it was parsed from, and while a module exists it can be printed, serialized, analyzed, traversed and transformed in any order, any number of times.',
  ['programs', 'histories'], 'every safe program that uses the public interface',
  'A use of freed memory in a program that should not have compiled shows in no test, and a test that must not compile is not among the tests.',
  ['ratel/src/module.rs', 'ratel/src/ast/node.rs', 'ratel/src/lexer/mod.rs', 'ratel-transformer/src/lib.rs', 'ratel-transformer/src/scope.rs', 'ratel-codegen/src/lib.rs'],
  [('lifetimes of a module', 'ratel/src/module.rs Module'), ('nodes', 'ratel/src/ast/node.rs Node'), ('tokenizer text', 'ratel/src/lexer/mod.rs Lexer::new'), ('scopes', 'ratel-transformer/src/scope.rs analyze')])
# ------------------------------------------------- equality and debug listing
AST = ['ratel/src/ast/mod.rs', 'ratel/src/ast/node.rs', 'ratel/src/ast/expression.rs', 'ratel/src/ast/statement.rs', 'ratel/src/ast/function.rs', 'ratel/src/ast/literal.rs', 'ratel/src/ast/operator.rs', 'ratel/src/ast/variable.rs']
p('Q01', 'Two trees are equal exactly when they have the same nodes with the same parts',
  'Comparing two syntax trees (or two nodes, lists or parts of them) with == says that they are equal exactly when they consist of the same kinds of nodes with the same names, literals, operators, flags and children in the same order. Where in the source text a node begins and ends makes no difference, and nothing else is left out of the comparison.',
  ['programs'], 'every two trees',
  'Nearly all tests of the project compare trees with ==; a comparison that overlooks a part lets all of them pass.',
  AST, [('nodes', 'ratel/src/ast/node.rs Node'), ('positions', 'ratel/src/ast/mod.rs Loc'), ('node kinds', 'ratel/src/ast')])
p('Q02', 'The debug listing shows every node with its place and all its parts',
  'The debug output of a module, a list, a node or a part of it (which the library prints with {:?} and {:#?} and which generateAST returns) names the kind of every node, shows where it begins and ends, and shows every part of it once, under the name of that part; the listing of a module contains every statement, in order.',
  ['programs'], 'every tree',
  'The tests never look at the listing.',
  AST + ['ratel/src/module.rs'], [('nodes', 'ratel/src/ast/node.rs Node'), ('positions', 'ratel/src/ast/mod.rs Loc'), ('module', 'ratel/src/module.rs Module'), ('node kinds', 'ratel/src/ast')])
# ---------------------------------------------------------------- others
p('Q03', 'Errors and scopes compare and print as what they are',
  'Two errors of the parser are equal exactly when token, text, start and end are all equal, and two scopes exactly when they are the same scope. The debug output of an error shows its token, its text, its start and its end, in that order for the positions; that of a scope shows its kind, its flags, the names used and declared in it and the scopes within it, each once under its name, and not the scope around it.',
  ['inputs'], 'every two errors and scopes',
  'No test prints an error or a scope, and errors and scopes are compared in hardly any.',
  ['ratel/src/error.rs', 'ratel-transformer/src/scope.rs'], [('errors', 'ratel/src/error.rs Error'), ('scopes', 'ratel-transformer/src/scope.rs Scope')])
p('O01', 'The operator table classifies every operator as the language does',
  'For every operator the functions of OperatorKind tell its spelling, whether it can stand before an operand, whether it can stand between operands, whether it assigns, and to which category (word, plus, minus or neither) it belongs as the language defines it; binding powers are equal for operators of the same precedence and rise with the precedence (that of ** is only not below that of *, and that of the arrow is free). A token is converted to the operator that it stands for, and to none if it is no operator.',
  ['inputs'], 'every operator, every pair of operators and every token',
  'Half of these functions are not called by the library itself and by no test; of the others the tests see a few operators.',
  ['ratel/src/ast/operator.rs'], [('table', 'ratel/src/ast/operator.rs OperatorKind')])
p('R01', 'Parsing the generated code gives back the same tree',
  'Generating code from a parsed module and parsing it again yields a module equal to the first up to positions.',
  ['programs'], 'every program',
  'Equality of trees over all programs is out of reach of any number of examples.',
  CG + PAR, [('codegen', 'ratel-codegen/src/lib.rs codegen'), ('parse', 'ratel/src/parser/mod.rs parse')])
p('R02', 'Number literals keep their value in the ESTree output',
  'The numeric value serialized for a number or binary literal is the one that all its digits denote in the radix that its prefix names (0x, 0o, 0b in either case, decimal otherwise), whether or not it has a fraction or exponent or fits into 64 bits (beyond 64 bits, up to rounding to double precision).',
  ['inputs'], 'every numeric literal', 'The set of literals is unbounded and tests use five of them.',
  ['ratel/src/astgen/value.rs', 'ratel/src/ast/literal.rs'], [('literal value', 'ratel/src/astgen/value.rs Literal')])
p('R03', 'Error messages show the line and column of the error',
  'The message of an unexpected token names the line and column (in characters, from 1) at which it starts, shows that line of the source, and below it a marker that begins under the offending text and has as many characters as that text.',
  ['inputs'], 'every source text and error position', 'One test checks one message for a source of one line.',
  ['ratel/src/error.rs'], [('display', 'ratel/src/error.rs')])
p('R04', 'Deeply nested programs do not exhaust the stack',
  'Nesting in the source text, however deep, leads to an error or a result and never to a crash.',
  ['inputs'], 'every nesting depth', 'Tests nest a few levels.', PAR + CG, [('recursive descent', 'ratel/src/parser')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
