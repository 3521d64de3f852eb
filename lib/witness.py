"""M01: programs that must (not) be accepted by the compiler.

Every rule is a pair of programs for the public interface of the current tree: one that keeps to the rule
and has to compile, and one that differs from it only in breaking the rule and has to be rejected by the
borrow checker (or the auto traits).  Nothing is run: the type checker decides.
"""
import glob, json, os, re, shutil, subprocess, fcntl, sys, tempfile
import facts
from facts import VERIF, BUILD, ExtractError, _env
import par as P

BORROW = {'E0597', 'E0505', 'E0515', 'E0716', 'E0499', 'E0502', 'E0506', 'E0521', 'E0621', 'E0106', 'E0310', 'E0309', 'E0491', 'E0495', 'E0623', 'E0503', 'E0713', 'E0700', 'E0759', 'E0373', 'E0726', 'life'}
TRAIT = {'E0277'}
PRE = '''#![allow(unused, dead_code)]
use ratel::Module;
use ratel::ast::*;
use ratel_visitor::{Visitable, Visitor};
use toolshed::Arena;
'''
V = '''struct Keep<'a> { nodes: Vec<&'a ExpressionNode<'a>>, names: Vec<&'a str> }
impl<'a> Visitor<'a> for Keep<'a> {
    fn on_call_expression(&mut self, _: &ratel::ast::expression::CallExpression<'a>, node: &'a ExpressionNode<'a>) { self.nodes.push(node); }
    fn on_reference_use(&mut self, name: &Identifier<'a>) { self.names.push(*name); }
}
'''


def outlive(what, expr, use, pre=''):
    """something taken from a module is used while the module lives, and after it is gone"""
    return (what, pre + 'fn main() { let m = ratel::parse("a(b)").unwrap(); let x = { %s }; %s; }' % (expr, use),
            pre + 'fn main() { let x = { let m = ratel::parse("a(b)").unwrap(); let r = { %s }; r }; %s; }' % (expr, use))


def dropped(what, expr, use, pre=''):
    return (what, pre + 'fn main() { let m = ratel::parse("a(b)").unwrap(); let x = { %s }; %s; }' % (expr, use),
            pre + 'fn main() { let m = ratel::parse("a(b)").unwrap(); let x = { %s }; drop(m); %s; }' % (expr, use))


# (rule, function it is about, program that has to compile, program that must not, kinds of error)
RULES = []


def rule(fn, t, kinds=BORROW):
    RULES.append((t[0], fn, t[1], t[2], kinds))


B = 'Module::body'
rule(B, outlive('the statements of a module are not used after the module is gone', 'm.body()', 'println!("{:?}", x)'))
rule(B, dropped('the statements of a module are not used after the module was dropped', 'm.body()', 'println!("{:?}", x)'))
rule(B, outlive('a statement is not used after its module is gone', '*m.body().only_element().unwrap()', 'println!("{:?}", x)'))
rule(B, outlive('an iterator over the statements is not used after the module is gone', 'm.body().iter()', 'for s in x { println!("{}", s.start); }'))
rule(B, ('the statements of a module are not returned from the function that parsed it',
         'fn f(s: &str) -> usize { let m = ratel::parse(s).unwrap(); let n = m.body().iter().count(); n } fn main() {}',
         'fn f(s: &str) -> StatementList<\'static> { let m = ratel::parse(s).unwrap(); m.body() } fn main() {}'))
rule('Module::arena', outlive('the arena of a module is not used after the module is gone', 'm.arena()', 'x.alloc(1u8)'))
rule('Module::arena', outlive('what is stored in the arena of a module is not used after the module is gone', 'm.arena().alloc(Loc::new(0, 0, "a"))', 'println!("{}", x.start)'))
rule('Visitable for Module', outlive('nodes that a visitor keeps are not used after the module is gone', 'let mut k = Keep { nodes: Vec::new(), names: Vec::new() }; m.visit_with(&mut k); k.nodes', 'println!("{}", x.len())', V))
rule('Visitable for Module', outlive('names that a visitor keeps are not used after the module is gone', 'let mut k = Keep { nodes: Vec::new(), names: Vec::new() }; m.visit_with(&mut k); k.names', 'println!("{:?}", x)', V))
rule('scope::analyze', outlive('the scopes of a module are not used after the module is gone', 'ratel_transformer::scope::analyze(&m)', 'println!("{:?}", x)'))
rule('scope::analyze', dropped('the scopes of a module are not used after the module was dropped', 'ratel_transformer::scope::analyze(&m)', 'println!("{:?}", x)'))
rule('Node::set', ('a node of a module is not made to refer to something that is gone before the module',
                   'fn main() { let m = ratel::parse("a").unwrap(); { let l = m.arena().alloc(Loc::new(0, 0, Statement::Empty)); m.body().only_element().unwrap().set(l); } println!("{:?}", m.body()); }',
                   'fn main() { let m = ratel::parse("a").unwrap(); { let l = Loc::new(0, 0, Statement::Empty); m.body().only_element().unwrap().set(&l); } println!("{:?}", m.body()); }'))
rule('Node::set', ('a node is not made to refer to something that is gone before the node',
                   'fn main() { let a = Loc::new(0, 0, "a"); let b = Loc::new(0, 0, "b"); let n = Node::new(&a); { n.set(&b); } println!("{}", n.start); }',
                   'fn main() { let a = Loc::new(0, 0, "a"); let n = Node::new(&a); { let b = Loc::new(0, 0, "b"); n.set(&b); } println!("{}", n.start); }'))
rule('Node::new', ('a node is not used after what it refers to is gone',
                   'fn main() { let a = Loc::new(0, 0, "a"); let n = { Node::new(&a) }; println!("{}", n.start); }',
                   'fn main() { let n = { let a = Loc::new(0, 0, "a"); Node::new(&a) }; println!("{}", n.start); }'))
rule('Node', ('the lifetime of a node cannot be shortened, which would let it refer to something shorter lived',
              "fn f<'a, 'b: 'a>(n: Node<'b, u8>, _: &'a u8) -> Node<'b, u8> { n } fn main() {}",
              "fn f<'a, 'b: 'a>(n: &'a Node<'b, u8>) -> &'a Node<'a, u8> { n } fn main() {}"))
rule('Module', ('the lifetime of a module cannot be shortened, which would let it refer to something shorter lived',
                "fn f<'a, 'b: 'a>(m: Module<'b>, _: &'a u8) -> Module<'b> { m } fn main() {}",
                "fn f<'a, 'b: 'a>(m: Module<'b>) -> Module<'a> { m } fn main() {}"))
rule('TransformerCtxt::swap', ('a node of a module is not swapped for one in an arena that is gone before the module',
                               "use ratel_transformer::{TransformerCtxt, scope::Scope}; fn f<'a>(c: TransformerCtxt<'a>, n: ExpressionNode<'a>) { let e: ExpressionNode<'a> = c.alloc(Expression::Void); c.swap(&n, e.item); } fn main() {}",
                               "use ratel_transformer::{TransformerCtxt, scope::Scope}; fn f<'a, 'b>(c: TransformerCtxt<'b>, n: ExpressionNode<'a>, e: Expression<'b>) { c.swap(&n, e); } fn main() {}"))
rule('TransformerCtxt::alloc', ('what a transformation allocates is not used after the arena is gone',
                                "use ratel_transformer::TransformerCtxt; fn f<'a>(c: TransformerCtxt<'a>) -> ExpressionNode<'a> { c.alloc(Expression::Void) } fn main() {}",
                                "use ratel_transformer::TransformerCtxt; fn f<'a>(c: TransformerCtxt<'a>) -> ExpressionNode<'static> { c.alloc(Expression::Void) } fn main() {}"))
rule('PresetES2015', ('a transformation does not put what lives in another arena into the tree',
                      "use ratel_transformer::{es2015::PresetES2015, TransformerCtxt, scope::Scope, scope::analyze}; fn main() { let m = ratel::parse(\"()=>1\").unwrap(); { let c = TransformerCtxt { arena: m.arena(), scope: analyze(&m) }; m.visit_with(&mut PresetES2015::new(c)); } println!(\"{}\", ratel_codegen::codegen(&m, true)); }",
                      "use ratel_transformer::{es2015::PresetES2015, TransformerCtxt, scope::Scope, scope::analyze}; fn main() { let m = ratel::parse(\"()=>1\").unwrap(); { let a = Arena::new(); let c = TransformerCtxt { arena: &a, scope: analyze(&m) }; m.visit_with(&mut PresetES2015::new(c)); } println!(\"{}\", ratel_codegen::codegen(&m, true)); }"))
rule('Lexer::new', ('the text of a token is not used after the arena of the tokenizer is gone',
                    'use ratel::lexer::Lexer; fn main() { let a = Arena::new(); let t = { let l = Lexer::new(&a, "x"); l.token_as_str() }; println!("{}", t); }',
                    'use ratel::lexer::Lexer; fn main() { let t = { let a = Arena::new(); let l = Lexer::new(&a, "x"); l.token_as_str() }; println!("{}", t); }'))
rule('Lexer::new', ('a tokenizer is not used after its arena is gone',
                    'use ratel::lexer::Lexer; fn main() { let a = Arena::new(); let mut l = { Lexer::new(&a, "x") }; l.consume(); }',
                    'use ratel::lexer::Lexer; fn main() { let mut l = { let a = Arena::new(); Lexer::new(&a, "x") }; l.consume(); }'))
for _t, _n in (("Module<'static>", 'Module'), ("StatementNode<'static>", 'Node'), ("StatementList<'static>", 'NodeList'), ("&'static ratel_transformer::scope::Scope<'static>", 'Scope')):
    rule(_n, ('a %s is not used by two threads at once' % _n, 'fn f<T>() {} fn main() { f::<%s>(); }' % _t,
              'fn f<T: %s>() {} fn main() { f::<%s>(); }' % ('Send' if _t.startswith('&') else 'Sync', _t)), TRAIT)

# what has to be possible: (what, function, program)
FREE = [
    ('a module outlives the source text', 'parse', 'fn main() { let m = { let s = String::from("a"); ratel::parse(&s).unwrap() }; println!("{:?}", m.body()); }'),
    ('errors outlive the source text', 'parse', 'fn f() -> Vec<ratel::error::Error> { let s = String::from("("); ratel::parse(&s).unwrap_err() } fn main() { f(); }'),
    ('the generated code outlives the module', 'codegen', 'fn f() -> String { let m = ratel::parse("a").unwrap(); ratel_codegen::codegen(&m, true) } fn main() { f(); }'),
    ('a module can be returned', 'parse', "fn f<'a>() -> Module<'a> { ratel::parse(\"a\").unwrap() } fn main() { f(); }"),
    ('a module can be printed, serialized, analyzed and traversed again and again', 'Module', V + '''fn main() { let m = ratel::parse("a(b)").unwrap(); for _ in 0..2 {
        ratel_codegen::codegen(&m, true); ratel_codegen::codegen(&m, false); serde_json::to_string(&m).unwrap(); format!("{:?}", m); m.body(); m.arena();
        ratel_transformer::scope::analyze(&m); m.visit_with(&mut Keep { nodes: Vec::new(), names: Vec::new() }); } }'''),
    ('a transformed module can be printed, serialized and analyzed', 'transform', '''fn main() { let m = ratel::parse("a(b)").unwrap(); ratel_transformer::transform(&m);
        ratel_codegen::codegen(&m, true); serde_json::to_string(&m).unwrap(); ratel_transformer::scope::analyze(&m); println!("{:?}", m.body()); }'''),
    ('the statements can be used next to the scopes', 'Module::body', '''fn main() { let m = ratel::parse("a(b)").unwrap(); let b = m.body(); let s = ratel_transformer::scope::analyze(&m); let c = m.body();
        println!("{:?}{:?}{:?}", b, s, c); }'''),
    ('a token outlives its tokenizer and the source text', 'Lexer::new', 'use ratel::lexer::Lexer; fn main() { let a = Arena::new(); let t = { let s = String::from("x"); let l = Lexer::new(&a, &s); l.token_as_str() }; println!("{}", t); }'),
]
# transform takes the module by & or by &mut
ALT = {'transform': lambda s: s.replace('let m =', 'let mut m =').replace('transform(&m)', 'transform(&mut m)')}


# ---------------------------------------------------- where the text of a tokenizer lives
def sources(p):
    """what the pointers that tokenizers are made from point to: [(function, kind, what)]"""
    out, seen = [], set()

    def trace(f, loc, depth=0):
        """the calls and other things that a local of a function may come from"""
        if (f['id'], loc) in seen or depth > 6:
            return
        seen.add((f['id'], loc))
        if 0 < loc <= f['argc']:
            yield ('argument', f, loc)
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[1] == [loc]:
                    yield from operand(f, s[2], depth)
            t = b['t']
            if t[0] == 'call' and t[3] == [loc]:
                c = t[1].get('fn')
                name = p.fns[c]['name'] if c is not None else str(t[1])
                g = p.fns.get(c) if isinstance(p.fns, dict) else (p.fns[c] if c is not None else None)
                if re.search(r'^ratel', name) and g and 'blocks' in g:
                    yield from trace(g, 0, depth + 1)
                elif re.search(r'ptr::(const_ptr|mut_ptr|non_null).*::cast|::cast::<', name) and t[2] and 'p' in t[2][0]:
                    yield from trace(f, t[2][0]['p'][0], depth)
                else:
                    yield ('call', f, name)

    def operand(f, rv, depth):
        ops = [x for x in rv if isinstance(x, dict) and 'p' in x] if isinstance(rv, list) else [rv] if isinstance(rv, dict) and 'p' in rv else []
        if len(ops) == 1 and len(ops[0]['p']) == 1:
            yield from trace(f, ops[0]['p'][0], depth)
        else:
            yield ('other', f, str(rv)[:60])
    for f in p.find(r'^<?ratel'):
        for b in f.get('blocks', ()):
            t = b['t']
            if t[0] == 'call' and t[1].get('fn') is not None and re.search(r'^ratel::lexer::Lexer::<.*>::from_ptr$', p.fns[t[1]['fn']]['name']) and 'p' in t[2][0]:
                seen.clear()
                for k, g, w in trace(f, t[2][0]['p'][0]):
                    out.append((f['name'], k, w))
    return out


def origin(p):
    """violations of M01 (text that does not live in the arena) and L01 (text without a terminator)"""
    viol, un = {}, []
    src = sources(p)
    for fn, k, w in src:
        if k == 'call' and re.search(r'Arena::alloc_str_with_nul(::<|$)', str(w)):
            continue
        if k == 'call' and re.search(r'Arena::alloc', str(w)):
            viol[(('L01',), '%s: text without terminator' % fn)] = {'msg': 'a tokenizer is made for a text in the arena that has no terminator (%s)' % w, 'where': fn, 'trace': []}
        elif k == 'call' and re.search(r'::as_ptr(::<|$)|::as_bytes', str(w)):
            viol[(('L01', 'M01'), '%s: text outside of the arena' % fn)] = {'msg': 'a tokenizer is made for a text that is not a terminated copy in the arena (%s): its tokens refer to memory that may be gone before they are' % w, 'where': fn, 'trace': []}
        else:
            un.append('%s: a tokenizer is made for a text of unknown origin (%s %s)' % (fn, k, w))
    if not src:
        un.append('no place found where a tokenizer is made')
    return viol, un, len(src)


def build():
    """the crates of the current tree, type checked; returns {name: rmeta}, directories of all crates"""
    os.makedirs(BUILD, exist_ok=True)
    tdir = os.path.join(BUILD, 'target-witness')
    for fp in glob.glob(os.path.join(tdir, 'debug', '.fingerprint', '*')) + glob.glob(os.path.join(tdir, 'debug', 'build', '*')):
        if os.path.basename(fp).startswith(('ratel', 'witness')):
            shutil.rmtree(fp)
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--quiet', '--message-format=json', '--manifest-path', os.path.join(VERIF, 'witness', 'Cargo.toml')],
                       env=_env({'CARGO_TARGET_DIR': tdir, 'RUSTFLAGS': '-Awarnings'}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF)
    ext, dirs = {}, set()
    for line in p.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('reason') == 'compiler-artifact':
            for f in d['filenames']:
                dirs.add(os.path.dirname(f))
                if f.endswith('.rmeta'):
                    ext[d['target']['name'].replace('-', '_')] = f
    need = ('ratel', 'ratel_codegen', 'ratel_visitor', 'ratel_transformer', 'toolshed', 'serde_json')
    if p.returncode or [n for n in need if n not in ext]:
        raise ExtractError('the crates do not build:\n' + (p.stderr or p.stdout)[-3000:])
    return {n: ext[n] for n in need}, sorted(dirs)


def check(ext, deps, text):
    """what the compiler says about a program: (accepted, codes, messages)"""
    # (the compiler's output goes to a folder of its own: as root, rustc replaces whatever it is told to write, a device node too)
    with tempfile.TemporaryDirectory(dir=BUILD) as out:
        return check_in(ext, deps, text, out)


def check_in(ext, deps, text, out):
    args = ['rustc', '+nightly', '--edition', '2018', '--crate-type', 'bin', '--crate-name', 'w', '--emit', 'metadata', '--out-dir', out, '--error-format', 'json', '-Awarnings']
    for d in deps:
        args += ['-L', 'dependency=' + d]
    for n, f in ext.items():
        args += ['--extern', '%s=%s' % (n, f)]
    p = subprocess.run(args + ['-'], input=PRE + text, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=out)
    codes, msgs = set(), []
    for line in p.stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('level') == 'error' and not d['message'].startswith('aborting'):
            c = (d.get('code') or {}).get('code')
            codes.add(c or ('life' if 'lifetime' in d['message'] or 'borrow' in d['message'] else '?'))
            msgs.append(d['message'])
    return p.returncode == 0, codes, msgs or [p.stderr[-300:]]


def run_all():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'witness.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ext, deps = build()
    jobs = [('good', i, r[2]) for i, r in enumerate(RULES)] + [('bad', i, r[3]) for i, r in enumerate(RULES)] + [('free', i, r[2]) for i, r in enumerate(FREE)]
    jobs += [('alt', i, ALT[r[1]](r[2])) for i, r in enumerate(FREE) if r[1] in ALT]
    got = {}
    for j, x in zip(jobs, P.pmap(lambda j: check(ext, deps, j[2]), jobs)):
        got[j[:2]] = x
    res = {'violations': {}, 'unanalysed': [], 'programs': len(jobs), 'rejected': 0, 'accepted': 0, 'rules': len(RULES) + len(FREE), 'labels': [r[0] for r in RULES] + [r[0] for r in FREE]}

    def viol(what, fn, msg, text):
        res['violations'][(('M01',), '%s: %s' % (fn, what))] = {'msg': msg, 'where': fn, 'trace': [text]}
    for i, (what, fn, good, bad, kinds) in enumerate(RULES):
        ok, codes, msgs = got[('good', i)]
        if not ok:
            if codes and codes <= BORROW:
                viol('too strict', fn, 'a program that keeps to the rule (%s) is rejected: %s' % (what, msgs[0]), good)
            else:
                res['unanalysed'].append('%s: %s: the program to compare with does not compile: %s' % (fn, what, msgs[0][:150]))
            continue
        ok, codes, msgs = got[('bad', i)]
        if ok:
            viol(what, fn, 'the compiler accepts a program that breaks the rule: %s' % what, bad)
            res['accepted'] += 1
        elif not codes <= kinds:
            res['unanalysed'].append('%s: %s: rejected for another reason: %s' % (fn, what, msgs[0][:150]))
        else:
            res['rejected'] += 1
    for i, (what, fn, text) in enumerate(FREE):
        ok, codes, msgs = got[('free', i)]
        if not ok and ('alt', i) in got and not codes <= BORROW:
            ok, codes, msgs = got[('alt', i)]
        if not ok:
            if codes and codes <= BORROW:
                viol(what, fn, 'the compiler rejects a program in which %s: %s' % (what, msgs[0]), text)
            else:
                res['unanalysed'].append('%s: %s: does not compile: %s' % (fn, what, msgs[0][:150]))
    return res


if __name__ == '__main__':
    r = run_all()
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:300])
    for u in r['unanalysed']:
        print('UNAN', u[:250])
    print(r['rules'], r['programs'], r['rejected'], r['accepted'])
