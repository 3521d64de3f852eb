"""Parsing terminates.

Measure: the number of tokens left.  The tokenizer's own checks show that every token but
the end of the program moves it on (L02) and the accessors' contracts show who moves it.

1. In every function of the parser, every cycle of its (abstract) state graph must read a
   token that is not the end of the program, or take an element from a finite list.
2. Every chain of calls of the recursive functions without a token in between must be
   finite: the graph of calls that are made before a token was read has no cycle
   (calls on a part of the expression that the caller was given do not count).
3. No reachable panic.

Whether a recursive function may return without having read anything is itself computed,
as the least fixpoint over all of them.
"""
import time
from collections import namedtuple
import re
from engine import Engine, State, Unmodelled, EngineLimit, Prune, Split
from parser import Models, PA, ctxval, EOP, tn, fs
import models as M

G = namedtuple('G', 'prog lp last re')
LITS = fs('LiteralString TemplateClosed TemplateOpen LiteralRegEx')


class PG(Models):
    def __init__(self, prog, node, lazy):
        Models.__init__(self, prog)
        self.node = node
        self.lazy = lazy
        self.edges = {}          # key -> set of keys reached without progress
        self.where = {}
        self.calls = {}          # callee -> set of tokens at the call, without progress
        self.all_calls = set()
        self.mylazy = set()
        self.param = None

    def key(self, st): return (st.dom.prog, st.dom.re)
    def drop(self, st, t): return None

    # ---- state graph
    def marked(self, st, k):
        self.edge(st, k)
        st.dom = st.dom._replace(last=k, lp=False)

    def merged(self, st, k): self.edge(st, k)

    def edge(self, st, k):
        self.obl += 1
        d = st.dom
        if d.last is not None and not d.lp:
            self.edges.setdefault(d.last, set()).add(k)
        if k not in self.where:
            self.where[k] = (self.eng.where(st), [str(x) for x in st.events()][-6:], tn(self.cur(st)))

    def progress(self, st, slot='prev'):
        self.fresh(st, slot)
        st.dom = st.dom._replace(prog=True, lp=True)

    # ---- tokens
    def consume(self, st):
        S = self.cur(st)
        if EOP in S and len(S) > 1:
            raise self.splitcur([{EOP}, S - {EOP}])
        if S == {EOP}:
            st.ev('the end of the program stays current')
            return 'tok'
        st.ev(tn(S))
        self.progress(st)
        return 'prev'

    def call(self, st, fn, decl, args):
        n = fn['name']
        if n.startswith('toolshed::arena::Arena::alloc') or n.startswith('toolshed::Arena::alloc'):
            return self.ret1(('top', fn['locals'][0]))
        if n.startswith('<toolshed::list::') and n.endswith(('::next', '::into_iter', '::clone')):
            return self.listcall(st, fn, n, args)
        if n.endswith('::next') and 'Iterator' in n and args and re.search(r'\b(std|core|alloc)::', n):
            v = args[0]
            for _ in range(4):
                if v[0] == 'ref' and v[1][0] in ('H', 'L', 'K'):
                    v = self.eng.load(st, v[1], v[2])
            if v[0] in ('pieces', 'top') and not re.search('RangeFrom|Repeat|Cycle|FromFn|Successors', n):
                # a finite sequence
                rt = fn['locals'][0] if 'locals' in fn else None
                if rt is not None:
                    return [(lambda c: self.lprog(c), M.some(self.eng, rt, ('top', None))), (None, M.none(self.eng, rt))]
        return Models.call(self, st, fn, decl, args)

    def pos(self, s, e): return ('top', None)

    def invalid(self, st):
        self.consume(st)

    def error(self, st):
        st.ev('error')

    def template_kind(self, st):
        S = self.cur(st)
        if 'BraceClose' in S and len(S) > 1:
            raise self.splitcur([{'BraceClose'}, S - {'BraceClose'}])
        if S == {'BraceClose'}:
            self.progress(st)
        else:
            self.fresh(st, 'prev')
            st.dom = st.dom._replace(re=True)
        self.setcur(st, fs('TemplateOpen TemplateClosed UnexpectedToken UnexpectedEndOfProgram'))

    def regex(self, st):
        self.fresh(st, 'prev')
        st.dom = st.dom._replace(re=True)
        self.setcur(st, fs('LiteralRegEx UnexpectedToken UnexpectedEndOfProgram'))

    def slice(self, st, args):
        r = Models.slice(self, st, args)
        if r is not None:
            p = r[1][1]
            m = re.match(r'(tok|prev)\.(text|quasi|regex)', p)
            self.obl += 1
            if m and m.group(2) == 'text' and not self.slot_tokens(st, m.group(1)) <= LITS:
                self.bad(st, 'slices %s' % tn(self.slot_tokens(st, m.group(1))), 'the text of a token that may be short is cut at both ends, which may panic')
        return r

    # ---- nodes, lists
    def listcall(self, st, fn, n, args):
        m = re.sub(r'::<[^:]*>$', '', n).rsplit('::', 1)[1]
        rt = fn['locals'][0]

        def sym(v):
            for _ in range(4):
                if v[0] == 'ref' and v[1][0] != 'S':
                    v = self.eng.load(st, v[1], v[2])
            return v[0] in ('sym', 'liter') or v[0] == 'ref' and v[1][0] == 'S'
        if m == 'next':
            if args and sym(args[0]):
                for g in self.eng.model_for(fn):
                    r = g(self.eng, st, fn, args)
                    if r is not None:
                        return [self.listed(x) for x in r] if r != 'prune' else r
            return [(lambda c: self.lprog(c), M.some(self.eng, rt, ('top', None))), (None, M.none(self.eng, rt))]
        if args and m not in ('push', 'as_list', 'new', 'empty', 'from') and sym(args[0]):
            return None
        if m == 'push':
            return self.ret1(('tup', ()))
        if m in ('is_empty',):
            return [(None, ('i', 0)), (None, ('i', 1))]
        if m in ('only_element', 'first_element'):
            return [(None, M.some(self.eng, rt, ('top', None))), (None, M.none(self.eng, rt))]
        if m in ('as_list', 'new', 'empty', 'from', 'into_unsafe', 'into_list', 'iter', 'into_iter', 'clone'):
            return self.ret1(('top', rt))
        raise Unmodelled('list operation ' + n[:80])

    def lprog(self, c):
        c.dom = c.dom._replace(lp=True)

    def listed(self, x):
        mut, val = x
        if mut is None or val is not None and not (val[0] == 'adt' and val[3]):
            return x

        def m(c):
            v = mut(c)
            w = val if v is None else v
            if w is not None and w[0] == 'adt' and w[3]:
                self.lprog(c)
            return v
        return (m, val)

    # ---- recursion
    def nonterminal(self, st, c, fn, args):
        ctx = None
        if c == 'Ctx':
            ctx = PA.ctxname(self, args[1])
            if ctx is None:
                raise Unmodelled('context of an expression')
        node = (fn['id'], ctx)
        S = self.cur(st)
        if EOP in S and len(S) > 1:
            raise self.splitcur([{EOP}, S - {EOP}])
        self.obl += 1
        self.all_calls.add(node)
        if not st.dom.prog and not self.smaller(st, args):
            T = self.all if st.dom.re else S
            self.calls.setdefault(node, set()).update(T)
        val = ('top', fn['locals'][0])
        name = self.short(fn)
        if S == {EOP}:
            st.ev('%s at the end of the program' % name)
            return [(lambda x: self.dropfacts(x, 'tok.asi'), val)]
        out = []

        def adv(x):
            x.ev(name)
            self.progress(x)
        out.append((adv, val))
        L = S & self.lazy.get(node, frozenset())
        if L:
            def stay(x):
                x.ev('%s reads nothing' % name)
                self.setcur(x, L)
            out.append((stay, val))
        return out

    def short(self, fn):
        n = re.sub(r"<'_>|::<'_>", '', fn['name'])
        m = re.search(r'Parse for ratel::ast::(\S+?)>::parse', n)
        return m.group(1) if m else re.sub(r'<.*', '', n.rsplit('::<', 1)[0].rsplit('::', 1)[1])

    def smaller(self, st, args):
        if self.param is None:
            return False
        for v in args[1:]:
            for _ in range(4):
                if v[0] == 'ref' and v[1][0] in ('H', 'L', 'K'):
                    v = self.eng.load(st, v[1], v[2])
            p = v[1] if v[0] == 'sym' else v[1][1] if v[0] == 'ref' and v[1][0] == 'S' else None
            if p is not None and p.startswith(self.param) and len(p) > len(self.param) and p[len(self.param)] in '.[{':
                return True
        return False

    def ret(self, st, val):
        self.obl += 1
        if not st.dom.prog:
            self.mylazy |= set(self.all if st.dom.re else self.cur(st)) - {EOP}

    def bad(self, st, key, msg):
        n = self.short(self.p.fns[self.node[0]])
        self.report(st, (('S01',), '%s: %s' % (n, key)), '%s: %s' % (n, msg))

    def panic(self, st, what, where):
        self.bad(st, 'panics: %s' % what[:60], 'may panic: %s' % what)

    def assert_unknown(self, st, msg, v, exp):
        self.bad(st, 'may panic: %s' % str(msg)[:60], 'may panic: %s' % (msg,))


def sccs(graph):
    """strongly connected components with a cycle"""
    idx, low, on, stack, out = {}, {}, set(), [], []
    for r in list(graph):
        if r in idx:
            continue
        work = [(r, iter(graph.get(r, ())))]
        idx[r] = low[r] = len(idx)
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(graph.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in graph.get(v, ()):
                        out.append(c)
    return out


def run_node(prog, node, lazy):
    fid, ctx = node
    f = prog.fns[fid]
    dom = PG(prog, node, lazy)
    label = dom.short(f)
    un = []
    try:
        eng = Engine(prog, dom)
        st = State()
        par = dom.newparser(st)
        st.dom = G(False, False, None, False)
        args = [par]
        for i, t in enumerate(f['locals'][2:f['argc'] + 1]):
            if ctx is not None and i == 0:
                args.append(ctxval(prog, ctx))
            elif prog.types[t]['k'] == 'adt' and dom.param is None:
                dom.param = 'e'
                args.append(('sym', 'e', t))
            else:
                args.append(('top', t))
        eng.push_call(st, fid, args, None, None)
        eng.run(st)
        un = ['%s: unmodelled %s' % (label, u) for u in eng.unmodelled]
    except (Unmodelled, EngineLimit) as e:
        un = ['%s: %s' % (label, e)]
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        un = ['%s: construct outside of the analysis (%s: %s)' % (label, type(e).__name__, e)]
    viol = dict(dom.violations)
    if un:      # what an unfollowed value leads to is not known to happen
        viol = {k: v for k, v in viol.items() if ' panic' not in k[1]}
    for c in sccs(dom.edges):
        if un and all(re.search(r'^/?(rustc|\S*/(core|alloc|std)/src)|\((core|alloc|std|<)[^)]*', dom.where[k][0]) for k in c):
            continue
        for k in c:
            where, tr, tok = dom.where[k]
            key = (('S01',), '%s: loop without progress' % label)
            if key not in viol or where < viol[key]['where']:
                viol[key] = {'key': key, 'msg': '%s: a loop can go round without reading a token (at %s)' % (label, tok), 'where': where, 'trace': tr}
    return {'node': node, 'label': label, 'viol': viol, 'un': un, 'calls': dom.calls, 'all': dom.all_calls, 'lazy': frozenset(dom.mylazy), 'obl': dom.obl,
            'states': dom.eng.nstates, 'fns': dom.eng.fns_seen, 'nodes': len(dom.where)}


def run_all(prog):
    import par as P
    roots = [(f['id'], None) for f in prog.find(r"^ratel::parser::Parser::<'_>::parse$")]
    lazy, done = {}, {}
    rounds = 0
    todo = list(roots)
    while todo:
        rounds += 1
        rs = P.pmap(lambda n: run_node(prog, n, lazy), todo)
        changed = set()
        for r in rs:
            done[r['node']] = r
            if r['lazy'] != lazy.get(r['node'], frozenset()):
                changed.add(r['node'])
        for n in changed:
            lazy[n] = lazy.get(n, frozenset()) | done[n]['lazy']
        new = {c for r in done.values() for c in r['all']} - set(done)
        todo = sorted(new | {n for n, r in done.items() if r['all'] & changed}, key=repr)
        if rounds > 60:
            raise EngineLimit('no fixpoint')
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': len(done), 'labels': [], 'rounds': rounds}
    for r in done.values():
        res['violations'].update(r['viol'])
        res['unanalysed'] += r['un']
        res['functions'] |= r['fns']
        res['obligations'] += r['obl']
        res['states'] += r['states']
        res['labels'].append(r['label'])
    names = Models(prog).names
    seen = set()
    for t in names:
        g = {n: {c for c, S in r['calls'].items() if t in S} for n, r in done.items()}
        for c in sccs(g):
            s = tuple(sorted({done[n]['label'] for n in c}))
            if s in seen:
                continue
            seen.add(s)
            key = (('S01',), 'endless recursion: %s' % ', '.join(s))
            res['violations'][key] = {'key': key, 'msg': 'these functions can call each other for ever without reading a token (at %s): %s' % (tn({t}), ', '.join(s)),
                                      'where': prog.fns[c[0][0]]['name'], 'trace': []}
    res['lazy'] = {done[n]['label']: tn(v, 12) for n, v in lazy.items() if v}
    return res


if __name__ == '__main__':
    import facts, sys
    from engine import Prog
    p = Prog(facts.extract('harness'))
    t = time.time()
    r = run_all(p)
    for k, v in sorted(r['violations'].items()):
        print('VIOL', k, '|', v['msg'][:200], '|', v['where'], '|', ' ; '.join(v['trace'][-8:])[:200])
    for u in r['unanalysed'][:30]:
        print('UNAN', u[:250])
    for k, v in sorted(r['lazy'].items()):
        print('LAZY', k, v[:150])
    print(r['roots'], r['rounds'], r['obligations'], r['states'], len(r['functions']), time.time() - t)
