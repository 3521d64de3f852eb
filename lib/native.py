"""The functions of the Node module (ffi).

neon, the binding to Node, is not installed: neonshim/neon declares the part of its interface that
is used, and this domain gives those calls their meaning.  Each function is run on every number of
arguments from none to three, each of which may be of the wrong type.
"""
import re
from engine import Engine, State, Prune, Unmodelled, EngineLimit
from wasm import W, last, has, subst, MOD, DISPLAY

ERRORS = ('join', '\n', ('each error', DISPLAY))
TYPES = {'transform': ('JsString', 'JsBoolean'), 'ast': ('JsString', 'JsBoolean'), 'parse': ('JsString',)}
SPEC = {
    'transform': {1: ('codegen', MOD, True), 0: ('codegen', MOD, False)},
    'ast': {1: ('json', MOD), 0: ('json, indented', MOD)},
    'parse': {1: ('debug', ('body', MOD)), 0: ('debug', ('body', MOD))},
}


class N(W):
    def __init__(self, prog, name, nargs):
        W.__init__(self, prog, name)
        self.nargs = nargs
        self.exports = []

    def bad(self, st, key, msg):
        self.report(st, (('N01',), '%s: %s' % (self.name, key)), '%s: %s' % (self.name, msg))

    def variant(self, ret, name, *vals):
        k = [i for i, v in enumerate(self.p.types[ret]['variants']) if v['name'] == name][0]
        return ('adt', ret, k, vals)

    def call(self, st, fn, decl, args):
        n = last(fn['name'])
        full = fn['name']
        if 'neon::prelude::' not in full:
            return W.call(self, st, fn, decl, args)
        ret = self.dest(st, fn)
        m = n.rsplit('::', 1)[-1]
        if re.search(r'FunctionContext::len$', n):
            self.obl += 1
            return [(None, ('i', self.nargs))]
        if re.search(r'FunctionContext::argument$', n):
            self.obl += 1
            ty = re.search(r'argument::<.*?(\w+)>$', full).group(1)
            if args[1][0] != 'i':
                raise Unmodelled('argument of unknown position')
            i = args[1][1]
            key = ('arg', i, ty)
            out = []
            for ok in sorted(st.facts.get(key, frozenset((0, 1) if i < self.nargs else (0,)))):
                def g(c, ok=ok):
                    c.facts[key] = frozenset((ok,))
                out.append((g, self.variant(ret, 'Ok', self.tx(('arg', i, ty))) if ok else self.variant(ret, 'Err', self.tx(('bad argument', i, ty)))))
            return out
        if 'Context<' in full and re.match(r'throw(_\w+)?$', m):
            self.obl += 1
            return [(None, self.variant(ret, 'Err', self.tx(('thrown', self.term(st, args[1])))))]
        if 'Context<' in full and m == 'string':
            self.obl += 1
            return [(None, self.tx(('js', self.term(st, args[1]))))]
        if re.search(r'<\S*Handle<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$', full):
            return [(None, self.tref(self.term(st, args[0])))]
        if re.search(r'(Handle|Js\w+)(<.*>)? as std::clone::Clone>::clone$', full):
            return [(None, self.tx(self.term(st, args[0])))]
        if re.search(r'<\S*Throw as std::convert::(From|Into)<\S*Throw>>::\w+$', full):
            return [(None, args[0])]
        if re.search(r'Js(String|Boolean)::value$', n):
            t = self.term(st, args[0])
            if t == ('arg', 0, 'JsString'):
                return [(None, self.tx('source'))]
            if t == ('arg', 1, 'JsBoolean'):
                return [(None, ('sym', 'minify', ret))]
            if n.endswith('JsBoolean::value'):
                return [(None, ('sym', 'argument %r' % (t,), ret))]
            return [(None, self.tx(('text of', t)))]
        if re.search(r'ModuleContext::export_function$', n):
            self.obl += 1
            f = args[2]
            name = self.p.fns[f[1]]['name'] if f[0] == 'fn' and isinstance(f[1], int) else None
            if name is None:
                raise Unmodelled('exported %r' % (f[:1],))
            self.exports.append((self.term(st, args[1]), last(name).rsplit('::', 1)[1]))
            return [(None, self.variant(ret, 'Ok', ('tup', ())))]
        return None

    def ret(self, st, val):
        self.returns += 1
        self.obl += 1
        if val[0] != 'adt':
            raise Unmodelled('result of kind ' + val[0])
        var = self.p.types[val[1]]['variants'][val[2]]['name']
        if self.name == 'module':
            return
        t = self.term(st, val[3][0])
        need = TYPES[self.name]
        if var == 'Err':
            if t[0] == 'bad argument':
                if t[1] >= len(need) or t[2] != need[t[1]]:
                    self.bad(st, 'argument', 'a call is rejected unless argument %d is a %s' % (t[1] + 1, t[2]))
                return
            if t[0] != 'thrown':
                raise Unmodelled('an exception that is ' + str(t)[:60])
            if t[1] == ERRORS:
                self.seen.add('errors')
            elif 'each error' in repr(t) or 'err.' in repr(t):
                self.bad(st, 'errors', 'the parse errors are thrown as %s instead of %s' % (str(t[1])[:200], str(ERRORS)[:200]))
            elif self.nargs >= len(need) and all(st.facts.get(('arg', i, ty)) != frozenset((0,)) for i, ty in enumerate(need)):
                self.bad(st, 'throws', 'throws %s although the arguments are right' % str(t[1])[:120])
            return
        for i, ty in enumerate(need):
            if st.facts.get(('arg', i, ty)) != frozenset((1,)):
                self.bad(st, 'accepts', 'returns a result although argument %d is missing or no %s' % (i + 1, ty))
                return
        if t[0] != 'js':
            raise Unmodelled('a result that is ' + str(t)[:60])
        t = t[1]
        if not has(t, MOD):
            self.bad(st, 'result', 'returns %s, which is not made from the parsed module' % str(t)[:200])
            return
        fl = self.known(st)
        for m in [fl] if fl is not None else [0, 1]:
            w = SPEC[self.name][m]
            got = subst(t, 'minify', bool(m))
            if got == w:
                self.seen.add(('result', m))
            else:
                self.bad(st, 'wrong result (minify=%s)' % bool(m), 'with minify = %s the result is %s instead of %s' % (bool(m), str(got)[:160], str(w)[:160]))


def run_all(prog):
    res = {'violations': {}, 'unanalysed': [], 'functions': set(), 'obligations': 0, 'states': 0, 'roots': 0, 'labels': []}

    def run(dom, f, args, nm):
        eng = Engine(prog, dom, max_states=2000)
        eng.bfs = True
        dom.eng = eng
        st = State()
        st.dom = ''
        un = []
        try:
            eng.push_call(st, f['id'], args, None, None)
            eng.run(st)
        except (Unmodelled, EngineLimit) as e:
            un.append('%s: %s' % (nm, e))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            un.append('%s: construct outside of the analysis (%s: %s)' % (nm, type(e).__name__, e))
        un += ['%s: unmodelled %s' % (nm, u) for u in eng.unmodelled]
        res['unanalysed'] += un
        res['functions'] |= {prog.fns[x]['name'] if isinstance(x, int) else x for x in eng.fns_seen}
        res['obligations'] += dom.obl
        res['states'] += eng.nstates
        res['roots'] += 1
        return st, un

    ids = {}
    for f in prog.find(r'^neonshim::(\w+::)*(transform|parse|ast)$'):
        if f['argc'] == 1 and 'FunctionContext' in prog.types[f['locals'][1]].get('str', ''):
            ids[last(f['name']).rsplit('::', 1)[1]] = f
    exports = None
    for f in prog.find(r'^neonshim::neon_register_module$'):
        dom = N(prog, 'module', 0)
        st, un = run(dom, f, [('sym', 'cx', f['locals'][1])], 'module')
        res['labels'].append('exports')
        if not un:
            exports = dom.exports
            for k in sorted(TYPES):
                got = [v for n, v in exports if n == k]
                if k in ids and got[-1:] != [k]:
                    dom.bad(st, 'export %s' % k, '%s is exported as %s' % (k, 'nothing' if not got else 'the function ' + got[-1]))
        res['violations'].update(dom.violations)
    for nm, f in sorted(ids.items()):
        for n in range(4):
            dom = N(prog, nm, n)
            st, un = run(dom, f, [('sym', 'cx', f['locals'][1])], nm)
            if not un and not dom.violations and n >= len(TYPES[nm]):
                for w in ('errors', ('result', 0), ('result', 1)):
                    if w not in dom.seen:
                        dom.bad(st, 'no %s' % (w,), 'no path %s' % ('throws the parse errors' if w == 'errors' else 'returns the result for minify = %s' % bool(w[1])))
            res['violations'].update(dom.violations)
        res['labels'].append(nm)
    return res


if __name__ == '__main__':
    import facts
    from engine import Prog
    r = run_all(Prog(facts.extract('neonshim')))
    for x, v in sorted(r['violations'].items()):
        print('VIOL', x, '|', v['msg'][:600])
    for u in r['unanalysed']:
        print('UNAN', u[:400])
    print(r['roots'], r['obligations'], r['states'], len(r['functions']), r['labels'])
