"""Path-sensitive abstract interpreter over the extracted MIR.

A state is a stack of frames plus an abstract heap, a set of facts about symbolic
inputs (which enum variants a path may have, whether a list is empty, ...) and a
domain component (typically the state of a specification automaton).  States are
merged when equal after canonicalisation (dead locals dropped, heap renumbered), so
the exploration is a fixpoint over a finite abstraction: no input is chosen, no
solver is asked, nothing is executed.
"""
import json, re, resource, sys, time
import canon
sys.setrecursionlimit(100000)

# what a run may cost before it gives up (and says so)
T0 = time.time()
MAX_SECONDS = 600
MAX_KB = 3200000

TOPBOOL = ('top', None)


class Prune(Exception):
    """The abstract state is infeasible."""


class Split(Exception):
    """Evaluation needs a fact; fork the state with each alternative."""
    def __init__(self, key, alts):
        self.key = key
        self.alts = alts


class SplitVal(Exception):
    """A local/heap rewriting fork: list of callables applied to copies of the state."""
    def __init__(self, fns):
        self.fns = fns


class EngineLimit(Exception):
    pass


class Unmodelled(Exception):
    pass


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.fns = d['fns']
        self.types = d['types']
        self.statics = d['statics']
        self.by_name = {}
        for f in self.fns:
            f.setdefault('targs', [])
            self.by_name.setdefault(f['name'], f)
        self._prep = {}
        self._const = {}
        self._live = {}
        self.unanchored = canon.fields(self)
        self.anchors, lost = canon.anchors(self)
        self.unanchored += lost

    def find(self, pat, body=True):
        r = re.compile(pat)
        return [f for f in self.fns if r.search(f['name']) and (not body or 'blocks' in f)]

    def ty(self, t):
        return self.types[t]

    def adt_name(self, t):
        ty = self.types[t]
        return ty.get('name') if ty['k'] == 'adt' else None

    # ---- CFG helpers
    def succs(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]] if False else [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def follow(self, fid, bb):
        """the block control really arrives at when it jumps to bb"""
        n = 0
        while bb is not None and n < 20:
            blk = self.fns[fid]['blocks'][bb]
            if blk['s'] or blk['t'][0] != 'goto':
                break
            bb = blk['t'][1]
            n += 1
        return bb

    def prep(self, fid):
        if fid in self._prep:
            return self._prep[fid]
        f = self.fns[fid]
        n = len(f['blocks'])
        preds = [0] * n
        succ = []
        for b in f['blocks']:
            s = self.succs(b['t'])
            succ.append(s)
            for x in set(s):
                preds[x] += 1
        merge = [p >= 2 for p in preds]
        live = self._liveness(f, succ)
        self._prep[fid] = (merge, live)
        return self._prep[fid]

    def _op_uses(self, o, acc):
        if 'p' in o:
            self._place_uses(o['p'], acc)

    def _place_uses(self, p, acc):
        acc.add(p[0])
        for e in p[1:]:
            if isinstance(e, dict) and 'i' in e:
                acc.add(e['i'])

    def _rv_uses(self, r, acc):
        k = r[0]
        if k == 'use':
            self._op_uses(r[1], acc)
        elif k in ('ref', 'addr', 'discr', 'len'):
            self._place_uses(r[1], acc)
        elif k in ('bin', 'cbin'):
            self._op_uses(r[2], acc)
            self._op_uses(r[3], acc)
        elif k == 'un':
            self._op_uses(r[2], acc)
        elif k == 'cast':
            self._op_uses(r[2], acc)
        elif k == 'agg':
            for o in r[2]:
                self._op_uses(o, acc)
        elif k == 'repeat':
            self._op_uses(r[1], acc)

    def _liveness(self, f, succ):
        blocks = f['blocks']
        n = len(blocks)
        ud = []
        for b in blocks:
            # list of (uses, defs) in order
            seq = []
            for s in b['s']:
                u = set()
                d = None
                if s[0] == '=':
                    self._rv_uses(s[2], u)
                    if len(s[1]) == 1:
                        d = s[1][0]
                    else:
                        self._place_uses(s[1], u)
                else:
                    self._place_uses(s[1], u)
                seq.append((u, d))
            t = b['t']
            u = set()
            d = None
            if t[0] == 'switch':
                self._op_uses(t[1], u)
            elif t[0] == 'call':
                if 'ptr' in t[1]:
                    self._op_uses(t[1]['ptr'], u)
                for a in t[2]:
                    self._op_uses(a, u)
                if len(t[3]) == 1:
                    d = t[3][0]
                else:
                    self._place_uses(t[3], u)
            elif t[0] == 'assert':
                self._op_uses(t[1], u)
            elif t[0] == 'return':
                u.add(0)
            seq.append((u, d))
            ud.append(seq)
        live_in = [frozenset()] * n
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succ[i]:
                    out |= live_in[s]
                for u, d in reversed(ud[i]):
                    if d is not None:
                        out.discard(d)
                    out |= u
                fo = frozenset(out)
                if fo != live_in[i]:
                    live_in[i] = fo
                    changed = True
        return live_in

    # ---- constants
    def const(self, o):
        key = id(o)
        v = self._const.get(key)
        if v is None:
            v = self.decode(o['c'], o.get('t'))
            self._const[key] = v
        return v

    def decode(self, c, t):
        k = c['k']
        if k == 'int':
            return ('i', c['v'])
        if k == 'str':
            return ('ref', ('K', ('str', c['v'])), ())
        if k == 'bytes':
            return ('bytes', bytes(c['v']))
        if k == 'ref':
            return ('ref', ('K', self.decode(c['v'], None)), ())
        if k == 'array':
            return ('arr', tuple(self.decode(x, None) for x in c['v']))
        if k == 'tuple':
            return ('tup', tuple(self.decode(x, None) for x in c['v']))
        if k == 'adt':
            return ('adt', c['t'], c['variant'], tuple(self.decode(x, None) for x in c['v']))
        if k == 'fn':
            return ('fn', c['fn'])
        if k == 'static':
            return ('ref', ('G', c['name']), ())
        if k == 'zst':
            tt = c.get('t', t)
            return self.zst(tt)
        if k == 'addr':
            return ('i', c['v'])
        return ('top', t)

    def zst(self, tt):
        if tt is None:
            return ('tup', ())
        ty = self.types[tt]
        if ty['k'] == 'fndef':
            return ('fn', ty.get('fn'))
        if ty['k'] == 'closure':
            return ('clo', tt, ())
        if ty['k'] == 'adt':
            if len(ty['variants']) == 1:
                return ('adt', tt, 0, tuple(self.zst(x[1]) for x in ty['variants'][0]['fields']))
            return ('top', tt)
        if ty['k'] == 'tuple':
            return ('tup', tuple(self.zst(x) for x in ty['elems']))
        return ('tup', ())

    def static_value(self, name):
        key = ('static', name)
        v = self._const.get(key)
        if v is None:
            s = self.statics[name]
            v = self.decode(s['v'], s['t'])
            self._const[key] = v
        return v


def segments(name):
    """the path of a function without generic arguments"""
    nm, depth = '', 0
    for c in name.replace('->', '  '):
        depth += c in '<{('
        if not depth:
            nm += c
        depth -= c in '>})'
    return [x.strip() for x in nm.split('::') if x.strip()]


class Frame:
    __slots__ = ('fid', 'bb', 'loc', 'ret', 'tgt', 'post')

    def __init__(self, fid, bb, loc, ret, tgt, post=None):
        self.fid = fid
        self.bb = bb
        self.loc = loc
        self.ret = ret
        self.tgt = tgt
        self.post = post

    def copy(self):
        return Frame(self.fid, self.bb, dict(self.loc), self.ret, self.tgt, self.post)


class State:
    __slots__ = ('frames', 'heap', 'facts', 'dom', 'trace', 'nid', 'si', 'resume', 'park')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.dom = None
        self.trace = None
        self.nid = 0
        self.si = 0
        self.resume = False
        self.park = False

    def copy(self):
        s = State()
        s.park = self.park
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.dom = self.dom
        s.trace = self.trace
        s.nid = self.nid
        s.si = self.si
        return s

    def alloc(self, v):
        self.nid += 1
        r = ('H', self.nid)
        self.heap[r] = v
        return r

    def ev(self, x):
        self.trace = (x, self.trace)

    def events(self, limit=40):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out[-limit:]


COLLAPSE = {('Node', 'inner'), ('CopyCell', 'value'), ('UnsafeCell', 'value'), ('Loc', 'item'), ('Cell', 'value')}
WIDTH = {1: 8, 2: 16, 4: 32, 8: 64, 16: 128}


class Engine:
    """One exploration.  `dom` supplies hooks: call(), unknown_store(), ret(), panic(), ..."""

    def __init__(self, prog, dom, max_states=80000, max_depth=80):
        self.p = prog
        self.dom = dom
        self.max_states = max_states
        self.max_depth = max_depth
        self.visited = set()
        self.nstates = 0
        self.nsteps = 0
        self.fns_seen = set()
        self.ticks = 0
        self.bfs = False
        self.parked = {}
        self.calls_seen = set()
        self.unmodelled = {}
        dom.eng = self
        self.models = []
        from models import MODELS
        self._model_cache = {}
        self._allmodels = MODELS

    # ---------- types
    def short(self, tid):
        n = self.p.adt_name(tid)
        return n.split('::')[-1] if n else None

    def fieldname(self, tid, variant, i):
        ty = self.p.types[tid]
        if ty['k'] == 'adt':
            v = ty['variants'][variant or 0]
            if i < len(v['fields']):
                return v['fields'][i][0]
        return str(i)

    def sym_field(self, sym, variant, i, ftid):
        """project field i (under `variant`) of a symbolic value"""
        _, path, tid = sym
        if tid is None:
            return ('sym', path + '.' + str(i), ftid)
        ty = self.p.types[tid]
        if ty['k'] == 'adt':
            v = ty['variants'][variant or 0]
            name = v['fields'][i][0]
            short = self.short(tid)
            if (short, name) in COLLAPSE:
                return ('sym', path, ftid)
            if name == '0' and len(v['fields']) == 1:
                return ('sym', path, ftid)
            return ('sym', path + '.' + name, ftid)
        return ('sym', path + '.' + str(i), ftid)

    def pointee(self, tid):
        if tid is None:
            return None
        ty = self.p.types[tid]
        if ty['k'] in ('ref', 'ptr'):
            return ty['elem']
        if ty['k'] == 'adt' and ty['name'].split('::')[-1] in ('NonNull', 'Unique', 'Box'):
            a = ty.get('args') or []
            return a[0] if a else None
        return None

    def is_ptr(self, tid):
        return tid is not None and self.p.types[tid]['k'] in ('ref', 'ptr')

    # ---------- memory
    def load_root(self, st, root):
        k = root[0]
        if k == 'L':
            v = st.frames[root[1]].loc.get(root[2])
            if v is None:
                return ('top', self.p.fns[st.frames[root[1]].fid]['locals'][root[2]])
            return v
        if k == 'H':
            return st.heap[root]
        if k == 'S':
            return ('sym', root[1], root[2])
        if k == 'K':
            return root[1]
        if k == 'G':
            return self.p.static_value(root[1])
        if k == 'T':
            return ('top', root[1])
        raise Unmodelled('root %r' % (root,))

    def proj1(self, st, v, e):
        k = v[0]
        ek = e[0]
        if ek == 'f':
            if k == 'adt':
                if len(v[3]) <= e[1]:
                    return ('top', e[2])
                return v[3][e[1]]
            if k == 'tup':
                if len(v[1]) <= e[1]:
                    return ('top', e[2])
                return v[1][e[1]]
            if k == 'clo':
                return v[2][e[1]]
            if k == 'sym':
                return self.sym_field(v, None, e[1], e[2])
            if k == 'symv':
                return self.sym_field(('sym', v[1], v[2]), v[3], e[1], e[2])
            if k == 'top' or k == 'topv':
                return ('top', e[2])
            r = self.dom.proj(st, v, e)
            if r is not None:
                return r
            return ('top', e[2])
        if ek == 'v':
            if k == 'adt':
                if v[2] != e[1]:
                    raise Prune()
                return v
            if k == 'sym':
                return ('symv', v[1], v[2], e[1])
            return v
        if ek == 'ix':
            iv = e[1]
            if k in ('arr', 'bytes'):
                seq = v[1]
                if iv[0] == 'i':
                    if iv[1] >= len(seq):
                        raise Prune()
                    x = seq[iv[1]]
                    return ('i', x) if k == 'bytes' else x
            r = self.dom.index(st, v, iv)
            if r is not None:
                return r
            if k in ('arr', 'bytes'):
                return ('top', None)
            if k == 'sym':
                ty = self.p.types[v[2]] if v[2] is not None else {}
                if iv[0] == 'i':
                    return ('sym', '%s[%d]' % (v[1], iv[1]), ty.get('elem'))
            return ('top', None)
        if ek == 'ci':
            if k in ('arr', 'bytes'):
                seq = v[1]
                i = len(seq) - e[1] if e[2] else e[1]
                if i < 0 or i >= len(seq):
                    raise Prune()
                x = seq[i]
                return ('i', x) if k == 'bytes' else x
            r = self.dom.index(st, v, ('i', e[1]))
            if r is not None:
                return r
            return ('top', None)
        if ek == 'sub':
            if k in ('arr', 'bytes'):
                seq = v[1]
                hi = len(seq) - e[2] if e[3] else e[2]
                return (k, seq[e[1]:hi])
            return ('top', None)
        raise Unmodelled('proj %r' % (e,))

    def load(self, st, root, proj):
        v = self.load_root(st, root)
        for e in proj:
            v = self.proj1(st, v, e)
        return v

    def _update(self, st, v, proj, new):
        if not proj:
            return new
        e = proj[0]
        ek = e[0]
        if ek == 'v':
            if v[0] == 'adt' and v[2] != e[1]:
                # writing a field of another variant before SetDiscriminant
                ty = self.p.types[v[1]]
                v = ('adt', v[1], e[1], tuple(('top', f[1]) for f in ty['variants'][e[1]]['fields']))
            elif v[0] == 'top' and v[1] is not None and self.p.types[v[1]]['k'] == 'adt':
                ty = self.p.types[v[1]]
                v = ('adt', v[1], e[1], tuple(('top', f[1]) for f in ty['variants'][e[1]]['fields']))
            return self._update(st, v, proj[1:], new)
        if ek == 'f':
            if v[0] == 'top' and v[1] is not None:
                ty = self.p.types[v[1]]
                if ty['k'] == 'adt' and ty['variants']:
                    v = ('adt', v[1], 0, tuple(('top', f[1]) for f in ty['variants'][0]['fields']))
                elif ty['k'] == 'tuple':
                    v = ('tup', tuple(('top', x) for x in ty['elems']))
            if v[0] == 'sym':
                # materialise one level
                ty = self.p.types[v[2]]
                if ty['k'] == 'adt' and len(ty['variants']) == 1:
                    fs = ty['variants'][0]['fields']
                    v = ('adt', v[2], 0, tuple(self.sym_field(v, 0, i, f[1]) for i, f in enumerate(fs)))
            if v[0] == 'adt':
                fs = list(v[3])
                fs[e[1]] = self._update(st, fs[e[1]], proj[1:], new)
                return ('adt', v[1], v[2], tuple(fs))
            if v[0] == 'tup':
                fs = list(v[1])
                fs[e[1]] = self._update(st, fs[e[1]], proj[1:], new)
                return ('tup', tuple(fs))
            if v[0] == 'clo':
                fs = list(v[2])
                fs[e[1]] = self._update(st, fs[e[1]], proj[1:], new)
                return ('clo', v[1], tuple(fs))
            return ('top', v[1] if v[0] == 'top' else None)
        if ek in ('ix', 'ci'):
            i = e[1] if ek == 'ci' else (e[1][1] if e[1][0] == 'i' else None)
            if v[0] == 'arr' and i is not None and i < len(v[1]):
                fs = list(v[1])
                fs[i] = self._update(st, fs[i], proj[1:], new)
                return ('arr', tuple(fs))
            return ('top', None)
        return ('top', None)

    def store(self, st, root, proj, val):
        k = root[0]
        if k == 'L':
            fr = st.frames[root[1]]
            if not proj:
                fr.loc[root[2]] = val
            else:
                old = self.load_root(st, root)
                fr.loc[root[2]] = self._update(st, old, proj, val)
            return
        if k == 'H':
            st.heap[root] = self._update(st, st.heap[root], proj, val) if proj else val
            self.dom.stored(st, root, proj, val)
            return
        self.dom.unknown_store(st, root, proj, val)

    def lvalue(self, st, place):
        d = len(st.frames) - 1
        root = ('L', d, place[0])
        proj = ()
        fr = st.frames[-1]
        for e in place[1:]:
            if e == '*':
                v = self.load(st, root, proj)
                root, proj = self.deref(st, v)
            elif 'f' in e:
                proj = proj + (('f', e['f'], e['t']),)
            elif 'v' in e:
                proj = proj + (('v', e['v']),)
            elif 'i' in e:
                iv = self.load_root(st, ('L', d, e['i']))
                proj = proj + (('ix', iv),)
            elif 'c' in e:
                proj = proj + (('ci', e['c'], e['e']),)
            elif 's' in e:
                proj = proj + (('sub', e['s'][0], e['s'][1], e['e']),)
        return root, proj

    def deref(self, st, v):
        k = v[0]
        if k == 'ref':
            return v[1], v[2]
        if k == 'sym' or k == 'symv':
            return ('S', v[1], self.pointee(v[2])), ()
        if k == 'top':
            return ('T', self.pointee(v[1])), ()
        r = self.dom.deref(st, v)
        if r is not None:
            return r
        if k == 'adt' and len(v[3]) >= 1:
            # Box / NonNull / Unique wrappers
            return self.deref(st, v[3][0])
        return ('T', None), ()

    def mkref(self, st, root, proj):
        """a pointer value to root.proj; symbolic places collapse to symbolic pointers"""
        if root[0] in ('S',):
            v = self.load(st, root, proj)
            if v[0] == 'sym':
                return ('ref', ('S', v[1], v[2]), ())
            if v[0] == 'symv':
                return ('ref', ('S', v[1], v[2]), ())
            r = self.dom.refof(st, v)
            if r is not None:
                return r
            return ('ref', ('K', v), ())
        if root[0] == 'T':
            v = self.load(st, root, proj)
            return ('ref', ('T', v[1] if v[0] == 'top' else None), ())
        if root[0] in ('K', 'G') and proj:
            return ('ref', ('K', self.load(st, root, proj)), ())
        return ('ref', root, proj)

    # ---------- facts
    def variants(self, st, path, tid):
        f = st.facts.get((path, tid))
        if f is not None:
            return f
        n = len(self.p.types[tid]['variants'])
        return frozenset(range(n))

    # ---------- rvalues
    def operand(self, st, o):
        if 'p' in o:
            p = o['p']
            if len(p) == 1:
                return self.load_root(st, ('L', len(st.frames) - 1, p[0]))
            root, proj = self.lvalue(st, p)
            return self.dom.loaded(st, root, proj, self.load(st, root, proj))
        return self.p.const(o)

    def op_ty(self, st, o):
        """type id of an operand when statically obvious"""
        if 'p' in o:
            p = o['p']
            f = self.p.fns[st.frames[-1].fid]
            if len(p) == 1:
                return f['locals'][p[0]]
            last = p[-1]
            if isinstance(last, dict) and 'f' in last:
                return last['t']
            return None
        return o.get('t')

    def discr_val(self, tid, variant):
        ty = self.p.types[tid]
        return ty['variants'][variant]['discr']

    def rvalue(self, st, r, dest_t):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'addr'):
            root, proj = self.lvalue(st, r[1])
            return self.mkref(st, root, proj)
        if k == 'discr':
            root, proj = self.lvalue(st, r[1])
            v = self.load(st, root, proj)
            if v[0] == 'adt':
                return ('i', self.discr_val(v[1], v[2]))
            if v[0] in ('sym', 'symv') and v[2] is not None and self.p.types[v[2]]['k'] == 'adt':
                fs = self.variants(st, v[1], v[2])
                if len(fs) == 1:
                    return ('i', self.discr_val(v[2], next(iter(fs))))
                return ('sdiscr', v[1], v[2])
            r2 = self.dom.discr(st, v)
            if r2 is not None:
                return r2
            return ('top', None)
        if k == 'len':
            root, proj = self.lvalue(st, r[1])
            v = self.load(st, root, proj)
            return self.length(st, v)
        if k in ('bin', 'cbin'):
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            v = self.binop(st, r[1], a, b, self.op_ty(st, r[2]))
            over = self.overflows(st, r[1], a, b, v, self.op_ty(st, r[2]))
            if k == 'cbin' or r[1].endswith('WithOverflow'):
                return ('tup', (v, ('i', over)))
            return v
        if k == 'un':
            a = self.operand(st, r[2])
            return self.unop(st, r[1], a, self.op_ty(st, r[2]))
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], self.op_ty(st, r[2]))
        if k == 'agg':
            ops = tuple(self.operand(st, o) for o in r[2])
            a = r[1]
            if a == 'array':
                return ('arr', ops)
            if a == 'tuple':
                return ('tup', ops)
            if a == 'rawptr':
                return ops[0] if ops else ('top', None)
            if isinstance(a, dict):
                if 'closure' in a:
                    return ('clo', a['closure'], ops)
                if a.get('ufield') is not None:
                    return ops[0]
                return ('adt', a['t'], a['variant'], ops)
            return ('top', None)
        if k == 'repeat':
            v = self.operand(st, r[1])
            if r[2] <= 300:
                return ('arr', (v,) * r[2])
            return ('top', None)
        return ('top', None)

    def length(self, st, v):
        if v[0] in ('str',):
            return ('i', len(v[1].encode()))
        if v[0] in ('bytes', 'arr'):
            return ('i', len(v[1]))
        r = self.dom.length(st, v)
        if r is not None:
            return r
        if v[0] == 'sym':
            return ('lenof', v[1])
        return ('top', None)

    def wrap(self, n, tid):
        if tid is None:
            return n
        ty = self.p.types[tid]
        if ty['k'] == 'int' and ty['size'] in WIDTH:
            bits = WIDTH[ty['size']]
            n &= (1 << bits) - 1
            if ty['signed'] and n >> (bits - 1):
                n -= 1 << bits
        return n

    def binop(self, st, op, a, b, ty):
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if op == 'Add' and y == 1 and x >= 2 and self.dom.counters:
                return ('cnt', x + 1)
            if op == 'Add': return ('i', self.wrap(x + y, ty))
            if op == 'Sub': return ('i', self.wrap(x - y, ty))
            if op == 'Mul': return ('i', self.wrap(x * y, ty))
            if op == 'Div': return ('i', abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) if y else TOPBOOL
            if op == 'Rem': return ('i', x % y if x >= 0 else -((-x) % abs(y))) if y else TOPBOOL
            if op == 'BitAnd': return ('i', x & y)
            if op == 'BitOr': return ('i', x | y)
            if op == 'BitXor': return ('i', x ^ y)
            if op == 'Shl': return ('i', self.wrap(x << (y & 127), ty))
            if op == 'Shr': return ('i', self.wrap(x >> (y & 127), ty))
            if op == 'Eq': return ('i', int(x == y))
            if op == 'Ne': return ('i', int(x != y))
            if op == 'Lt': return ('i', int(x < y))
            if op == 'Le': return ('i', int(x <= y))
            if op == 'Gt': return ('i', int(x > y))
            if op == 'Ge': return ('i', int(x >= y))
            if op == 'Cmp': return ('top', None)
            if op == 'Offset': return ('i', x + y)
        r = self.dom.binop(st, op, a, b, ty)
        if r is not None:
            return r
        if b[0] == 'cnt' and a[0] == 'i':
            a, b = b, a
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op if op != 'Sub' else '?')
        if a[0] == 'cnt' and b[0] == 'i':
            # a counter that has passed its last distinguished value: anything from there on
            c, y = a[1], b[1]
            if op == 'Add' and y >= 0: return a
            if op == 'Sub' and 0 <= y <= c: return ('cnt', c - y)
            if op in ('Eq', 'Ne') and y < c: return ('i', int(op == 'Ne'))
            if op in ('Lt', 'Ge') and y <= c: return ('i', int(op == 'Ge'))
            if op in ('Le', 'Gt') and y < c: return ('i', int(op == 'Gt'))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            # symbolic discriminants
            for x in (a, b):
                if x[0] == 'sdiscr':
                    vs = self.variants(st, x[1], x[2])
                    other = b if x is a else a
                    if other[0] == 'i' and op in ('Eq', 'Ne'):
                        eq = frozenset(v for v in vs if self.discr_val(x[2], v) == other[1])
                        rest = vs - eq
                        if not eq:
                            return ('i', int(op == 'Ne'))
                        if not rest:
                            return ('i', int(op == 'Eq'))
                        raise Split((x[1], x[2]), [eq, rest])
                    if len(vs) > 1:
                        raise Split((x[1], x[2]), [frozenset([v]) for v in sorted(vs)])
                    return self.binop(st, op, ('i', self.discr_val(x[2], min(vs))) if x is a else a,
                                      ('i', self.discr_val(x[2], min(vs))) if x is b else b, ty)
            if a == b and a[0] in ('sym', 'lenof'):
                return ('i', int(op in ('Eq', 'Le', 'Ge')))
            if a[0] in ('ref', 'fn') and b[0] in ('ref', 'fn') and a == b and op in ('Eq', 'Ne'):
                return ('i', int(op == 'Eq'))
            if a[0] == 'sym' and b[0] in ('i', 'sym') or a[0] == 'i' and b[0] == 'sym':
                return ('cmp', op, a, b)
            return TOPBOOL
        if op in ('BitAnd', 'BitOr') and (a[0] == 'i' or b[0] == 'i'):
            c, o = (a, b) if a[0] == 'i' else (b, a)
            bool_like = o[0] in ('cmp',) or (ty is not None and self.p.types[ty]['k'] == 'bool')
            if bool_like:
                if op == 'BitAnd':
                    return o if c[1] else ('i', 0)
                return ('i', 1) if c[1] else o
        return ('top', None)

    def unop(self, st, op, a, ty):
        if a[0] == 'i':
            if op == 'Not':
                t = self.p.types[ty] if ty is not None else None
                if t and t['k'] == 'bool':
                    return ('i', 1 - a[1])
                return ('i', self.wrap(~a[1], ty))
            if op == 'Neg':
                return ('i', self.wrap(-a[1], ty))
        if op == 'PtrMetadata':
            if a[0] == 'ref':
                v = self.load(st, a[1], a[2])
                return self.length(st, v)
            if a[0] == 'sym':
                return ('lenof', a[1])
            r = self.dom.length(st, a)
            if r is not None:
                return r
        if op == 'Not':
            if a[0] == 'not':
                return a[1]
            return ('not', a)
        return ('top', None)

    def overflows(self, st, op, a, b, v, tid):
        """can checked arithmetic of a type too small for a count (fewer than 32 bits) overflow?"""
        ty = self.p.types[tid] if tid is not None else None
        if ty is None or ty['k'] != 'int' or WIDTH.get(ty['size'], 64) >= 32:
            return 0
        op = op[:3]
        if a[0] == 'i' and b[0] == 'i' and v[0] == 'i':
            exact = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}.get(op)
            return int(exact is not None and exact != v[1])
        if op in ('Add', 'Mul'):
            self.dom.small_overflow(st, a, b, WIDTH[ty['size']])
        return 0

    def narrowed(self, t, src_t=None):
        """does a conversion to this integer type lose bits of a position or length?"""
        a = self.p.types[t]
        b = self.p.types[src_t] if src_t is not None else None
        return a['k'] == 'int' and WIDTH.get(a['size'], 64) < 32 and (b is None or b['k'] == 'int' and WIDTH.get(b['size'], 64) > WIDTH.get(a['size'], 64))

    def cast(self, st, kind, v, t, src_t):
        if kind in ('ReifyFn', 'ClosureFn', 'UnsafeFn'):
            return v
        if kind in ('Unsize', 'ArrayToPtr', 'Ptr'):
            return v
        ty = self.p.types[t]
        if kind in ('IntToInt',):
            if v[0] == 'i':
                return ('i', self.wrap(v[1], t))
            r = self.dom.intcast(st, v, t)
            if r is not None:
                return r
            if self.narrowed(t, src_t) and v[0] not in ('cnt', 'cmp', 'not', 'sdiscr'):
                return ('top', t)
            if v[0] == 'sdiscr':
                return v
            if v[0] == 'sym':
                return ('sym', v[1], t)
            return ('top', t) if v[0] == 'top' else v
        if v[0] == 'ref' and ty['k'] in ('ref', 'ptr'):
            if v[1][0] == 'S':
                pe = ty['elem']
                if self.p.types[pe]['k'] not in ('str', 'slice'):
                    return ('ref', ('S', v[1][1], pe), ())
                return ('ref', ('S', v[1][1], pe), ())
            return v
        if v[0] == 'sym':
            if ty['k'] in ('ref', 'ptr') and self.is_ptr(v[2]):
                return ('sym', v[1], t)
            if kind == 'Transmute':
                return ('sym', v[1], t)
            return v
        if v[0] == 'i':
            return v
        if v[0] == 'adt' and kind == 'Transmute' and ty['k'] in ('ref', 'ptr'):
            return v[3][0] if v[3] else v
        if v[0] == 'top':
            return ('top', t)
        return v

    # ---------- canonical key
    def key(self, st):
        return self.dom.fullkey(st) or self.basekey(st, None)

    def basekey(self, st, repl):
        """repl(v) -> replacement for values tagged '@' (positions), or None to keep them"""
        ren = {}
        order = []
        out = []
        nfr = len(st.frames)
        live_locals = []
        for d in range(nfr):
            fr = st.frames[d]
            _, live = self.p.prep(fr.fid)
            if d == nfr - 1:
                ll = live[fr.bb]
            else:
                cal = st.frames[d + 1]
                ll = live[cal.tgt] if cal.tgt is not None else frozenset()
                if cal.ret is not None and cal.ret[0] == ('L', d, cal.ret[0][-1]) and not cal.ret[1]:
                    ll = ll - {cal.ret[0][2]}
            live_locals.append(set(ll))
        done = [set() for _ in range(nfr)]
        work = []
        res = {}
        for d in range(nfr):
            for l in sorted(live_locals[d]):
                work.append((d, l))
        heapwork = []
        seenH = set()

        def walk(v):
            if isinstance(v, tuple):
                if repl is not None and len(v) == 2 and v[0] == '@':
                    return repl(v)
                if len(v) == 3 and v[0] == 'ref' and isinstance(v[1], tuple):
                    root = v[1]
                    if root[0] == 'L':
                        if root[1] < nfr:
                            work.append((root[1], root[2]))
                        return v if not v[2] else ('ref', root, v[2])
                    if root[0] == 'H':
                        if root not in ren:
                            ren[root] = ('H', 'c%d' % len(ren))
                            heapwork.append(root)
                        return ('ref', ren[root], v[2])
                    if repl is not None:
                        return ('ref', tuple(walk(x) for x in root), tuple(walk(x) for x in v[2]))
                    return v
                if not v:
                    return v
                return tuple(walk(x) for x in v) if any(isinstance(x, tuple) for x in v) else v
            return v
        domk = walk(self.dom.key(st))
        extra = []
        for r in self.dom.roots(st):
            extra.append(walk(('ref', r, ())))
        for fr in st.frames:
            if fr.post is not None and hasattr(fr.post, 'roots'):
                for r in fr.post.roots():
                    extra.append(walk(('ref', r, ())))
        i = 0
        hv = []
        hi = 0
        while True:
            if i < len(work):
                d, l = work[i]
                i += 1
                if l in done[d]:
                    continue
                done[d].add(l)
                v = st.frames[d].loc.get(l)
                if v is not None:
                    out.append((d, l, walk(v)))
                continue
            if hi < len(heapwork):
                r = heapwork[hi]
                hi += 1
                hv.append((ren[r], walk(st.heap[r])))
                continue
            break
        frk = tuple((fr.fid, fr.bb if d == nfr - 1 or st.frames[d + 1].post is not None else None, self.p.follow(st.frames[d - 1].fid, fr.tgt) if d else fr.tgt, fr.ret)
                    for d, fr in enumerate(st.frames))
        return (frk, tuple(out), tuple(hv), frozenset(st.facts.items()), domk, tuple(extra), frozenset(ren.items()) if False else None)

    # ---------- driver
    def run(self, st):
        work = [st]
        while work or self.parked:
            if not work:
                work = self.join_parked()
            s = work.pop(0 if self.bfs else -1)
            self.nstates += 1
            self.limits()
            self.run_one(s, work)

    def join_parked(self):
        """states waiting at the same place which differ only in facts are replaced by fewer states that
        denote exactly the same set of executions: two conjunctions that differ in one fact become one"""
        out = []
        for sts in self.parked.values():
            out += self.join(sts)
        self.parked = {}
        for s in out:
            s.park = False
        return out

    def full(self, k):
        """the unconstrained value of a fact"""
        if len(k) == 2 and k[0] == '#':
            return frozenset((0, 1, 2))
        if len(k) == 2 and isinstance(k[0], str) and isinstance(k[1], int):
            return frozenset(range(len(self.p.types[k[1]].get('variants') or ())))
        return frozenset((0, 1))

    def join(self, sts):
        cur = {}
        for s in sts:
            f = {k: v for k, v in s.facts.items() if isinstance(v, frozenset) and v != self.full(k)}
            cur.setdefault(frozenset(f.items()), s)
        if len(cur) == 1:
            return list(cur.values())
        keys = sorted({k for fs in cur for k, _ in fs}, key=repr)
        changed = True
        while changed:
            changed = False
            for k in keys:
                groups = {}
                for fs in cur:
                    v = None
                    for it in fs:
                        if it[0] == k:
                            v = it
                            break
                    rest = fs - {v} if v is not None else fs
                    groups.setdefault(rest, []).append((v[1] if v is not None else None, cur[fs]))
                if len(groups) == len(cur):
                    continue
                nxt = {}
                for rest, l in groups.items():
                    u = self.full(k) if any(v is None for v, _ in l) else frozenset().union(*[v for v, _ in l])
                    if u != self.full(k):
                        rest = rest | {(k, u)}
                    nxt.setdefault(rest, l[0][1])
                changed = True
                cur = nxt
        out = []
        for fs, s in cur.items():
            facts = {k: v for k, v in s.facts.items() if not isinstance(v, frozenset)}
            facts.update(fs)
            s.facts = facts
            out.append(s)
        return out

    def limits(self):
        self.ticks += 1
        if self.nstates > self.max_states:
            raise EngineLimit('more than %d abstract states' % self.max_states)
        if self.ticks % 64 == 0:
            if time.time() - T0 > MAX_SECONDS:
                raise EngineLimit('more than %d seconds' % MAX_SECONDS)
            if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > MAX_KB:
                raise EngineLimit('more than %d MB' % (MAX_KB // 1024))
        if self.ticks > 20 * self.max_states:
            raise EngineLimit('more than %d blocks' % self.ticks)

    def run_one(self, st, work):
        """advance st until it ends, merges or forks; push forks to work"""
        check = False
        while True:
            if not st.frames:
                self.dom.end(st)
                return
            fr = st.frames[-1]
            fn = self.p.fns[fr.fid]
            merge, _ = self.p.prep(fr.fid)
            if merge[fr.bb] and st.si == 0:
                if self.bfs:
                    st.resume = not st.resume
                    if st.resume:
                        work.append(st)
                        return
                if st.park:
                    facts = st.facts
                    st.facts = {a: b for a, b in facts.items() if not isinstance(b, frozenset)}
                    k = self.key(st)
                    st.facts = facts
                    self.parked.setdefault(k, []).append(st)
                    return
                k = self.key(st)
                if k in self.visited:
                    self.dom.merged(st, k)
                    return
                self.visited.add(k)
                self.dom.marked(st, k)
                self.limits()
            blk = fn['blocks'][fr.bb]
            try:
                ss = blk['s']
                while st.si < len(ss):
                    s = ss[st.si]
                    self.nsteps += 1
                    if s[0] == '=':
                        dt = None
                        if len(s[1]) == 1:
                            v = self.rvalue(st, s[2], None)
                            fr.loc[s[1][0]] = v
                        else:
                            v = self.rvalue(st, s[2], None)
                            root, proj = self.lvalue(st, s[1])
                            self.store(st, root, proj, v)
                    else:
                        root, proj = self.lvalue(st, s[1])
                        v = self.load(st, root, proj)
                        if v[0] == 'adt':
                            fields = self.p.types[v[1]]['variants'][s[2]]['fields']
                            nv = v if v[2] == s[2] else ('adt', v[1], s[2], tuple(('top', f[1]) for f in fields))
                            self.store(st, root, proj, nv)
                        elif v[0] == 'top' and v[1] is not None:
                            fields = self.p.types[v[1]]['variants'][s[2]]['fields']
                            self.store(st, root, proj, ('adt', v[1], s[2], tuple(('top', f[1]) for f in fields)))
                    st.si += 1
                nxt = self.terminator(st, blk, work)
                if nxt is None:
                    return
                st = nxt
            except Prune:
                return
            except Split as e:
                for a in e.alts:
                    c = st.copy()
                    c.facts[e.key] = a
                    work.append(c)
                return
            except SplitVal as e:
                for g in e.fns:
                    c = st.copy()
                    try:
                        g(c)
                    except Prune:
                        continue
                    work.append(c)
                return

    def goto(self, st, bb):
        st.frames[-1].bb = bb
        st.si = 0
        return st

    def terminator(self, st, blk, work):
        t = blk['t']
        k = t[0]
        self.nsteps += 1
        if k == 'goto':
            return self.goto(st, t[1])
        if k == 'drop':
            self.dom.drop(st, t)
            return self.goto(st, t[2])
        if k == 'assert':
            v = self.operand(st, t[1])
            exp = 1 if t[2] else 0
            if v[0] == 'i' and v[1] != exp:
                self.dom.panic(st, 'assert:' + t[3], self.where(st))
                return None
            if v[0] != 'i':
                self.dom.assert_unknown(st, t[3], v, exp)
            return self.goto(st, t[4])
        if k == 'switch':
            return self.switch(st, t, work)
        if k == 'return':
            return self.do_return(st, work)
        if k == 'call':
            return self.call(st, t, work)
        if k == 'unreachable':
            self.dom.unreachable(st)
            return None
        return None

    def where(self, st):
        fr = st.frames[-1]
        f = self.p.fns[fr.fid]
        blk = f['blocks'][fr.bb]
        return '%s:%s (%s)' % (f.get('span', '?').rsplit(':', 1)[0], blk.get('l'), f['name'][:140])

    def wherefn(self, st):
        """location key without line numbers"""
        for fr in reversed(st.frames):
            f = self.p.fns[fr.fid]
            if f['crate'] not in ('core', 'alloc', 'std', 'toolshed', 'serde_core'):
                return f['name']
        return self.p.fns[st.frames[-1].fid]['name']

    def switch(self, st, t, work):
        v = self.operand(st, t[1])
        br = t[2]
        if v[0] == 'i':
            for val, b in br:
                if val == v[1] or (v[1] < 0 and val in (v[1] & 0xff, v[1] & 0xffff, v[1] & 0xffffffff, v[1] & (1 << 64) - 1)):
                    return self.goto(st, b)
            return self.goto(st, t[3])
        neg = False
        while v[0] == 'not':
            neg = not neg
            v = v[1]
        if v[0] == 'i':
            x = v[1] ^ 1 if neg else v[1]
            for val, b in br:
                if val == x:
                    return self.goto(st, b)
            return self.goto(st, t[3])
        if neg:
            br = [(1 - val, b) for val, b in br]
            # boolean switch: [0 -> b0], otherwise -> b1
            if len(br) == 1:
                val, b = br[0]
                br = [(val, b)]
        if v[0] == 'cnt':
            br = [(val, b) for val, b in br if val >= v[1]]
        alts = self.dom.switch(st, v, br, t[3])
        if alts is None:
            alts = self.switch_alts(st, v, br, t[3])
        # alts: list of (mutator or None, target)
        outs = []
        for m, b in alts:
            c = st if len(alts) == 1 else st.copy()
            if m is not None:
                try:
                    m(c)
                except Prune:
                    continue
            self.goto(c, b)
            outs.append(c)
        if not outs:
            return None
        for c in outs[1:]:
            work.append(c)
        return outs[0]

    def switch_alts(self, st, v, br, other):
        if v[0] == 'sdiscr':
            path, tid = v[1], v[2]
            vs = self.variants(st, path, tid)
            groups = {}
            for x in vs:
                d = self.discr_val(tid, x)
                tgt = other
                for val, b in br:
                    if val == d:
                        tgt = b
                        break
                groups.setdefault(tgt, set()).add(x)
            res = []
            for b in sorted(groups):
                fs = frozenset(groups[b])
                def m(c, fs=fs):
                    c.facts[(path, tid)] = fs
                res.append((m, b))
            return res
        if v[0] in ('sym', 'cmp', 'lenof', 'streq'):
            key = v
            got = st.facts.get(key)
            if v[0] == 'cmp' or v[0] == 'streq' or (v[0] == 'sym' and v[2] is not None and self.p.types[v[2]]['k'] == 'bool'):
                dom = got if got is not None else frozenset((0, 1))
                res = []
                groups = {}
                for x in dom:
                    tgt = other
                    for val, b in br:
                        if val == x:
                            tgt = b
                    groups.setdefault(tgt, set()).add(x)
                for b in sorted(groups):
                    fs = frozenset(groups[b])
                    def m(c, fs=fs):
                        c.facts[key] = fs
                    res.append((m, b))
                return res
            # integer symbol: remember excluded values
            exc = got[1] if got is not None and got[0] == 'not' else frozenset()
            if got is not None and got[0] == 'is':
                for val, b in br:
                    if val == got[1]:
                        return [(None, b)]
                return [(None, other)]
            res = []
            for val, b in br:
                if val in exc:
                    continue
                def m(c, val=val):
                    c.facts[key] = ('is', val)
                res.append((m, b))
            ne = exc | frozenset(val for val, _ in br)
            def m2(c):
                c.facts[key] = ('not', ne)
            res.append((m2, other))
            return res
        seen = []
        for _, b in br:
            if b not in seen:
                seen.append(b)
        if other not in seen:
            seen.append(other)
        return [(None, b) for b in seen]

    def do_return(self, st, work):
        fr = st.frames[-1]
        val = self.load_root(st, ('L', len(st.frames) - 1, 0))
        if fr.post is not None:
            alts = fr.post(self, st, val)
            if alts == 'again':
                if st.park:
                    facts = st.facts
                    st.facts = {a: b for a, b in facts.items() if not isinstance(b, frozenset)}
                    k = self.key(st)
                    st.facts = facts
                    self.parked.setdefault(k, []).append(st)
                    return
                k = self.key(st)
                if k in self.visited:
                    return None
                self.visited.add(k)
                return st
            if alts is not None:
                val = alts
        if len(st.frames) == 1:
            saved = (st.dom, st.trace, dict(st.facts), dict(st.heap))
            try:
                self.dom.ret(st, val)
            except Split:
                st.dom, st.trace, st.facts, st.heap = saved
                raise
            return None
        st.frames.pop()
        if fr.tgt is None:
            return None
        root, proj = fr.ret
        self.store(st, root, proj, val)
        return self.goto(st, fr.tgt)

    def push_call(self, st, fid, args, ret, tgt, post=None):
        fn = self.p.fns[fid]
        if len(st.frames) >= self.max_depth:
            raise EngineLimit('inlining depth in %s' % fn['name'])
        if sum(1 for f in st.frames if f.fid == fid) >= 3:
            raise EngineLimit('recursion through %s is not cut by the analysis' % fn['name'])
        self.fns_seen.add(fid)
        argc = fn['argc']
        if len(args) != argc:
            args = self.adapt_args(st, fn, args)
        loc = {i + 1: a for i, a in enumerate(args)}
        st.frames.append(Frame(fid, 0, loc, ret, tgt, post))
        st.si = 0
        return st

    def adapt_args(self, st, fn, args):
        argc = fn['argc']
        if len(args) == 2 and args[1][0] == 'tup' and len(args[1][1]) + 1 == argc:
            return [args[0]] + list(args[1][1])
        raise Unmodelled('argument count of %s: %d given, %d expected' % (fn['name'], len(args), argc))

    def is_closure_ty(self, t):
        ty = self.p.types[t]
        if ty['k'] == 'ref':
            ty = self.p.types[ty['elem']]
        return ty['k'] == 'closure'

    def resolve_shim(self, st, fn, args):
        """-> (fid, args) for closure / fn-pointer shims"""
        name = fn['name']
        if fn['kind'] != 'shim' or not fn['targs']:
            return None
        if 'call_once' not in name and 'call_mut' not in name and '::call' not in name:
            return None
        ty = self.p.types[fn['targs'][0]]
        if ty['k'] == 'closure' and ty.get('fn') is not None:
            body = self.p.fns[ty['fn']]
            l1 = body['locals'][1]
            if args and (args[0][0] == 'clo' or (args[0][0] == 'ref' and self.load(st, args[0][1], args[0][2])[0] == 'clo')):
                clo = args[0]
                rest = args[1:]
            else:
                clo = ('clo', fn['targs'][0], ())
                rest = args
            if self.p.types[l1]['k'] == 'ref':
                if clo[0] == 'clo':
                    clo = ('ref', st.alloc(clo), ())
            elif clo[0] == 'ref':
                clo = self.load(st, clo[1], clo[2])
            if len(rest) == 1 and rest[0][0] == 'tup' and body['argc'] == 1 + len(rest[0][1]):
                rest = list(rest[0][1])
            return ty['fn'], [clo] + list(rest)
        if ty['k'] == 'fndef' and ty.get('fn') is not None:
            rest = args
            if args and args[0][0] in ('fn', 'tup') and len(args) == 2:
                rest = args[1:]
            if len(rest) == 1 and rest[0][0] == 'tup':
                rest = list(rest[0][1])
            return ty['fn'], list(rest)
        if ty['k'] == 'fnptr' and args and args[0][0] == 'fn':
            rest = args[1:]
            if len(rest) == 1 and rest[0][0] == 'tup':
                rest = list(rest[0][1])
            return args[0][1], list(rest)
        return None

    def call(self, st, t, work):
        f = t[1]
        args = [self.operand(st, o) for o in t[2]]
        ret = self.lvalue(st, t[3])
        tgt = t[4]
        decl = None
        if 'fn' in f:
            fid = f['fn']
            decl = f.get('decl')
        elif 'ptr' in f:
            pv = self.operand(st, f['ptr'])
            if pv[0] == 'fn' and pv[1] is not None:
                fid = pv[1]
            elif pv[0] == 'clo':
                fid = self.p.types[pv[1]].get('fn')
                args = [pv] + args
                if self.p.types[self.p.fns[fid]['locals'][1]]['k'] == 'ref':
                    args[0] = ('ref', st.alloc(pv), ())
            else:
                r = self.dom.indirect(st, pv, args)
                if r is None:
                    raise Unmodelled('indirect call through %r in %s' % (pv[:2], self.where(st)))
                return self.finish(st, r, ret, tgt, work)
        else:
            fid = None
            decl = f.get('unresolved')
        return self.dispatch(st, fid, decl, args, ret, tgt, work)

    def dispatch(self, st, fid, decl, args, ret, tgt, work):
        for it in range(6):
            fn = self.p.fns[fid] if fid is not None else {'name': decl, 'crate': '?', 'kind': 'unresolved', 'targs': []}
            saved = (st.dom, st.trace, dict(st.facts), dict(st.heap))
            try:
                r = self.dom.call(st, fn, decl, args)
            except Split:
                st.dom, st.trace, st.facts, st.heap = saved
                raise
            if r is not None:
                return self.finish(st, r, ret, tgt, work)
            sh = self.resolve_shim(st, fn, args)
            if sh is None:
                if it == 0 and decl and 'ops::Fn' in decl and len(args) == 2 and args[1][0] == 'tup' \
                        and fn.get('argc') == 1 + len(args[1][1]) and 'locals' in fn and self.is_closure_ty(fn['locals'][1]):
                    args = [args[0]] + list(args[1][1])
                break
            fid, args = sh
        m = self.model_for(fn)
        for mm in m:
            r = mm(self, st, fn, args)
            if r is not None:
                return self.finish(st, r, ret, tgt, work)
        if 'blocks' in fn:
            if tgt is None:
                pass
            return self.push_call(st, fid, args, ret, tgt)
        if tgt is None:
            self.dom.panic(st, fn['name'], self.where(st))
            return None
        c = self.extremum(st, fn, args)
        if c is not None:
            return self.finish(st, c, ret, tgt, work)
        c = self.constructor(st, fn, args, ret)
        if c is not None:
            return self.finish(st, [(None, c)], ret, tgt, work)
        r = self.dom.unknown_call(st, fn, args)
        self.unmodelled[fn['name']] = self.unmodelled.get(fn['name'], 0) + 1
        if r is None:
            rt = None
            r = [(None, ('top', self.ret_ty(st, ret)))]
        return self.finish(st, r, ret, tgt, work)

    def extremum(self, st, fn, args):
        """the smaller or the larger of two numbers"""
        m = re.search(r'intrinsics::integer_(min|max)::', fn['name'])
        if not m or len(args) != 2:
            return None
        a, b = args
        if a == b:
            return [(None, a)]
        r = self.binop(st, 'Lt', a, b, None)
        yes, no = (a, b) if m.group(1) == 'min' else (b, a)
        if r[0] == 'i':
            return [(None, yes if r[1] else no)]
        if r[0] != 'cmp':
            return None
        out = []
        for x in sorted(st.facts.get(r, frozenset((0, 1)))):
            def g(c, x=x):
                c.facts[r] = frozenset((x,))
            out.append((g, yes if x else no))
        return out

    def constructor(self, st, fn, args, ret):
        """the name of a tuple variant or struct used as a function"""
        if 'blocks' in fn or not args:
            return None
        rt = self.ret_ty(st, ret)
        t = self.p.types[rt] if rt is not None else None
        if not t or t['k'] != 'adt':
            return None
        segs = segments(fn['name'])
        for i, v in enumerate(t['variants']):
            if segs and v['name'] == segs[-1] and len(v['fields']) == len(args) and (len(t['variants']) == 1 or len(segs) > 1 and segs[-2] == self.short(rt)):
                return ('adt', rt, i, tuple(args))
        return None

    def ret_ty(self, st, ret):
        root, proj = ret
        if root[0] == 'L' and not proj:
            return self.p.fns[st.frames[root[1]].fid]['locals'][root[2]]
        if proj and proj[-1][0] == 'f':
            return proj[-1][2]
        return None

    def model_for(self, fn):
        n = fn['name']
        r = self._model_cache.get(n)
        if r is None:
            r = [g for rx, g in self._allmodels if rx.search(n)]
            self._model_cache[n] = r
        return r

    def finish(self, st, r, ret, tgt, work):
        """r: list of (mutator|None, value); or ('inline', fid, args[, post]); or 'prune'"""
        if isinstance(r, tuple) and r and r[0] == 'inline':
            return self.push_call(st, r[1], list(r[2]), ret, tgt, r[3] if len(r) > 3 else None)
        if isinstance(r, tuple) and r and r[0] == 'redirect':
            return self.dispatch(st, r[1], None, list(r[2]), ret, tgt, work)
        if r == 'go':
            return st
        if r == 'prune' or tgt is None:
            return None
        outs = []
        for m, val in r:
            c = st if len(r) == 1 else st.copy()
            if m is not None:
                try:
                    v2 = m(c)
                except Prune:
                    continue
                if val is None:
                    val = v2
            self.store(c, ret[0], ret[1], val)
            self.goto(c, tgt)
            outs.append(c)
        if not outs:
            return None
        for c in outs[1:]:
            work.append(c)
        return outs[0]


class Domain:
    """Default hooks."""
    def __init__(self):
        self.violations = {}

    def report(self, st, key, msg, where=None):
        if key not in self.violations:
            tr = [str(x) for x in st.events()] if st is not None else []
            self.violations[key] = {'key': key, 'msg': msg, 'where': where or (self.eng.where(st) if st is not None and st.frames else ''), 'trace': tr}

    def key(self, st): return st.dom
    def fullkey(self, st): return None
    def merged(self, st, k): pass
    def marked(self, st, k): pass
    def roots(self, st): return ()
    def call(self, st, fn, decl, args): return None
    def unknown_call(self, st, fn, args): return None
    def indirect(self, st, pv, args): return None
    def panic(self, st, what, where): pass
    def assert_unknown(self, st, msg, v, exp): pass
    def small_overflow(self, st, a, b, bits): pass
    def unreachable(self, st): pass
    def ret(self, st, val): pass
    def end(self, st): pass
    def drop(self, st, t): pass
    def proj(self, st, v, e): return None
    def index(self, st, v, iv): return None
    def deref(self, st, v): return None
    def refof(self, st, v): return None
    def loaded(self, st, root, proj, v): return v
    def discr(self, st, v): return None
    def length(self, st, v): return None
    counters = False     # counting up by one stops at 3 ("3 or more")

    def binop(self, st, op, a, b, ty): return None
    def intcast(self, st, v, t): return None
    def switch(self, st, v, br, other): return None
    def stored(self, st, root, proj, val): pass
    def unknown_store(self, st, root, proj, val):
        pass
