"""Models of std / toolshed functions used by the abstract interpreter."""
import re
from engine import Prune, Split, TOPBOOL, Unmodelled

MODELS = []


def model(rx):
    r = re.compile(rx)

    def deco(f):
        MODELS.append((r, f))
        return f
    return deco


def some(eng, tid, v):
    return ('adt', tid, 1, (v,))


def none(eng, tid):
    return ('adt', tid, 0, ())


def ret_t(fn):
    return fn['locals'][0] if 'locals' in fn else None


def list_of(eng, st, v):
    """resolve an argument (list value or reference to one) to the list value"""
    if v[0] == 'ref':
        v = eng.load(st, v[1], v[2])
    return v


def elem_t(eng, tid):
    a = eng.p.types[tid].get('args') or []
    return a[0] if a else None


def lenset(st, path):
    return st.facts.get(('#', path), frozenset((0, 1, 2)))


# ---------------------------------------------------------------- toolshed lists
@model(r'toolshed::list::List::<.*>::iter$|<&?toolshed::list::List<.*> as std::iter::IntoIterator>::into_iter$')
def m_iter(eng, st, fn, args):
    l = list_of(eng, st, args[0])
    if l[0] == 'sym':
        return [(None, ('liter', l[1], elem_t(eng, l[2]), 0))]
    return None


def rename_paths(eng, st, old, new):
    def sub(v):
        if isinstance(v, tuple):
            if len(v) >= 3 and v[0] in ('sym', 'S', 'symv') and isinstance(v[1], str) and v[1].startswith(old):
                return (v[0], new + v[1][len(old):]) + tuple(v[2:])
            if len(v) >= 3 and v[0] == 'sym' and isinstance(v[1], str) and v[1][:1] == '@' and old in v[1]:
                return (v[0], v[1].replace(old, new)) + tuple(v[2:])
            return tuple(sub(x) for x in v) if v else v
        return v
    for fr in st.frames:
        for k in list(fr.loc):
            fr.loc[k] = sub(fr.loc[k])
    for k in list(st.heap):
        st.heap[k] = sub(st.heap[k])


def drop_facts(st, prefix):
    for k in list(st.facts):
        if isinstance(k, tuple):
            p = k[1] if k[0] in ('#', 'sym', 'pend', 'end', 'skip') else k[0]
            if isinstance(p, str) and p.startswith(prefix):
                del st.facts[k]
            elif k[0] in ('cmp', 'streq') and prefix in repr(k):
                del st.facts[k]


@model(r'<toolshed::list::ListIter<.*> as std::iter::Iterator>::next$')
def m_next(eng, st, fn, args):
    ref = args[0]
    it = eng.load(st, ref[1], ref[2])
    if it[0] != 'liter':
        return None
    _, path, et, pos = it
    rt = ret_t(fn)
    ls = lenset(st, path)
    out = []
    lo = frozenset(x for x in ls if x <= pos and x < 2) if pos < 2 else None

    def fin(c):
        if pos < 2:
            c.facts[('#', path)] = lo
        c.facts[('end', path)] = 1

    def adv(c):
        if pos < 2:
            c.facts[('#', path)] = frozenset(x for x in ls if x > pos)
        else:
            c.facts[('#', path)] = frozenset((2,))
        if c.facts.get(('pend', path)):
            c.facts[('skip', path)] = 1
        c.facts[('pend', path)] = 1
        c.facts.pop(('end', path), None)
        if pos >= 1:
            rename_paths(eng, c, path + '[+]', path + '[old]')
            drop_facts(c, path + '[+]')
        npos = pos + 1 if pos < 2 else 2
        eng.store(c, ref[1], ref[2], ('liter', path, et, npos))
        name = path + ('[0]' if pos == 0 else '[+]')
        return some(eng, rt, ('ref', ('S', name, et), ()))
    if pos >= 2:
        return [(fin, none(eng, rt)), (adv, None)]
    if lo:
        out.append((fin, none(eng, rt)))
    if any(x > pos for x in ls):
        out.append((adv, None))
    return out


@model(r'<toolshed::list::ListIter<.*> as std::iter::Iterator>::last$')
def m_last(eng, st, fn, args):
    it = args[0]
    if it[0] != 'liter':
        return None
    _, path, et, pos = it
    rt = ret_t(fn)
    ls = lenset(st, path)
    if pos >= 2:
        raise Unmodelled('last element after a loop')
    lo = frozenset(x for x in ls if x <= pos)
    hi = frozenset(x for x in ls if x > pos)
    out = []

    def fin(c):
        c.facts[('#', path)] = lo
        c.facts[('end', path)] = 1

    def one(c):
        c.facts[('#', path)] = frozenset((1,))
        c.facts[('end', path)] = 1
        return some(eng, rt, ('ref', ('S', path + '[0]', et), ()))

    def many(c):
        c.facts[('#', path)] = frozenset((2,))
        c.facts[('end', path)] = 1
        return some(eng, rt, ('ref', ('S', path + '[last]', et), ()))
    if lo:
        out.append((fin, none(eng, rt)))
    if 1 in hi:
        out.append((one, None))
    if 2 in hi:
        out.append((many, None))
    return out


@model(r'toolshed::list::List::<.*>::is_empty$')
def m_is_empty(eng, st, fn, args):
    l = list_of(eng, st, args[0])
    if l[0] != 'sym':
        return None
    ls = lenset(st, l[1])
    out = []
    e = ls & {0}
    n = ls - {0}
    if e:
        out.append((lambda c: c.facts.__setitem__(('#', l[1]), e), ('i', 1)))
    if n:
        out.append((lambda c: c.facts.__setitem__(('#', l[1]), n), ('i', 0)))
    return out


@model(r'toolshed::list::List::<.*>::only_element$')
def m_only(eng, st, fn, args):
    l = list_of(eng, st, args[0])
    if l[0] != 'sym':
        return None
    ls = lenset(st, l[1])
    rt = ret_t(fn)
    out = []
    e = ls & {1}
    n = ls - {1}
    if e:
        out.append((lambda c: c.facts.__setitem__(('#', l[1]), e), some(eng, rt, ('ref', ('S', l[1] + '[0]', elem_t(eng, l[2])), ()))))
    if n:
        out.append((lambda c: c.facts.__setitem__(('#', l[1]), n), none(eng, rt)))
    return out


@model(r'toolshed::list::List::<.*>::first_element$')
def m_first(eng, st, fn, args):
    l = list_of(eng, st, args[0])
    if l[0] != 'sym':
        return None
    ls = lenset(st, l[1])
    rt = ret_t(fn)
    out = []
    e = ls - {0}
    n = ls & {0}
    if e:
        out.append((lambda c: c.facts.__setitem__(('#', l[1]), e), some(eng, rt, ('ref', ('S', l[1] + '[0]', elem_t(eng, l[2])), ()))))
    if n:
        out.append((lambda c: c.facts.__setitem__(('#', l[1]), n), none(eng, rt)))
    return out


@model(r'toolshed::list::List::<.*>::into_unsafe$|toolshed::list::UnsafeList::into_list')
def m_unsafe(eng, st, fn, args):
    l = args[0]
    if l[0] == 'sym':
        return [(None, ('sym', l[1], ret_t(fn)))]
    return [(None, l)]


@model(r'<toolshed::list::List<.*> as std::clone::Clone>::clone$|<toolshed::list::ListIter<.*> as std::clone::Clone>::clone$')
def m_clone_list(eng, st, fn, args):
    return [(None, list_of(eng, st, args[0]))]


# ---------------------------------------------------------------- strings / slices
def const_bytes(eng, st, v):
    if v[0] == 'ref':
        x = eng.load(st, v[1], v[2])
        if x[0] == 'str':
            return x[1].encode()
        if x[0] == 'bytes':
            return x[1]
        if x[0] == 'arr' and all(e[0] == 'i' for e in x[1]):
            return bytes(e[1] for e in x[1])
        if x[0] == 'ref':
            return const_bytes(eng, st, x)
    return None


def strkey(eng, st, v):
    while v[0] == 'ref':
        if v[1][0] == 'S':
            return ('S', v[1][1])
        x = eng.load(st, v[1], v[2])
        if x[0] in ('str',):
            return x
        if x[0] == 'bytes':
            return x
        if x[0] == 'ref' or x[0] == 'sym':
            v = x
            continue
        return None
    if v[0] == 'sym':
        return ('S', v[1])
    return None


@model(r'::as_bytes$|^core::str::<impl str>::as_bytes|String::as_str$|<std::string::String as std::ops::Deref>::deref$|str::as_bytes_unchecked')
def m_as_bytes(eng, st, fn, args):
    v = args[0]
    if v[0] == 'ref':
        x = eng.load(st, v[1], v[2])
        if x[0] == 'str':
            return [(None, ('ref', ('K', ('bytes', x[1].encode())), ()))]
        return [(None, v)]
    return [(None, v)]


@model(r'<str as std::cmp::PartialEq>::eq$|<&str as std::cmp::PartialEq>::eq$|<&.* as std::cmp::PartialEq<.*>>::(eq|ne)$|<\[u8\] as std::cmp::PartialEq>::eq$|<str as std::cmp::PartialEq>::ne$|<&.* as std::cmp::PartialEq>::(eq|ne)$|std::str::traits::<impl .*PartialEq for str>::eq$|core::str::traits::<impl .*PartialEq for str>::eq$')
def m_streq(eng, st, fn, args):
    a = strkey(eng, st, args[0])
    b = strkey(eng, st, args[1])
    neg = fn['name'].endswith('::ne')
    if a is None or b is None:
        return None
    if a[0] != 'S' and b[0] != 'S':
        same = const_bytes(eng, st, ('ref', ('K', a), ())) == const_bytes(eng, st, ('ref', ('K', b), ()))
        return [(None, ('i', int(same != neg)))]
    if a == b:
        return [(None, ('i', int(not neg)))]
    key = ('streq',) + tuple(sorted((a, b)))
    got = st.facts.get(key, frozenset((0, 1)))
    out = []
    for x in sorted(got):
        def m(c, x=x):
            c.facts[key] = frozenset((x,))
        out.append((m, ('i', x ^ int(neg))))
    return out


@model(r'^core::str::<impl str>::len$|^core::slice::<impl \[.*\]>::len$|::<impl str>::len$|::<impl \[.*\]>::len$')
def m_len(eng, st, fn, args):
    v = args[0]
    if v[0] == 'ref':
        x = eng.load(st, v[1], v[2])
        return [(None, eng.length(st, x))]
    if v[0] == 'sym':
        return [(None, ('lenof', v[1]))]
    return None


@model(r'::<impl str>::is_empty$|::<impl \[.*\]>::is_empty$')
def m_sempty(eng, st, fn, args):
    v = args[0]
    if v[0] == 'ref':
        x = eng.length(st, eng.load(st, v[1], v[2]))
        if x[0] == 'i':
            return [(None, ('i', int(x[1] == 0)))]
        if x[0] == 'lenof':
            return [(None, ('cmp', 'Eq', x, ('i', 0)))]
    return None


# ---------------------------------------------------------------- mem / ptr
@model(r'^std::mem::replace::|^core::mem::replace::')
def m_replace(eng, st, fn, args):
    d = args[0]
    root, proj = eng.deref(st, d)
    old = eng.load(st, root, proj)
    eng.store(st, root, proj, args[1])
    return [(None, old)]


@model(r'^std::mem::swap::|^core::mem::swap::')
def m_swap(eng, st, fn, args):
    ra, pa = eng.deref(st, args[0])
    rb, pb = eng.deref(st, args[1])
    va, vb = eng.load(st, ra, pa), eng.load(st, rb, pb)
    eng.store(st, ra, pa, vb)
    eng.store(st, rb, pb, va)
    return [(None, ('tup', ()))]


@model(r'^std::ptr::read::|^core::ptr::read::|intrinsics::read_via_copy|^std::ptr::read_volatile|^std::ptr::read_unaligned')
def m_read(eng, st, fn, args):
    root, proj = eng.deref(st, args[0])
    return [(None, eng.load(st, root, proj))]


@model(r'^std::ptr::write::|^core::ptr::write::|intrinsics::write_via_move|^std::ptr::write_volatile|^std::ptr::write_unaligned')
def m_write(eng, st, fn, args):
    root, proj = eng.deref(st, args[0])
    eng.store(st, root, proj, args[1])
    return [(None, ('tup', ()))]


@model(r'^std::intrinsics::cold_path$|precondition_check|::ub_checks::|^core::ub_checks|assert_inhabited|^std::hint::assert_unchecked|intrinsics::assume$|intrinsics::assert_')
def m_noop(eng, st, fn, args):
    return [(None, ('tup', ()))]


@model(r'intrinsics::(likely|unlikely|black_box)|hint::black_box|hint::must_use')
def m_ident(eng, st, fn, args):
    return [(None, args[0])]


@model(r'^std::intrinsics::transmute')
def m_transmute(eng, st, fn, args):
    return [(None, args[0])]


@model(r'intrinsics::discriminant_value')
def m_dv(eng, st, fn, args):
    root, proj = eng.deref(st, args[0])
    v = eng.load(st, root, proj)
    if v[0] == 'adt':
        return [(None, ('i', eng.discr_val(v[1], v[2])))]
    if v[0] in ('sym', 'symv') and v[2] is not None and eng.p.types[v[2]]['k'] == 'adt':
        fs = eng.variants(st, v[1], v[2])
        if len(fs) == 1:
            return [(None, ('i', eng.discr_val(v[2], next(iter(fs)))))]
        return [(None, ('sdiscr', v[1], v[2]))]
    r = eng.dom.discr(st, v)
    return [(None, r if r is not None else ('top', None))]


@model(r'intrinsics::(size_of|min_align_of|align_of)')
def m_size(eng, st, fn, args):
    t = fn['targs'][0] if fn['targs'] else None
    if t is not None and 'size' in eng.p.types[t]:
        return [(None, ('i', eng.p.types[t]['size']))]
    return [(None, ('top', None))]


@model(r'^<std::ops::Range<.*> as std::iter::Iterator>::next$|iter::range::<impl std::iter::Iterator for std::ops::Range(Inclusive)?<.*>>::next$')
def m_range(eng, st, fn, args):
    ref = args[0]
    r = eng.load(st, ref[1], ref[2])
    if r[0] == 'adt' and r[3][0][0] == 'i' and r[3][1][0] == 'i':
        return None
    rt = ret_t(fn)
    ty = fn['targs'][0] if fn['targs'] else None

    def adv(c):
        cur = eng.load(c, ref[1], ref[2])
        if cur[0] == 'adt':
            eng.store(c, ref[1], ref[2], ('adt', cur[1], cur[2], (('top', ty), cur[3][1]) + tuple(cur[3][2:])))
        return some(eng, rt, ('top', ty))
    return [(None, none(eng, rt)), (adv, None)]


@model(r'^<.* as std::clone::Clone>::clone$')
def m_clone_sym(eng, st, fn, args):
    v = args[0]
    if v[0] == 'ref':
        x = eng.load(st, v[1], v[2])
        if x[0] in ('sym', 'i', 'ref', 'fn') or (x[0] == 'adt' and 'blocks' not in fn):
            return [(None, x)]
    if v[0] == 'sym':
        root, proj = eng.deref(st, v)
        return [(None, eng.load(st, root, proj))]
    return None


@model(r'^std::intrinsics::integer_(min|max)::<|^core::intrinsics::integer_(min|max)::<')
def m_minmax(eng, st, fn, args):
    a, b = args
    least = 'integer_min' in fn['name']
    if a[0] == b[0] == 'i':
        return [(None, ('i', min(a[1], b[1]) if least else max(a[1], b[1])))]
    if {a[0], b[0]} != {'i', 'lenof'}:
        return None
    if a[0] == 'i':
        a, b = b, a
    key = ('cmp', 'Lt', a, b)
    out = []
    for x in sorted(st.facts.get(key, frozenset((0, 1)))):
        out.append((lambda c, x=x: c.facts.__setitem__(key, frozenset((x,))), a if (x == 1) == least else b))
    return out


# ---------------------------------------------------------------- small vectors (order of first insertion, summarised)
@model(r'^std::vec::Vec::<.*>::(new|with_capacity)$|^<std::vec::Vec<.*> as std::default::Default>::default$')
def m_vecnew(eng, st, fn, args):
    return [(None, ('vec', (), True))]


def vec_of(eng, st, v):
    while v[0] == 'ref':
        v = eng.load(st, v[1], v[2])
    return v


def snap(eng, st, v):
    """remember the facts about list elements referenced by v, and forget which element it was"""
    own = getattr(eng.dom, 'snap', None)
    if own is not None:
        return own(st, v)
    if v[0] == 'ref' and v[1][0] == 'S':
        p = v[1][1]
        fs = frozenset((k, x) for k, x in st.facts.items() if isinstance(k, tuple) and isinstance(k[0], str) and k[0].startswith(p) and '[' in p)
        m = re.match(r'^(.*)\[(0|\+|old)\]$', p)
        if m:
            q = m.group(1) + '[*]'
            fs = frozenset(((q + k[0][len(p):],) + k[1:], x) for k, x in fs)
            return (('ref', ('S', q, v[1][2]), v[2]), fs)
        return (v, fs)
    return (v, frozenset())


def vec_add(vec, item):
    items = vec[1] if item in vec[1] else vec[1] + (item,)
    return ('vec', tuple(sorted(items, key=repr)), False)


@model(r'^std::vec::Vec::<.*>::push$')
def m_vecpush(eng, st, fn, args):
    root, proj = eng.deref(st, args[0])
    v = eng.load(st, root, proj)
    if v[0] != 'vec':
        return None
    eng.store(st, root, proj, vec_add(v, snap(eng, st, args[1])))
    return [(None, ('tup', ()))]


@model(r'^std::vec::Vec::<.*>::is_empty$')
def m_vecempty(eng, st, fn, args):
    v = vec_of(eng, st, args[0])
    if v[0] != 'vec':
        return None
    return [(None, ('i', int(v[2])))]


@model(r'^std::vec::Vec::<.*>::len$')
def m_veclen(eng, st, fn, args):
    v = vec_of(eng, st, args[0])
    if v[0] != 'vec':
        return None
    if v[2]:
        return [(None, ('i', 0))]
    return [(None, ('top', None))]


@model(r'^<std::vec::Vec<.*> as std::clone::Clone>::clone$')
def m_vecclone(eng, st, fn, args):
    v = vec_of(eng, st, args[0])
    if v[0] != 'vec':
        return None
    return [(None, v)]


@model(r'^<&?std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$|^<std::vec::Vec<.*> as std::ops::Deref>::deref$|<impl \[.*\]>::iter$|<&\[.*\] as std::iter::IntoIterator>::into_iter$|^std::vec::Vec::<.*>::as_slice$')
def m_veciter(eng, st, fn, args):
    v = vec_of(eng, st, args[0])
    if v[0] == 'viter':
        return [(None, v)]
    if v[0] != 'vec':
        return None
    if fn['name'].endswith('deref') or fn['name'].endswith('as_slice'):
        return [(None, args[0])]
    byref = '&std::vec' in fn['name'] or 'impl [' in fn['name'] or '<&[' in fn['name']
    return [(None, ('viter', v[1], 'E' if v[2] else 'N', byref))]


@model(r'^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$|^<std::slice::Iter<.*> as std::iter::Iterator>::next$')
def m_vecnext(eng, st, fn, args):
    ref = args[0]
    it = eng.load(st, ref[1], ref[2])
    if it[0] != 'viter':
        return None
    rt = ret_t(fn)
    out = []
    if it[2] in ('E', 'M'):
        out.append((None, none(eng, rt)))
    if it[2] in ('N', 'M'):
        for v, fs in it[1]:
            def adv(c, v=v, fs=fs):
                eng.store(c, ref[1], ref[2], ('viter', it[1], 'M', it[3]))
                if v[0] == 'ref' and v[1][0] == 'S' and v[1][1].endswith('[*]'):
                    drop_facts(c, v[1][1])
                for k, x in fs:
                    c.facts[k] = x
                w = ('ref', c.alloc(v), ()) if it[3] else v
                return some(eng, rt, w)
            out.append((adv, None))
    return out


def next_of(prog):
    """type: its Iterator::next"""
    if not hasattr(prog, '_next_of'):
        fs = prog.fns if isinstance(prog.fns, list) else list(prog.fns.values())
        prog._next_of = {prog.types[f['locals'][1]].get('elem'): f for f in fs
                         if f['name'].endswith(' as std::iter::Iterator>::next') and 'blocks' in f}
    return prog._next_of


@model(r'^<.* as std::iter::FromIterator<.*>>::from_iter::<|^std::iter::Iterator::collect::<std::vec::Vec|as std::iter::Iterator>::collect::<std::vec::Vec')
def m_collect(eng, st, fn, args):
    if 'std::vec::Vec' not in fn['name']:
        return None
    it = args[0]
    # find the `next` instance of the iterator type
    tid = None
    for t in fn['targs']:
        f = eng.p.by_name.get('<%s as std::iter::Iterator>::next' % eng.p.types[t]['str'])
        if f is None:       # closure types are named differently in types and functions
            f = next_of(eng.p).get(t)
        if f is not None and 'blocks' in f:
            tid = f['id']
    if tid is None:
        return None
    itroot = st.alloc(it)
    vroot = st.alloc(('vec', (), True))

    def post(e, s, val):
        return None
    return ('inline', tid, [('ref', itroot, ())], CollectPost(tid, itroot, vroot))


class CollectPost:
    """re-invokes `next` until it yields None, collecting the items"""
    def __init__(self, tid, it, vec):
        self.tid, self.it, self.vec = tid, it, vec

    def roots(self):
        return (self.it, self.vec)

    def __call__(self, eng, st, val):
        if val[0] == 'adt' and val[2] == 0:
            return st.heap[self.vec]
        if val[0] != 'adt':
            raise Unmodelled('collect over %r' % (val[:1],))
        st.heap[self.vec] = vec_add(st.heap[self.vec], snap(eng, st, val[3][0]))
        fr = st.frames[-1]
        fr.loc = {1: ('ref', self.it, ())}
        fr.bb = 0
        st.si = 0
        return 'again'
