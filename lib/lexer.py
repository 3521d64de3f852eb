"""Tokenizer: an abstract interpretation over an unknown, NUL-terminated source.

Every byte of the source is unknown (a set of byte values that the path taken through the
code refines); positions are symbolic.  While the code consumes bytes they are fed, as sets,
to a specification automaton of JavaScript tokens.  When a tokenizer entry point returns, all
states that the automaton may be in have to agree with the token, its extent, the semicolon
flag and the text slices that the code produced.
"""
import re
from collections import namedtuple
from engine import Engine, State, Domain, Prune, Split, SplitVal, Unmodelled, EngineLimit, Frame
import models as M
from par import pmap

ALL = (1 << 256) - 1
IDENT = tuple(range(256))


def mask(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


def bits(m):
    out = []
    while m:
        l = m & -m
        out.append(l.bit_length() - 1)
        m ^= l
    return out


CONT = mask(range(0x80, 0xC0))
NONCONT = ALL & ~CONT
_popc = {}

# --------------------------------------------------------------------- what the language says
PUNCT = {';': 'Semicolon', ':': 'Colon', ',': 'Comma', '(': 'ParenOpen', ')': 'ParenClose', '[': 'BracketOpen', ']': 'BracketClose', '{': 'BraceOpen', '}': 'BraceClose',
         '=>': 'OperatorFatArrow', '++': 'OperatorIncrement', '--': 'OperatorDecrement', '!': 'OperatorLogicalNot', '~': 'OperatorBitwiseNot', '*': 'OperatorMultiplication',
         '%': 'OperatorRemainder', '**': 'OperatorExponent', '+': 'OperatorAddition', '-': 'OperatorSubtraction', '<<': 'OperatorBitShiftLeft', '>>': 'OperatorBitShiftRight',
         '>>>': 'OperatorUBitShiftRight', '<': 'OperatorLesser', '<=': 'OperatorLesserEquals', '>': 'OperatorGreater', '>=': 'OperatorGreaterEquals',
         '===': 'OperatorStrictEquality', '!==': 'OperatorStrictInequality', '==': 'OperatorEquality', '!=': 'OperatorInequality', '&': 'OperatorBitwiseAnd',
         '^': 'OperatorBitwiseXor', '|': 'OperatorBitwiseOr', '&&': 'OperatorLogicalAnd', '||': 'OperatorLogicalOr', '?': 'OperatorConditional', '=': 'OperatorAssign',
         '+=': 'OperatorAddAssign', '-=': 'OperatorSubtractAssign', '**=': 'OperatorExponentAssign', '*=': 'OperatorMultiplyAssign', '%=': 'OperatorRemainderAssign',
         '<<=': 'OperatorBSLAssign', '>>=': 'OperatorBSRAssign', '>>>=': 'OperatorUBSRAssign', '&=': 'OperatorBitAndAssign', '^=': 'OperatorBitXorAssign', '|=': 'OperatorBitOrAssign',
         '/': 'OperatorDivision', '/=': 'OperatorDivideAssign', '...': 'OperatorSpread'}
PREFIXES = {p[:i] for p in PUNCT for i in range(1, len(p) + 1)}
KEYWORDS = {'new': 'OperatorNew', 'typeof': 'OperatorTypeof', 'void': 'OperatorVoid', 'delete': 'OperatorDelete', 'instanceof': 'OperatorInstanceof', 'in': 'OperatorIn',
            'var': 'DeclarationVar', 'let': 'DeclarationLet', 'const': 'DeclarationConst', 'break': 'Break', 'do': 'Do', 'case': 'Case', 'else': 'Else', 'catch': 'Catch',
            'export': 'Export', 'class': 'Class', 'extends': 'Extends', 'return': 'Return', 'while': 'While', 'finally': 'Finally', 'super': 'Super', 'with': 'With',
            'continue': 'Continue', 'for': 'For', 'switch': 'Switch', 'yield': 'Yield', 'debugger': 'Debugger', 'function': 'Function', 'this': 'This', 'default': 'Default',
            'if': 'If', 'throw': 'Throw', 'import': 'Import', 'try': 'Try', 'static': 'Static', 'true': 'LiteralTrue', 'false': 'LiteralFalse', 'null': 'LiteralNull',
            'undefined': 'LiteralUndefined', 'enum': 'ReservedEnum', 'implements': 'ReservedImplements', 'package': 'ReservedPackage', 'protected': 'ReservedProtected',
            'interface': 'ReservedInterface', 'private': 'ReservedPrivate', 'public': 'ReservedPublic'}
KWPREFIX = {w[:i] for w in KEYWORDS for i in range(1, len(w) + 1)}
ERR = frozenset(('UnexpectedToken', 'UnexpectedEndOfProgram'))
DIGITS = frozenset(b'0123456789')
HEX = frozenset(b'0123456789abcdefABCDEF')
START = frozenset(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$\\')
LABEL = START | DIGITS | frozenset(range(128, 256))

S = namedtuple('S', 'asi T kind data')
KINDPROP = {'p': 'L03', 'w': 'L03', 'u': 'L03', 'acc': 'L03', 'uacc': 'L03', 'bacc': 'L03', 'dot': 'L03', 'dot2': 'L03', 'dotws': 'L03', 'err': 'L03', 'n': 'L04', 's': 'L04', 't': 'L04', 're': 'L04', 'any': 'L04',
            'ws': 'L05', 'slash': 'L05', 'lc': 'L05', 'bc': 'L05', 'bcs': 'L05'}
KINDNAME = {'p': 'punctuator', 'w': 'word', 'u': 'word', 'acc': 'member access', 'uacc': 'member access', 'bacc': 'member access', 'dot': 'dot', 'dot2': 'dots', 'dotws': 'dot and blanks', 'err': 'invalid character', 'n': 'number',
            's': 'string', 't': 'template', 're': 'regular expression', 'any': 'literal', 'ws': 'white space', 'slash': 'slash', 'lc': 'line comment', 'bc': 'block comment', 'bcs': 'block comment'}


def step(s, b, p):
    """successor of automaton state s on byte b at position p; None if the token ends before b"""
    asi, T, k, d = s
    c = chr(b) if b < 128 else None
    if k == 'ws':
        if b == 0:
            return None
        if b == 10:
            return S(1, None, 'ws', None)
        if b <= 32:
            return s
        T = ('@', p)
        if c == '/':
            return S(asi, T, 'slash', None)
        if c == '.':
            return S(asi, T, 'dot', None)
        if c in PREFIXES:
            return S(asi, T, 'p', c)
        if c == '0':
            return S(asi, T, 'n', 'zero')
        if b in DIGITS:
            return S(asi, T, 'n', 'int')
        if c in '"\'' if c else False:
            return S(asi, T, 's', (b, 0))
        if c == '`':
            return S(asi, T, 't', ('body', ('@', p + 1), None))
        if b in START:
            return S(asi, T, 'w', c if c in KWPREFIX else None)
        if b >= 128:
            return S(asi, T, 'u', None)
        return S(asi, T, 'err', None)
    if k == 'slash':
        if c == '/':
            return S(asi, None, 'lc', None)
        if c == '*':
            return S(asi, None, 'bc', None)
        if c == '=':
            return S(asi, T, 'p', '/=')
        return None
    if k == 'lc':
        if b == 0:
            return None
        return S(1, None, 'ws', None) if b == 10 else s
    if k in ('bc', 'bcs'):
        if b == 0:
            return None
        if k == 'bcs' and c == '/':
            return S(asi, None, 'ws', None)
        return S(1 if b == 10 else asi, None, 'bcs' if c == '*' else 'bc', None)
    if k == 'p':
        return S(asi, T, 'p', d + c) if c and d + c in PREFIXES else None
    if k == 'w':
        if b not in LABEL:
            return None
        return S(asi, T, 'w', d + c if d and c and d + c in KWPREFIX else None)
    if k == 'u':
        if b >= 128 or (d != 'bad' and b in LABEL):
            return s
        return None
    if k == 'dot':
        if b in DIGITS:
            return S(asi, T, 'n', 'frac')
        if c == '.':
            return S(asi, T, 'dot2', None)
        if 1 <= b <= 32:
            return S(asi, T, 'dotws', None)
        if b in START or b >= 128:
            return S(asi, T, 'acc' if b < 128 else 'uacc', ('@', p))
        return None
    if k == 'dot2':
        return S(asi, T, 'p', '...') if c == '.' else None
    if k == 'dotws':
        if 1 <= b <= 32:
            return s
        if b in START or b >= 128:
            return S(asi, T, 'acc' if b < 128 else 'uacc', ('@', p))
        return None
    if k == 'acc':
        return s if b in LABEL else None
    if k in ('uacc', 'bacc'):
        return s if b >= 128 else None
    if k == 'n':
        n = None
        if d in ('zero', 'int'):
            n = 'int' if b in DIGITS else 'frac' if c == '.' else 'e' if c in ('e', 'E') else None
            if d == 'zero' and n is None:
                n = {'b': 'b0', 'B': 'b0', 'o': 'o0', 'O': 'o0', 'x': 'x0', 'X': 'x0'}.get(c)
        elif d == 'frac':
            n = 'frac' if b in DIGITS else 'e' if c in ('e', 'E') else None
        elif d == 'e':
            n = 'es' if c in ('+', '-') else 'exp' if b in DIGITS else None
        elif d in ('es', 'exp'):
            n = 'exp' if b in DIGITS else None
        elif d in ('b0', 'b'):
            n = 'b' if c in ('0', '1') else None
        elif d in ('o0', 'o'):
            n = 'o' if c and c in '01234567' else None
        elif d in ('x0', 'x'):
            n = 'x' if b in HEX else None
        return S(asi, T, 'n', n) if n else None
    if k == 's':
        q, e = d
        if e == 'end' or b == 0:
            return None
        if e == 1:
            return S(asi, T, 's', (q, 0))
        if b == q:
            return S(asi, T, 's', (q, 'end'))
        return S(asi, T, 's', (q, 1 if c == '\\' else 0))
    if k == 't':
        sub, st, en = d
        if sub in ('open', 'closed') or b == 0:
            return None
        if sub == 'esc':
            return S(asi, T, 't', ('body', st, None))
        if c == '`':
            return S(asi, T, 't', ('closed', st, ('@', p)))
        if c == '$':
            return S(asi, T, 't', ('dollar', st, ('@', p)))
        if c == '\\':
            return S(asi, T, 't', ('esc', st, None))
        if c == '{' and sub == 'dollar':
            return S(asi, T, 't', ('open', st, en))
        return S(asi, T, 't', ('body', st, None))
    if k == 're':
        sub, cls = d
        if b == 0:
            return None
        if sub == 'flags':
            return s if c and c in 'gimuy' else None
        if sub == 'esc':
            return S(asi, T, 'any', None) if b == 10 else S(asi, T, 're', ('body', cls))
        if b == 10:
            return None
        if c == '\\':
            return S(asi, T, 're', ('esc', cls))
        if c == '[':
            return S(asi, T, 're', ('body', 1))
        if c == ']':
            return S(asi, T, 're', ('body', 0))
        if c == '/' and not cls:
            return S(asi, T, 're', ('flags', 0))
        return s
    if k in ('err', 'any'):
        return s
    raise AssertionError(k)


def expected(s):
    """(tokens allowed if the input ends or cannot be continued here, exact?)"""
    k, d = s.kind, s.data
    if k == 'ws':
        return frozenset(('EndOfProgram',)), True
    if k == 'slash':
        return frozenset(('OperatorDivision',)), True
    if k == 'lc':
        return frozenset(('EndOfProgram',)), True
    if k in ('bc', 'bcs', 'dot', 'dot2', 'dotws', 'err', 'bacc'):
        return ERR, False
    if k == 'p':
        return frozenset((PUNCT[d],)), True
    if k == 'w':
        return frozenset((KEYWORDS.get(d, 'Identifier') if d else 'Identifier',)), True
    if k == 'u':
        return (ERR, False) if d == 'bad' else (frozenset(('Identifier',)), True)
    if k == 'acc':
        return frozenset(('Accessor',)), True
    if k == 'n':
        if d in ('zero', 'int', 'frac', 'exp', 'o', 'x'):
            return frozenset(('LiteralNumber',)), True
        if d == 'b':
            return frozenset(('LiteralBinary',)), True
        return ERR, False
    if k == 's':
        return (frozenset(('LiteralString',)), True) if d[1] == 'end' else (ERR, False)
    if k == 't':
        return {'open': (frozenset(('TemplateOpen',)), True), 'closed': (frozenset(('TemplateClosed',)), True)}.get(d[0], (ERR, False))
    if k == 're':
        return (frozenset(('LiteralRegEx',)), True) if d[0] == 'flags' else (ERR, False)
    return None, False


# ------------------------------------------------------------------------------- the domain
LD = namedtuple('LD', 'spec q win nul pend alnum hist')
LIM = 4
_intern = {}


def tab(t):
    t = tuple(t)
    return _intern.setdefault(t, t)


IDTAB = tab(IDENT)


def slref(a, b):
    return ('ref', ('K', ('slice', a, b)), ())


def slof(v):
    if v is not None and v[0] == 'ref' and v[1][0] == 'K' and v[1][1][0] == 'slice' and not v[2]:
        return v[1][1]
    return None


class LexEngine(Engine):
    pass


class LX(Domain):
    def __init__(self, prog, root, lexer_tid):
        Domain.__init__(self)
        self.p = prog
        self.rootname = root
        self.tid = lexer_tid
        fs = prog.types[lexer_tid]['variants'][0]['fields']
        self.fidx = {f[0]: i for i, f in enumerate(fs)}
        self.obligations = 0
        self.reads = 0
        self.labels = set()

    def bad(self, st, prop, key, msg):
        self.report(st, ((prop,), '%s: %s' % (self.rootname, key)), '%s: %s' % (self.rootname, msg))

    # ---- fields of the tokenizer
    def field(self, st, name):
        if name not in self.fidx:
            raise Unmodelled('the tokenizer has no field %s' % name)
        return st.heap[self.lex][3][self.fidx[name]]

    def index_of(self, st):
        v = self.field(st, 'index')
        if v[0] != 'pos':
            raise Unmodelled('the read position is not tracked (%r)' % (v[0],))
        return v[1][1]

    # ---- canonical form
    def concretise(self, st, v):
        if not isinstance(v, tuple):
            return v
        if len(v) == 3 and v[0] == 'bf':
            if v[1][1] >= st.dom.q and v[1][1] - st.dom.q < len(st.dom.win):
                m = st.dom.win[v[1][1] - st.dom.q]
                if m & (m - 1) == 0:
                    return ('i', v[2][m.bit_length() - 1])
            return v
        if not any(isinstance(x, tuple) for x in v):
            return v
        n = tuple(self.concretise(st, x) for x in v)
        return n if n != v else v

    def fullkey(self, st):
        live = set()
        for fr in st.frames:
            for l, v in list(fr.loc.items()):
                fr.loc[l] = self.concretise(st, v)
        for h, v in list(st.heap.items()):
            st.heap[h] = self.concretise(st, v)
        k = self.eng.basekey(st, None)

        def scan(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == 'bf':
                    live.add(v[1][1])
                    return
                if len(v) == 2 and v[0] == 'chr':
                    live.add(v[1][1])
                    return
                for x in v:
                    scan(x)
        scan(k[1])
        scan(k[2])
        self.absorb(st, min([self.index_of(st)] + list(live)))
        d = st.dom
        q = d.q
        Ts = sorted({s.T[1] for s in d.spec if s.T})
        T = Ts[0] if Ts else None

        def canon(v):
            n = v[1]
            if -LIM <= n - q:
                return ('@', 'q', n - q)
            if T is not None and 0 <= n - T <= LIM:
                return ('@', 'T', n - T)
            if -2 <= n <= 1:
                return ('@', '0', n)
            return ('@', 'mid')
        return self.eng.basekey(st, canon)

    def key(self, st):
        d = st.dom
        return (tuple(sorted(d.spec, key=repr)), ('@', d.q), d.win, d.nul, d.pend, d.alnum)

    def marked(self, st, k):
        st.dom = st.dom._replace(hist=(hash(k), self.index_of(st), st.dom.hist))

    def roots(self, st):
        return [self.lex]

    def merged(self, st, k):
        h, ix = hash(k), self.index_of(st)
        x = st.dom.hist
        n = 0
        while x is not None and n < 400:
            if x[1] != ix:
                return
            if x[0] == h:
                self.bad(st, 'L02', 'loops without reading on', 'the tokenizer loops without consuming a byte')
                return
            x = x[2]
            n += 1

    # ---- source bytes
    def allowed(self, st, p):
        """mask of the byte at p given what UTF-8 allows after the bytes before it"""
        d = st.dom
        pend = d.pend
        for i in range(p - d.q):
            pend = self.advance(pend, d.win[i] if i < len(d.win) else ALL)
        m = 0
        if 0 in pend:
            m |= NONCONT
        if pend - {0}:
            m |= CONT
        return m

    def advance(self, pend, m):
        out = set()
        if pend - {0} and m & CONT:
            out |= {x - 1 for x in pend if x}
        if 0 in pend:
            if m & mask(range(0, 0x80)):
                out.add(0)
            if m & mask(range(0xC0, 0xE0)):
                out.add(1)
            if m & mask(range(0xE0, 0xF0)):
                out.add(2)
            if m & mask(range(0xF0, 0x100)):
                out.add(3)
        return frozenset(out or {0})

    def bytemask(self, st, p):
        d = st.dom
        i = p - d.q
        if i < 0:
            raise Unmodelled('a byte is read again after it was consumed')
        if i > 40:
            raise Unmodelled('reads far ahead')
        if i >= len(d.win):
            win = list(d.win)
            while len(win) <= i:
                d = d._replace(win=tuple(win))
                st.dom = d
                win.append(self.allowed(st, d.q + len(win)))
            st.dom = d._replace(win=tuple(win))
        return st.dom.win[i]

    def setmask(self, st, p, m):
        d = st.dom
        m &= self.bytemask(st, p)
        if not m:
            raise Prune()
        d = st.dom
        i = p - d.q
        st.dom = d._replace(win=d.win[:i] + (m,) + d.win[i + 1:])

    def touch(self, st, p, what):
        """the byte at p is accessed: nothing before it may be the terminator"""
        d = st.dom
        self.reads += 1
        self.bytemask(st, p)
        d = st.dom
        if d.nul:
            self.bad(st, 'L01', what + ' beyond the terminator', 'after the terminator of the source may have been consumed, the tokenizer goes on to %s the next byte' % what)
            raise Prune()
        for i in range(p - d.q):
            if d.win[i] & 1:
                self.bad(st, 'L01', what + ' beyond the terminator',
                         'the tokenizer %ss a byte although the source may have ended %d byte(s) before it' % (what, p - d.q - i))
                self.setmask(st, d.q + i, ALL & ~1)

    def read(self, st, p):
        self.touch(st, p, 'read')
        m = self.bytemask(st, p)
        if m & (m - 1) == 0:
            return ('i', m.bit_length() - 1)
        return ('bf', ('@', p), IDTAB)

    def absorb(self, st, upto):
        d = st.dom
        while d.q < upto:
            if not d.win:
                self.bytemask(st, d.q)
                d = st.dom
            m = d.win[0]
            spec = set()
            for s in d.spec:
                spec |= {self.tested(d, x) for x in self.step_set(self.tested(d, s), m, d.q)}
            if len(spec) > 64:
                raise Unmodelled('the automaton has too many states')
            pr = [b for b in bits(m & ~1) if 32 < b < 127] or bits(m)
            st.ev(chr(pr[0]) if 32 <= pr[0] < 127 else '\\x%02x' % pr[0])
            d = d._replace(spec=frozenset(spec), q=d.q + 1, win=d.win[1:], nul=d.nul or bool(m & 1), pend=self.advance(d.pend, m))
            st.dom = d

    def tested(self, d, s):
        if s.kind == 'u' and s.data is None and d.alnum is not None and d.alnum[0] == s.T:
            return S(s.asi, s.T, 'u', 'good' if d.alnum[1] else 'bad')
        if s.kind == 'uacc' and d.alnum is not None and d.alnum[0] == s.data:
            return S(s.asi, s.T, 'acc' if d.alnum[1] else 'bacc', s.data)
        return s

    def step_set(self, s, m, p):
        out = set()
        if s.kind == 'over':
            return {s}
        for b in bits(m):
            n = step(s, b, p)
            if n is None:
                n = S(s.asi, s.T, 'over', (s.kind, s.data, 'NUL' if b == 0 else repr(chr(b))))
                if any(x.kind == 'over' for x in out):
                    continue
            out.add(n)
        return out

    # ---- values
    def bfval(self, st, v):
        """values that v can still take, as {value: mask}"""
        m = self.bytemask(st, v[1][1])
        out = {}
        for b in bits(m):
            x = v[2][b]
            out[x] = out.get(x, 0) | (1 << b)
        return out

    def norm(self, st, v):
        if v[0] == 'bf':
            if v[1][1] < st.dom.q:
                raise Unmodelled('a byte is used after it was consumed')
            vals = self.bfval(st, v)
            if len(vals) == 1:
                return ('i', next(iter(vals)))
        return v

    def split(self, st, v):
        vals = self.bfval(st, v)
        p = v[1][1]
        raise SplitVal([(lambda c, m=m: self.setmask(c, p, m)) for m in vals.values()])

    def binop(self, st, op, a, b, ty):
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] == 'i' and b[0] == 'i':
            return self.eng.binop(st, op, a, b, ty)
        if a[0] == 'bf' and b[0] == 'bf':
            if a[1] == b[1]:
                t = []
                for x, y in zip(a[2], b[2]):
                    r = self.eng.binop(st, op, ('i', x), ('i', y), ty)
                    if r[0] != 'i':
                        return None
                    t.append(r[1])
                return ('bf', a[1], tab(t))
            self.split(st, a if len(self.bfval(st, a)) <= len(self.bfval(st, b)) else b)
        if 'bf' in (a[0], b[0]):
            v, o = (a, b) if a[0] == 'bf' else (b, a)
            if o[0] == 'i':
                t = []
                for x in v[2]:
                    r = self.eng.binop(st, op, ('i', x) if v is a else o, o if v is a else ('i', x), ty)
                    if r[0] != 'i':
                        return None
                    t.append(r[1])
                return ('bf', v[1], tab(t))
            if o[0] == 'pos' and op in ('Add', 'Sub', 'Offset'):
                self.split(st, v)
            return None
        if 'pos' in (a[0], b[0]) or 'src' in (a[0], b[0]):
            if a[0] in ('pos', 'src') and b[0] == 'i':
                if op in ('Add', 'Offset'):
                    return (a[0], ('@', a[1][1] + b[1]))
                if op == 'Sub':
                    return (a[0], ('@', a[1][1] - b[1]))
            if b[0] == 'pos' and a[0] == 'i' and op == 'Add':
                return ('pos', ('@', b[1][1] + a[1]))
            if a[0] in ('pos', 'src') and a[0] == b[0]:
                if op == 'Sub':
                    return ('dist', a[1], b[1])
                x, y = a[1][1], b[1][1]
                near = abs(x - y) <= LIM or True
                if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and near:
                    return ('i', int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]))
            if a[0] == 'pos' and b[0] == 'dist' and op == 'Add' and b[2] == a[1]:
                return ('pos', b[1])
        if a[0] == 'dist' and b[0] == 'i':
            if op == 'Add':
                return ('dist', ('@', a[1][1] + b[1]), a[2])
            if op == 'Sub':
                return ('dist', ('@', a[1][1] - b[1]), a[2])
        return None

    def intcast(self, st, v, t):
        if v[0] == 'bf':
            return ('bf', v[1], tab(self.eng.wrap(x, t) for x in v[2]))
        if v[0] in ('pos', 'dist', 'src'):
            return ('top', t) if self.eng.narrowed(t) else v
        return None

    def loaded(self, st, root, proj, v):
        return v

    def switch(self, st, v, br, other):
        if v[0] != 'bf':
            return None
        groups = {}
        for x, m in self.bfval(st, v).items():
            tgt = other
            for val, b in br:
                if val == x:
                    tgt = b
                    break
            groups[tgt] = groups.get(tgt, 0) | m
        p = v[1][1]
        return [((lambda c, m=m: self.setmask(c, p, m)), b) for b, m in groups.items()]

    def assert_unknown(self, st, msg, v, exp):
        if v[0] != 'bf':
            return
        good = 0
        bad = 0
        for x, m in self.bfval(st, v).items():
            if x == exp:
                good |= m
            else:
                bad |= m
        if bad:
            self.panic(st, 'assert:' + msg, self.eng.where(st))
        self.setmask(st, v[1][1], good)

    def index(self, st, v, iv):
        iv = self.norm(st, iv)
        if v[0] not in ('arr', 'bytes'):
            return None
        if iv[0] == 'i':
            if iv[1] >= len(v[1]):
                self.panic(st, 'index out of bounds', self.eng.where(st))
                raise Prune()
            x = v[1][iv[1]]
            return ('i', x) if v[0] == 'bytes' else x
        if iv[0] != 'bf':
            return None
        vals = self.bfval(st, iv)
        groups = {}
        for i, m in vals.items():
            if i >= len(v[1]):
                raise Unmodelled('index out of bounds')
            x = v[1][i]
            groups[x] = groups.get(x, 0) | m
        if v[0] == 'bytes' or all(x[0] == 'i' for x in groups):
            t = []
            for i in iv[2]:
                x = v[1][i] if i < len(v[1]) else 0
                t.append(x[1] if isinstance(x, tuple) else x)
            return ('bf', iv[1], tab(t))
        if len(groups) == 1:
            return next(iter(groups))
        p = iv[1][1]
        raise SplitVal([(lambda c, m=m: self.setmask(c, p, m)) for m in groups.values()])

    def deref(self, st, v):
        if v[0] == 'src':
            return ('K', self.read(st, v[1][1])), ()
        return None

    # ---- calls
    def tail(self, st, i):
        """may the frames above frame i be dropped when their top frame makes a call?"""
        for d in range(len(st.frames) - 1, i - 1, -1):
            fr = st.frames[d]
            f = self.p.fns[fr.fid]
            if d == len(st.frames) - 1:
                bb = f['blocks'][fr.bb]['t'][4]
            else:
                bb = st.frames[d + 1].tgt
            if d == i - 1:
                break
            if fr.post is not None:
                return False
            n = 0
            while True:
                n += 1
                if bb is None or n > 20:
                    return False
                blk = f['blocks'][bb]
                for s in blk['s']:
                    if not (s[0] == '=' and len(s[1]) == 1 and s[1][0] == 0 and s[2][0] == 'use' and 'c' in s[2][1]):
                        return False
                if blk['t'][0] == 'return':
                    break
                if blk['t'][0] not in ('goto', 'drop'):
                    return False
                bb = blk['t'][1] if blk['t'][0] == 'goto' else blk['t'][2]
        return True

    def call(self, st, fn, decl, args):
        n = fn['name']
        fid = fn.get('id')
        if fid is not None and 'blocks' in fn and any(fr.fid == fid for fr in st.frames):
            i = max(d for d, fr in enumerate(st.frames) if fr.fid == fid)
            if any(a[0] == 'ref' and a[1][0] == 'L' and a[1][1] >= i for a in args):
                raise Unmodelled('recursion with a reference to a local')
            if not self.tail(st, i):
                raise Unmodelled('recursion that is not a tail call')
            base = st.frames[i]
            del st.frames[i:]
            st.frames.append(Frame(fid, 0, {k + 1: a for k, a in enumerate(args)}, base.ret, base.tgt, base.post))
            st.si = 0
            k = ('tail', self.eng.key(st))
            if k in self.eng.visited:
                self.merged(st, k)
                raise Prune()
            self.eng.visited.add(k)
            self.marked(st, k)
            return 'go'
        m = re.search(r'ptr::(?:const|mut)_ptr::<impl \*(?:const|mut) .*>::(add|offset|wrapping_add|sub|wrapping_offset)$', n)
        if m:
            a, b = args[0], self.norm(st, args[1])
            if a[0] == 'src' and b[0] == 'pos' and a[1][1] == 0:
                return [(None, ('src', b[1]))]
            if a[0] == 'src' and b[0] == 'i':
                return [(None, ('src', ('@', a[1][1] + (b[1] if m.group(1) != 'sub' else -b[1]))))]
            if a[0] == 'src' and b[0] == 'dist' and b[2] == a[1]:
                return [(None, ('src', b[1]))]
            if a[0] == 'src' and b[0] == 'bf':
                self.split(st, b)
            if a[0] == 'ref' and b[0] in ('i', 'bf'):
                x = self.eng.load(st, a[1], a[2])
                if x[0] in ('arr', 'bytes'):
                    return [(None, ('ref', a[1], a[2] + (('ix', b),)))]
            raise Unmodelled('pointer arithmetic on %r and %r' % (a[0], b[0]))
        if re.search(r'slice::(raw::)?from_raw_parts(::|$)', n):
            a, b = args
            if a[0] == 'src' and b[0] == 'dist' and b[2] == a[1]:
                return [(None, self.slice(st, a[1][1], b[1][1]))]
            if a[0] == 'src' and b[0] == 'i':
                return [(None, self.slice(st, a[1][1], a[1][1] + b[1]))]
            return [(None, slref(None, None))]
        if len(args) == 2 and re.search(r'PartialEq(<.*>)?( for str)?>::(eq|ne)$', n):
            r = self.texteq(st, args[0], args[1])
            if r is not None:
                neg = int(n.endswith('ne'))
                return [((lambda c, d=d: setattr(c, 'dom', d)), ('i', x ^ neg)) for x, d in r]
        if re.search(r'str::(converts::)?from_utf8_unchecked$|::as_bytes$', n) and slof(args[0]):
            return [(None, args[0])]
        if args and slof(args[0]) and re.search(r'<impl str>::chars$', n):
            return [(None, ('chars',) + slof(args[0])[1:])]
        if re.search(r'Chars<.*> as .*Iterator>::next$', n):
            it = self.eng.load(st, args[0][1], args[0][2])
            if it[0] == 'chars':
                self.eng.store(st, args[0][1], args[0][2], ('top', None))
                return [(None, M.some(self.eng, fn['locals'][0], ('chr', it[1])))]
        if args and args[0][0] == 'chr':
            p = args[0][1][1]
            if re.search(r'is_(alphanumeric|alphabetic)$', n):
                if st.dom.alnum is not None and st.dom.alnum[0] == args[0][1]:
                    return [(None, ('i', st.dom.alnum[1]))]

                def m(c, x):
                    c.dom = c.dom._replace(alnum=(args[0][1], x))
                    c.dom = c.dom._replace(spec=frozenset(self.tested(c.dom, s) for s in c.dom.spec))
                return [((lambda c: m(c, 1)), ('i', 1)), ((lambda c: m(c, 0)), ('i', 0))]
            if n.endswith('len_utf8'):
                return [(None, ('bf', ('@', p), tab([1] * 0xC0 + [2] * 0x20 + [3] * 0x10 + [4] * 0x10)))]
        return None

    def texteq(self, st, a, b):
        """comparison of a word of the source with a constant: [(0/1, domain state)] or None"""
        vs = []
        for v in (a, b):
            for _ in range(3):
                if v[0] == 'ref' and slof(v) is None and v[1][0] != 'K':
                    v = self.eng.load(st, v[1], v[2])
            vs.append(v)
        if slof(vs[0]) is None:
            vs.reverse()
        sl = slof(vs[0])
        if sl is None:
            return None
        c = M.const_bytes(self.eng, st, vs[1])
        if c is None or sl[1] is None:
            raise Unmodelled('comparison of two texts')
        lo, hi = sl[1][1], sl[2][1]
        if hi > st.dom.q:
            self.absorb(st, hi)
        d = st.dom
        if d.q != hi or any(s.kind != 'w' or s.T != ('@', lo) for s in d.spec):
            raise Unmodelled('comparison of a text that is not the word just read')
        c = bytes(c).decode('latin1')
        if c not in KWPREFIX and any(s.data is None for s in d.spec):
            raise Unmodelled('comparison of a word with %s' % c)
        eq = frozenset(s for s in d.spec if s.data == c)
        out = [(0, d._replace(spec=d.spec - eq))] if d.spec - eq else []
        return out + ([(1, d._replace(spec=eq))] if eq else [])

    def slice(self, st, a, b):
        """the text [a, b) is formed"""
        if a is not None and b is not None and b > st.dom.q:
            self.touch(st, b, 'slice') if b - 1 < 0 else self.touch_slice(st, b)
            self.whole(st, b, 'a text')
        return slref(('@', a), ('@', b))

    def whole(self, st, b, what):
        """is b a position between two characters?"""
        d = st.dom
        m = self.allowed(st, b)
        if b - d.q < len(d.win):
            m &= d.win[b - d.q]
        if m & CONT:
            self.bad(st, 'L03', what + ' ends inside a character', '%s ends after some but not all bytes of a character' % what)

    def touch_slice(self, st, b):
        # no byte inside the slice may be the terminator or lie behind it
        d = st.dom
        if d.nul:
            self.bad(st, 'L01', 'slice beyond the terminator', 'a slice extends beyond the terminator of the source')
            raise Prune()
        self.bytemask(st, b - 1)
        d = st.dom
        for i in range(b - d.q):
            if d.win[i] & 1:
                self.bad(st, 'L01', 'slice beyond the terminator', 'a slice extends %d byte(s) from a position where the source may have ended' % (b - d.q - i))
                self.setmask(st, d.q + i, ALL & ~1)
                d = st.dom

    def unknown_call(self, st, fn, args):
        return None

    def panic(self, st, what, where):
        self.bad(st, 'L02', 'panic: ' + re.sub(r'^assert:', '', what)[:80], 'the tokenizer can panic: %s' % what)

    def length(self, st, v):
        if v[0] == 'slice' and v[1] is not None:
            return ('dist', v[2], v[1])
        return None

    # ---- results
    def ret(self, st, val):
        self.obligations += 1
        ix = self.index_of(st)
        self.absorb(st, ix)
        d = st.dom
        if d.nul:
            self.bad(st, 'L01', 'stops beyond the terminator', 'the tokenizer stops behind the terminator of the source')
            return
        tok = self.field(st, 'token')
        if tok[0] != 'adt':
            raise Unmodelled('the token is not known (%r)' % (tok[0],))
        token = self.p.types[tok[1]]['variants'][tok[2]]['name']
        self.labels.add(token)
        la = d.win[0] if d.win else self.allowed(st, ix)
        if ix == d.q:
            self.whole(st, ix, 'the token')
        asi = self.field(st, 'asi')
        asin = self.p.types[asi[1]]['variants'][asi[2]]['name'] if asi[0] == 'adt' else None
        if self.rootname == 'consume' and ix == 0 and token != 'EndOfProgram':
            self.bad(st, 'L02', '%s without progress' % token, 'the tokenizer reports %s without consuming anything' % token)
        ts = self.field(st, 'token_start')
        seen = set()
        for s in d.spec:
            if s.kind == 'over':
                k, dat, ch = s.data
                ex, exact = expected(S(s.asi, s.T, k, dat))
                if not exact and token in (ex or (token,)):
                    continue
                self.bad(st, KINDPROP[k], '%s runs on over %s' % (self.what(k, dat), ch), 'reads %s after the end of the %s (reported as %s)' % (ch, KINDNAME[k], token))
                continue
            ex, exact = expected(s)
            prop = KINDPROP[s.kind]
            if s.kind == 'lc' and token == 'EndOfProgram' and la == 1:
                continue
            if ex is None:
                continue
            if s.kind == 'uacc' or s.kind == 'u' and s.data is None:
                if token in ERR:
                    pass
                else:
                    self.bad(st, 'L03', 'any character starts a word', 'reports %s for a character that was not tested to be a letter' % token)
                    continue
            # everything that can be continued has to be continued
            more = 0
            for b in bits(la):
                if step(s, b, ix) is not None:
                    more |= 1 << b
            if more and token != 'EndOfProgram' and (exact or not (ERR & {token}) or s.kind not in ('u', 'uacc', 'bacc', 'err', 'any')):
                b = bits(more)[0]
                self.bad(st, prop, '%s ends before %s' % (self.what(s.kind, s.data), repr(chr(b))),
                         'reports %s although the %s continues with %r' % (token, KINDNAME[s.kind], chr(b)))
                continue
            if s.kind == 'ws' and token == 'EndOfProgram' and la != 1:
                self.bad(st, 'L02', 'end of the program before the end', 'reports the end of the program although more source follows')
                continue
            if token not in ex:
                self.bad(st, prop if not (s.kind == 'ws') else 'L03', '%s reported as %s' % (self.what(s.kind, s.data), token),
                         '%s is reported as %s instead of %s' % (self.what(s.kind, s.data), token, '/'.join(sorted(ex))))
                continue
            if self.rootname != 'consume':
                continue
            if s.T is not None and ts != ('pos', s.T) and ts != ('i', s.T[1]):
                self.bad(st, 'L03', 'start of %s' % token, 'the recorded start of the token is not its first byte')
            if s.T is None and token == 'EndOfProgram' and ts != ('pos', ('@', ix)):
                self.bad(st, 'L03', 'start of EndOfProgram', 'the recorded start of the end-of-program token is not the end of the source')
            if token in ERR:
                continue
            if token == 'Semicolon':
                want = {'ExplicitSemicolon'}
            elif token in ('BraceClose', 'EndOfProgram') or s.asi:
                want = {'ImplicitSemicolon'}
            elif token == 'ParenClose':
                want = {'ImplicitSemicolon', 'NoSemicolon'}
            else:
                want = {'NoSemicolon'}
            if asin not in want:
                self.bad(st, 'L05', '%s after %s: %s' % (token if token in ('Semicolon', 'BraceClose', 'EndOfProgram') else 'token', 'a line break' if s.asi else 'no line break', asin),
                         'after %s the semicolon state of %s is %s, not %s' % ('a line break' if s.asi else 'no line break', token, asin, '/'.join(sorted(want))))
            if s.kind == 'acc' and self.field(st, 'accessor_start') != ('pos', s.data):
                self.bad(st, 'L03', 'text of Accessor', 'the text of a member access does not start at its name')
        if token in ('TemplateOpen', 'TemplateClosed'):
            qv = slof(self.field(st, 'quasi')) or ('', 0, 0)
            for s in d.spec:
                if s.kind == 't' and (qv[1] != s.data[1] or qv[2] != s.data[2]):
                    self.bad(st, 'L04', 'text of %s' % token, 'the text of the template part is not what stands between its delimiters')
        if token == 'LiteralRegEx' and self.rootname == 'read_regular_expression':
            val = slof(val) or ('', 0, 0)
            if val[1] != ('@', -1) or val[2] != ('@', ix):
                self.bad(st, 'L04', 'text of LiteralRegEx', 'the text of the regular expression is not what stands between its slash and its last flag')

    def what(self, k, d):
        if k == 'p':
            return '`%s`' % d
        if k == 'w':
            return 'word `%s`' % d if d else 'identifier'
        if k == 'n':
            return 'number (%s)' % d
        if k in ('t', 're'):
            return '%s (%s)' % (KINDNAME[k], d[0])
        if k == 's':
            return 'string' if d[1] == 'end' else 'unclosed string'
        if k == 'u':
            return 'non-ASCII character'
        return KINDNAME[k]


ROOTS = {
    'consume': S(0, None, 'ws', None),
    'read_template_kind': S(0, ('@', -1), 't', ('body', ('@', 0), None)),
    'read_regular_expression': S(0, ('@', -1), 're', ('body', 0)),
}


def run_root(prog, name):
    f = prog.find(r'^ratel::lexer::Lexer::<.*>::%s$' % name)
    if not f:
        return None
    fn = f[0]
    tid = prog.types[fn['locals'][1]]['elem']
    dom = LX(prog, name, tid)
    eng = LexEngine(prog, dom, max_states=60000)
    st = State()
    init = {'index': ('pos', ('@', 0)), 'ptr': ('src', ('@', 0)), 'token_start': ('pos', ('@', -1)) if name != 'consume' else ('top', None)}
    vals = tuple(init.get(x[0], ('top', x[1])) for x in prog.types[tid]['variants'][0]['fields'])
    dom.lex = st.alloc(('adt', tid, 0, vals))
    st.dom = LD(frozenset((ROOTS[name],)), 0, (), False, frozenset((0,)), None, None)
    st.frames.append(Frame(fn['id'], 0, {1: ('ref', dom.lex, ())}, None, None))
    un = []
    try:
        eng.run(st)
    except (Unmodelled, EngineLimit) as e:
        un.append('%s: %s' % (name, e))
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        un.append('%s: construct outside of the analysis (%s: %s)' % (name, type(e).__name__, e))
    return {'violations': dom.violations, 'unanalysed': un, 'states': eng.nstates, 'steps': eng.nsteps, 'fns': {prog.fns[x]['name'] for x in eng.fns_seen} | {fn['name']},
            'obligations': dom.obligations, 'reads': dom.reads, 'labels': dom.labels}


def run_all(prog):
    out = {'violations': {}, 'unanalysed': [], 'states': 0, 'functions': set(), 'obligations': 0, 'reads': 0, 'labels': set(), 'roots': 0}
    rs = pmap(lambda n: run_root(prog, n), list(ROOTS))
    for n, r in zip(ROOTS, rs):
        if r is None:
            out['unanalysed'].append('%s: not found' % n)
            continue
        out['roots'] += 1
        for k, v in r['violations'].items():
            out['violations'].setdefault(k, v)
        out['unanalysed'] += r['unanalysed']
        for a, b in (('states', 'states'), ('obligations', 'obligations'), ('reads', 'reads')):
            out[a] += r[b]
        out['functions'] |= r['fns']
        out['labels'] |= r['labels']
    return out


if __name__ == '__main__':
    import sys, time, facts
    from engine import Prog
    t = time.time()
    p = Prog(facts.extract('harness'))
    t1 = time.time()
    r = run_all(p)
    print('facts %.1fs analysis %.1fs' % (t1 - t, time.time() - t1), {k: (len(v) if hasattr(v, '__len__') else v) for k, v in r.items()})
    for u in r['unanalysed']:
        print('INCONCLUSIVE', u)
    for k, v in sorted(r['violations'].items()):
        print(k, '|', v['msg'], '|', ''.join(v['trace'][-30:]), '|', v['where'])
