"""Regular expressions over symbolic strings.

Concrete subjects go to the real `re`.  For symbolic subjects the parse tree
produced by the interpreter's own regex parser is interpreted by a
backtracking matcher whose character tests fork.
"""
import re as _re
import re._parser as _parser
import re._constants as _c
from .engine import Unsupported, b_or
from .symbytes import SymBytes
from .symstr import (SymStr, SymBool, ch_in, ch_eq, mkstr, chars_of, isstr,
                     chars_eq_at)

A = ASCII = _re.ASCII
I = IGNORECASE = _re.IGNORECASE
L = LOCALE = _re.LOCALE
M = MULTILINE = _re.MULTILINE
S = DOTALL = _re.DOTALL
U = UNICODE = _re.UNICODE
X = VERBOSE = _re.VERBOSE
RegexFlag = _re.RegexFlag
error = _re.error
NOFLAG = _re.NOFLAG

_CAT = {
    _c.CATEGORY_DIGIT: r'\d', _c.CATEGORY_NOT_DIGIT: r'\D',
    _c.CATEGORY_SPACE: r'\s', _c.CATEGORY_NOT_SPACE: r'\S',
    _c.CATEGORY_WORD: r'\w', _c.CATEGORY_NOT_WORD: r'\W',
}


class Node(object):
    """Precompiled one-character class."""
    __slots__ = ('key', 'pred')

    def __init__(self, key, pred):
        self.key = key
        self.pred = pred


def _class_of(op, av, flags):
    """-> Node for a one-character op, using the real re for membership."""
    fl = flags & (_re.I | _re.A | _re.S)
    sub = _parser.SubPattern(_parser.State())
    key = ('re', str(op), repr(av), int(fl))
    cached = _classes.get(key)
    if cached is None:
        import re._compiler as _comp

        class P(object):
            pass
        st = _parser.State()
        st.flags = int(fl) | _re.U if not fl & _re.A else int(fl)
        st.str = ''
        sp = _parser.SubPattern(st, [(op, av)])
        pat = _comp.compile(sp, st.flags)
        cached = _classes[key] = Node(key, lambda c: pat.match(chr(c)) is not None)
    return cached


_classes = {}
_ONE = (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN)
_REPEATS = (_c.MAX_REPEAT, _c.MIN_REPEAT) + (
    (_c.POSSESSIVE_REPEAT,) if hasattr(_c, 'POSSESSIVE_REPEAT') else ())


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._tree = None
        self._twin = None

    def tree(self):
        if self._tree is None:
            self._tree = list(_parser.parse(self.pattern, self.flags & ~_re.U
                                            if isinstance(self.pattern, bytes)
                                            else self.flags))
        return self._tree

    # -- matching core: continuation passing, returns end position or None
    def _m(self, ops, idx, s, i, g, k, flags):
        if idx == len(ops):
            return k(i, g)
        op, av = ops[idx]
        if op in _ONE:
            if i >= len(s):
                return None
            if op is _c.LITERAL and not flags & _re.I:
                ok = ch_eq(s[i], av)
            else:
                nd = _class_of(op, av, flags)
                ok = ch_in(s[i], nd.key, nd.pred)
            if not bool(ok):
                return None
            return self._m(ops, idx + 1, s, i + 1, g, k, flags)
        if op is _c.SUBPATTERN:
            gid, add, dele, p = av
            nf = (flags | add) & ~dele

            def after(j, g2, gid=gid, i=i):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                    g2[0] = gid
                return self._m(ops, idx + 1, s, j, g2, k, flags)
            return self._m(list(p), 0, s, i, g, after, nf)
        if op is _c.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, s, i, g,
                            lambda j, g2: self._m(ops, idx + 1, s, j, g2, k, flags),
                            flags)
                if r is not None:
                    return r
            return None
        if op in _REPEATS:
            lo, hi, p = av
            p = list(p)
            hi = None if hi is _c.MAXREPEAT else hi
            nxt = lambda j, g2: self._m(ops, idx + 1, s, j, g2, k, flags)
            if op is _c.MAX_REPEAT:
                # fast path: single-char body
                if len(p) == 1 and p[0][0] in _ONE:
                    o, a = p[0]
                    j = i
                    n = 0
                    while (hi is None or n < hi) and j < len(s):
                        if o is _c.LITERAL and not flags & _re.I:
                            ok = ch_eq(s[j], a)
                        else:
                            nd = _class_of(o, a, flags)
                            ok = ch_in(s[j], nd.key, nd.pred)
                        if not bool(ok):
                            break
                        j += 1
                        n += 1
                    while n >= lo:
                        r = nxt(j, g)
                        if r is not None:
                            return r
                        n -= 1
                        j -= 1
                    return None

                def rep(n, j, g2):
                    if hi is None or n < hi:
                        def step(j2, g3):
                            if j2 == j and n >= lo:
                                return None     # no progress
                            return rep(n + 1, j2, g3)
                        r = self._m(p, 0, s, j, g2, step, flags)
                        if r is not None:
                            return r
                    if n >= lo:
                        return nxt(j, g2)
                    return None
                return rep(0, i, g)
            if op is _c.MIN_REPEAT:
                def rep2(n, j, g2):
                    if n >= lo:
                        r = nxt(j, g2)
                        if r is not None:
                            return r
                    if hi is None or n < hi:
                        def step(j2, g3):
                            if j2 == j and n >= lo:
                                return None
                            return rep2(n + 1, j2, g3)
                        return self._m(p, 0, s, j, g2, step, flags)
                    return None
                return rep2(0, i, g)
            # possessive
            n, j = 0, i
            while hi is None or n < hi:
                r = self._m(p, 0, s, j, g, lambda a, b: (a, b), flags)
                if r is None or r[0] == j:
                    break
                j, g = r
                n += 1
            return nxt(j, g) if n >= lo else None
        if op is _c.AT:
            if self._at(av, s, i, flags):
                return self._m(ops, idx + 1, s, i, g, k, flags)
            return None
        if op is _c.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            sub = s[a:b]
            if i + len(sub) > len(s) or not bool(chars_eq_at(s, i, sub)):
                return None
            return self._m(ops, idx + 1, s, i + len(sub), g, k, flags)
        if op is _c.GROUPREF_EXISTS:
            gid, yes, no = av
            br = yes if gid in g else no
            return self._m(list(br or []), 0, s, i, g,
                           lambda j, g2: self._m(ops, idx + 1, s, j, g2, k, flags),
                           flags)
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            direction, p = av
            if direction > 0:
                r = self._m(list(p), 0, s, i, g, lambda a, b: (a, b), flags)
            else:
                w = p.getwidth()[0]
                r = None
                if i - w >= 0:
                    r = self._m(list(p), 0, s, i - w, g,
                                lambda a, b: (a, b) if a == i else None, flags)
            if op is _c.ASSERT:
                if r is None:
                    return None
                return self._m(ops, idx + 1, s, i, r[1], k, flags)
            if r is not None:
                return None
            return self._m(ops, idx + 1, s, i, g, k, flags)
        if getattr(_c, 'ATOMIC_GROUP', None) is op:
            r = self._m(list(av), 0, s, i, g, lambda a, b: (a, b), flags)
            if r is None:
                return None
            return self._m(ops, idx + 1, s, r[0], r[1], k, flags)
        if op is _c.FAILURE:
            return None
        raise Unsupported('regex op %s' % op)

    def _at(self, av, s, i, flags):
        n = len(s)
        ml = flags & _re.M
        if av in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return bool(ml and av is _c.AT_BEGINNING and bool(ch_eq(s[i - 1], 10)))
        if av is _c.AT_END_STRING:
            return i == n
        if av is _c.AT_END:
            if i == n:
                return True
            if ml:
                return bool(ch_eq(s[i], 10))
            return i == n - 1 and bool(ch_eq(s[i], 10))
        if av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            nd = _class_of(_c.IN, [(_c.CATEGORY, _c.CATEGORY_WORD)], flags)
            a = i > 0 and bool(ch_in(s[i - 1], nd.key, nd.pred))
            b = i < n and bool(ch_in(s[i], nd.key, nd.pred))
            return (a != b) == (av is _c.AT_BOUNDARY)
        raise Unsupported('regex anchor %s' % av)

    def _try(self, s, i, full=False, nonempty_from=None):
        """match at i -> Match tuple (end, groups) or None"""
        def k(j, g):
            if full and j != len(s):
                return None
            if nonempty_from is not None and j == nonempty_from:
                return None
            return (j, g)
        return self._m(self.tree(), 0, s, i, {}, k, self.flags)

    def _scan(self, string):
        """finditer semantics of Python >= 3.7"""
        s = chars_of(string)
        pos = 0
        must = None   # an empty match directly after the last match is barred
        n = len(s)
        while pos <= n:
            found = None
            for i in range(pos, n + 1):
                r = self._try(s, i, nonempty_from=(must if must == i else None))
                if r is not None:
                    found = (i, r)
                    break
            if found is None:
                return
            i, (j, g) = found
            yield Match(self, string, i, j, g)
            # an empty match may follow a non-empty one, not another empty one
            must = j if i == j else None
            pos = j

    # -- public API
    def _bytes(self):
        if self._twin is None:
            from .symbytes import BytesPattern
            self._twin = BytesPattern(self)
        return self._twin

    def _sym(self, string):
        if type(string) is SymStr:
            return True
        if not isinstance(string, (str, bytes, bytearray)):
            raise TypeError('expected string or bytes-like object')
        return False

    def match(self, string, pos=None, endpos=None):
        if type(string) is SymBytes:
            return self._bytes().one('match', string, *[p for p in (pos, endpos) if p is not None])
        if not self._sym(string):
            return self.real.match(string, *[int(p) for p in (pos, endpos) if p is not None])
        return self._wrap(string, pos, endpos, 'match')

    def fullmatch(self, string, pos=None, endpos=None):
        if type(string) is SymBytes:
            return self._bytes().one('fullmatch', string, *[p for p in (pos, endpos) if p is not None])
        if not self._sym(string):
            return self.real.fullmatch(string, *[int(p) for p in (pos, endpos) if p is not None])
        return self._wrap(string, pos, endpos, 'full')

    def search(self, string, pos=None, endpos=None):
        if type(string) is SymBytes:
            return self._bytes().one('search', string, *[p for p in (pos, endpos) if p is not None])
        if not self._sym(string):
            return self.real.search(string, *[int(p) for p in (pos, endpos) if p is not None])
        return self._wrap(string, pos, endpos, 'search')

    def _wrap(self, string, pos, endpos, mode):
        if endpos is not None:
            string = string[:int(endpos)]
        s = chars_of(string)
        pos = 0 if pos is None else max(0, int(pos))
        if pos > len(s):
            return None
        if mode == 'search':
            for i in range(pos, len(s) + 1):
                r = self._try(s, i)
                if r is not None:
                    return Match(self, string, i, r[0], r[1])
            return None
        r = self._try(s, pos, full=(mode == 'full'))
        return None if r is None else Match(self, string, pos, r[0], r[1])

    def finditer(self, string, pos=None, endpos=None):
        if type(string) is SymBytes:
            if pos is not None or endpos is not None:
                raise Unsupported('finditer with bounds')
            return self._bytes().finditer(string)
        if not self._sym(string):
            return self.real.finditer(string, *[int(p) for p in (pos, endpos) if p is not None])
        if pos is not None or endpos is not None:
            raise Unsupported('finditer with bounds')
        return self._scan(string)

    def findall(self, string, pos=None, endpos=None):
        if type(string) is SymBytes:
            return self._bytes().findall(string)
        if not self._sym(string):
            return self.real.findall(string, *[int(p) for p in (pos, endpos) if p is not None])
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(x if x is not None else '' for x in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        if type(string) is SymBytes:
            return self._bytes().split(string, maxsplit)
        if not self._sym(string):
            return self.real.split(string, maxsplit)
        out = []
        last = 0
        n = 0
        for m in self._scan(string):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(string[last:])
        return out

    def subn(self, repl, string, count=0):
        if type(string) is SymBytes:
            return self._bytes().subn(repl, string, count)
        if not self._sym(string) and not callable(repl) and type(repl) is not SymStr:
            return self.real.subn(repl, string, count)
        if callable(repl):
            f = repl
        elif type(repl) is SymStr:
            if bool(repl.has('\\')):
                raise Unsupported('symbolic re.sub template')
            f = lambda m: repl
        elif '\\' not in repl:
            f = lambda m: repl
        else:
            f = lambda m: m.expand(repl)
        out = []
        last = 0
        n = 0
        it = self._scan(string) if type(string) is SymStr else self.real.finditer(string)
        for m in it:
            if count and n >= count:
                break
            out.append(string[last:m.start()])
            out.append(f(m))
            last = m.end()
            n += 1
        out.append(string[last:])
        return SymStr(()).join(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def __eq__(self, o):
        return isinstance(o, Pattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)


class Match(object):
    def __init__(self, pat, string, i, j, g):
        self.re = pat
        self.string = string
        self._g = dict(g)
        self.lastindex = self._g.pop(0, None)
        self._span = (i, j)
        self.pos = 0
        self.endpos = len(string)

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _idx(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        k = int(k)
        if k < 0 or k > self.re.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        k = self._idx(k)
        if k == 0:
            return self._span
        return self._g.get(k, (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def _one(self, k):
        a, b = self.span(k)
        return None if a < 0 else self.string[a:b]

    __getitem__ = _one

    def groups(self, default=None):
        out = []
        for k in range(1, self.re.groups + 1):
            v = self._one(k)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {k: (default if self._one(v) is None else self._one(v))
                for k, v in self.re.groupindex.items()}

    def expand(self, template):
        parts = _parser.parse_template(template, self.re.real)
        out = []
        for p in parts:
            if isinstance(p, int):
                v = self._one(p)
                out.append('' if v is None else v)
            else:
                out.append(p)
        return SymStr(()).join(out)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, (Pattern,)):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return Pattern(pattern)
    if type(pattern) is SymStr:
        pattern = pattern.concrete()
    key = (type(pattern), pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = Pattern(pattern, flags)
    return p


def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def search(p, s, flags=0): return compile(p, flags).search(s)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)
def subn(p, r, s, count=0, flags=0): return compile(p, flags).subn(r, s, count)


_SPECIAL = frozenset(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))


def escape(s):
    if type(s) is not SymStr:
        return _re.escape(s)
    out = []
    for c in s.chars:
        if bool(ch_in(c, 'reesc', lambda x: x in _SPECIAL)):
            out.append(92)
        out.append(c)
    return mkstr(out)


def purge(): pass
