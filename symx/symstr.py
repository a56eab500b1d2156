"""Symbolic strings: concrete length on every path, symbolic characters.

A character is either an int code point or an SC: a (variable, map) pair where
the variable ranges over a finite alphabet and map is None (identity) or a
function table alphabet-index -> code point.  Every predicate on one character
is a subset of the alphabet and becomes a range constraint on the variable.
Tables for lower/upper/isspace/... are computed from the running interpreter.
"""
import unicodedata
import z3
from .engine import (eng, SymBool, SymInt, b_and, b_or, b_not, b_expr, mkint,
                     Unsupported)

_real_str = str


class Alphabet(object):
    _all = {}

    def __new__(cls, codes):
        codes = tuple(sorted(set(ord(c) if isinstance(c, _real_str) else c
                                 for c in codes)))
        a = cls._all.get(codes)
        if a is None:
            a = object.__new__(cls)
            a.codes = codes
            a.index = {c: i for i, c in enumerate(codes)}
            a.full = (1 << len(codes)) - 1
            a._pred = {}
            a._maps = {}
            a._exprs = {}
            cls._all[codes] = a
        return a

    def mask(self, key, pred, cmap=None):
        k = (key, cmap)
        m = self._pred.get(k)
        if m is None:
            m = 0
            tab = self.codes if cmap is None else self._maps[cmap]
            for i, c in enumerate(tab):
                if pred(c):
                    m |= 1 << i
            self._pred[k] = m
        return m

    def ranges(self, mask):
        """code point ranges of a mask, merged over codes absent from the
        alphabet (the variable never takes those)."""
        out = []
        codes = self.codes
        prev = False
        for i, c in enumerate(codes):
            if mask >> i & 1:
                if prev:
                    out[-1][1] = c
                else:
                    out.append([c, c])
                prev = True
            else:
                prev = False
        return out

    def expr(self, var, mask):
        key = (var.name, mask)
        e = var.exprs.get(mask)
        if e is None:
            v = var.z
            if mask == 0:
                e = z3.BoolVal(False)
            elif mask == self.full:
                e = z3.BoolVal(True)
            else:
                neg = self.full & ~mask
                ra, rn = self.ranges(mask), self.ranges(neg)
                use_neg = len(rn) < len(ra)
                parts = []
                for lo, hi in (rn if use_neg else ra):
                    if lo == hi:
                        parts.append(v == lo)
                    else:
                        parts.append(z3.And(v >= lo, v <= hi))
                e = parts[0] if len(parts) == 1 else z3.Or(parts)
                if use_neg:
                    e = z3.Not(e)
            var.exprs[mask] = e
        return e

    def domain_expr(self, v):
        """v ranges over exactly this alphabet."""
        out = []
        for c in self.codes:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
        parts = [(v == lo) if lo == hi else z3.And(v >= lo, v <= hi)
                 for lo, hi in out]
        return parts[0] if len(parts) == 1 else z3.Or(parts)


class CharVar(object):
    __slots__ = ('name', 'z', 'alphabet', 'exprs')

    def __init__(self, name, alphabet):
        self.name = name
        self.z = z3.Int(name)
        self.alphabet = alphabet
        self.exprs = {}


_charvars = {}


def charvar(name, alphabet):
    k = (name, alphabet)
    v = _charvars.get(k)
    if v is None:
        v = _charvars[k] = CharVar(name, alphabet)
    return v


class SC(object):
    __slots__ = ('var', 'cmap')

    def __init__(self, var, cmap=None):
        self.var = var
        self.cmap = cmap

    def table(self):
        a = self.var.alphabet
        return a.codes if self.cmap is None else a._maps[self.cmap]

    def expr(self):
        if self.cmap is None:
            return self.var.z
        a = self.var.alphabet
        tab = a._maps[self.cmap]
        e = self.var.z
        by = {}
        for i, c in enumerate(tab):
            off = c - a.codes[i]
            if off:
                by[off] = by.get(off, 0) | 1 << i
        for off, mask in sorted(by.items()):
            e = z3.If(a.expr(self.var, mask), self.var.z + off, e)
        return e

    def member(self, key, pred):
        a = self.var.alphabet
        return member_mask(self.var, a.mask(key, pred, self.cmap))

    def value(self, e):
        v = e.eval_int(self.var.z)
        if self.cmap is None:
            return v
        a = self.var.alphabet
        return a._maps[self.cmap][a.index[v]]

    def __deepcopy__(self, memo): return self


def member_mask(var, mask):
    a = var.alphabet
    if mask == 0:
        return False
    if mask == a.full:
        return True
    dm = eng().dom.get(var.name, a.full)
    if not dm & mask:
        return False
    if not dm & ~mask:
        return True
    return SymBool(a.expr(var, mask), (var, mask))


def ch_in(c, key, pred):
    """c in the class described by pred (named by key): bool or SymBool."""
    if type(c) is int:
        return bool(pred(c))
    return c.member(key, pred)


def ch_eq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        return b.member(('=', a), lambda c: c == a)
    if type(b) is int:
        return a.member(('=', b), lambda c: c == b)
    if a.var is b.var:
        if a.cmap == b.cmap:
            return True
        ta, tb = a.table(), b.table()
        m = 0
        for i in range(len(ta)):
            if ta[i] == tb[i]:
                m |= 1 << i
        return member_mask(a.var, m)
    # disjoint images?
    e = eng()
    if not (_image(a, e) & _image(b, e)):
        return False
    return SymBool(a.expr() == b.expr())


def _image(sc, e):
    a = sc.var.alphabet
    dm = e.dom.get(sc.var.name, a.full)
    key = ('img', sc.cmap, dm)
    r = a._pred.get(key)
    if r is None:
        tab = sc.table()
        r = frozenset(tab[i] for i in range(len(tab)) if dm >> i & 1)
        a._pred[key] = r
    return r


def is_sym(x):
    return type(x) in (SymStr, SymInt, SymBool)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars
    if isinstance(s, _real_str):
        return tuple(map(ord, s))
    raise TypeError('expected str, got %s' % type(s).__name__)


def mkstr(chars):
    for c in chars:
        if type(c) is not int:
            return SymStr(tuple(chars))
    return ''.join(map(chr, chars))


def isstr(x):
    return type(x) is SymStr or isinstance(x, _real_str)


def _p_space(c): return chr(c).isspace()
def _p_alpha(c): return chr(c).isalpha()
def _p_digit(c): return chr(c).isdigit()
def _p_decimal(c): return chr(c).isdecimal()
def _p_numeric(c): return chr(c).isnumeric()
def _p_alnum(c): return chr(c).isalnum()
def _p_upper(c): return chr(c).isupper()
def _p_lower(c): return chr(c).islower()
def _p_title(c): return chr(c).istitle()
def _p_print(c): return chr(c).isprintable()
def _p_ascii(c): return c < 128
def _p_idstart(c): return chr(c).isidentifier()
def _p_idcont(c): return ('a' + chr(c)).isidentifier()
_LB = set(map(ord, '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'))
def _p_lb(c): return c in _LB


def str_eq(a, b):
    """bool or SymBool; a, b strings (real or symbolic)."""
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    out = []
    for x, y in zip(ca, cb):
        r = ch_eq(x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return b_and(out)


def chars_eq_at(hay, i, needle):
    out = []
    for k, y in enumerate(needle):
        r = ch_eq(hay[i + k], y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    if not out:
        return True
    return out[0] if len(out) == 1 else b_and(out)


def str_lt(a, b, or_equal=False):
    ca, cb = chars_of(a), chars_of(b)
    n = min(len(ca), len(cb))
    tail = (len(ca) <= len(cb)) if or_equal else (len(ca) < len(cb))
    r = z3.BoolVal(tail)
    for i in range(n - 1, -1, -1):
        x, y = ca[i], cb[i]
        if type(x) is int and type(y) is int:
            if x == y:
                continue
            r = z3.BoolVal(x < y)
            continue
        ex = z3.IntVal(x) if type(x) is int else x.expr()
        ey = z3.IntVal(y) if type(y) is int else y.expr()
        r = z3.Or(ex < ey, z3.And(ex == ey, r))
    r = z3.simplify(r)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return SymBool(r)


def _charmap(fn, name):
    """list of SC/int for a one-char mapping; forks where the image of a
    character is longer than one character."""
    def apply(chars):
        out = []
        for i, c in enumerate(chars):
            if type(c) is int:
                out.extend(map(ord, fn(chr(c))))
                continue
            a = c.var.alphabet
            key = (name, c.cmap)
            special = a.mask((name, 'multi'), lambda x: len(fn(chr(x))) != 1,
                             c.cmap)
            if special:
                if bool(member_mask(c.var, special)):
                    out.extend(map(ord, fn(chr(ch_concrete(c)))))
                    continue
            if key not in a._maps:
                tab = c.table()
                a._maps[key] = tuple(
                    ord(fn(chr(x))) if len(fn(chr(x))) == 1 else x
                    for x in tab)
                if a._maps[key] == tab and c.cmap is None:
                    a._maps[key] = tab
            out.append(SC(c.var, key))
        return out
    return apply


def ch_concrete(c):
    if type(c) is int:
        return c
    e = eng()
    v = e.concretize(c.var.z)
    a = c.var.alphabet
    e.dom[c.var.name] = 1 << a.index[v]
    return v if c.cmap is None else a._maps[c.cmap][a.index[v]]


_lower = _charmap(lambda s: s.lower(), 'lower')
_upper = _charmap(lambda s: s.upper(), 'upper')
_title1 = _charmap(lambda s: s.title(), 'title')
_swap = _charmap(lambda s: s.swapcase(), 'swap')
_fold = _charmap(lambda s: s.casefold(), 'fold')


class SymStr(object):
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = chars

    @property
    def __class__(self):
        return _real_str

    # -- basics
    def concrete(self):
        return ''.join(chr(ch_concrete(c)) for c in self.chars)

    def under_model(self, e):
        return ''.join(chr(c if type(c) is int else c.value(e))
                       for c in self.chars)

    def __len__(self): return len(self.chars)
    def __bool__(self): return bool(self.chars)
    def __hash__(self): return hash(self.concrete())
    def __iter__(self):
        for c in self.chars:
            yield mkstr((c,))

    def __eq__(self, o):
        if not isstr(o):
            return False
        return str_eq(self, o)

    def __ne__(self, o): return b_not(self.__eq__(o))

    def __lt__(self, o): return str_lt(self, o) if isstr(o) else NotImplemented
    def __le__(self, o): return str_lt(self, o, True) if isstr(o) else NotImplemented
    def __gt__(self, o): return str_lt(o, self) if isstr(o) else NotImplemented
    def __ge__(self, o): return str_lt(o, self, True) if isstr(o) else NotImplemented

    def __add__(self, o):
        if not isstr(o):
            raise TypeError('can only concatenate str')
        return mkstr(self.chars + chars_of(o))

    def __radd__(self, o):
        if not isstr(o):
            raise TypeError('can only concatenate str')
        return mkstr(chars_of(o) + self.chars)

    def __mul__(self, n): return mkstr(self.chars * int(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__()
                        for x in (i.start, i.stop, i.step)))
            return mkstr(self.chars[i])
        try:
            return mkstr((self.chars[i.__index__()],))
        except AttributeError:
            raise TypeError('string indices must be integers')
        except IndexError:
            raise IndexError('string index out of range')

    def __contains__(self, o):
        if not isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        return bool(self.has(o))

    def has(self, o):
        n = chars_of(o)
        h = self.chars
        return b_or([chars_eq_at(h, i, n)
                     for i in range(len(h) - len(n) + 1)])

    def __repr__(self): return repr(self.concrete())
    def __str__(self): return self.concrete()
    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __mod__(self, args):
        from .rt import str_mod
        return str_mod(self, args)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce_ex__(self, p): raise Unsupported('pickling a symbolic str')

    # -- predicates over all characters
    def _all(self, key, pred):
        if not self.chars:
            return False
        return b_and([ch_in(c, key, pred) for c in self.chars])

    def isspace(self): return self._all('isspace', _p_space)
    def isalpha(self): return self._all('isalpha', _p_alpha)
    def isdigit(self): return self._all('isdigit', _p_digit)
    def isdecimal(self): return self._all('isdecimal', _p_decimal)
    def isnumeric(self): return self._all('isnumeric', _p_numeric)
    def isalnum(self): return self._all('isalnum', _p_alnum)
    def isprintable(self):
        return b_and([ch_in(c, 'isprintable', _p_print) for c in self.chars])
    def isascii(self):
        return b_and([ch_in(c, 'isascii', _p_ascii) for c in self.chars])
    def isupper(self): return self.concrete().isupper()
    def islower(self): return self.concrete().islower()
    def istitle(self): return self.concrete().istitle()
    def isidentifier(self): return self.concrete().isidentifier()

    # -- searching
    def _bounds(self, start, end):
        s, e, _ = slice(start if start is None else start.__index__(),
                        end if end is None else end.__index__()
                        ).indices(len(self.chars))
        return s, e

    def _find(self, sub, start=None, end=None, rev=False):
        n = chars_of(sub)
        if start is not None and start.__index__() > len(self.chars):
            return -1
        s, e = self._bounds(start, end)
        rng = range(s, e - len(n) + 1)
        for i in (reversed(rng) if rev else rng):
            if bool(chars_eq_at(self.chars, i, n)):
                return i
        return -1

    def find(self, sub, start=None, end=None): return self._find(sub, start, end)
    def rfind(self, sub, start=None, end=None): return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        i = self._find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, start=None, end=None):
        i = self._find(sub, start, end, True)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        n = chars_of(sub)
        s, e = self._bounds(start, end)
        if not n:
            return max(e - s, -1) + 1
        k = 0
        i = s
        while i + len(n) <= e:
            if bool(chars_eq_at(self.chars, i, n)):
                k += 1
                i += len(n)
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return b_or([self.startswith(x, start, end) for x in p])
        n = chars_of(p)
        s, e = self._bounds(start, end)
        if start is not None and start.__index__() > len(self.chars):
            return False
        if e - s < len(n):
            return False
        return chars_eq_at(self.chars, s, n)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return b_or([self.endswith(x, start, end) for x in p])
        n = chars_of(p)
        s, e = self._bounds(start, end)
        if start is not None and start.__index__() > len(self.chars):
            return False
        if e - s < len(n):
            return False
        return chars_eq_at(self.chars, e - len(n), n)

    # -- transformations
    def lower(self): return mkstr(_lower(self.chars))
    def upper(self): return mkstr(_upper(self.chars))
    def swapcase(self): return mkstr(_swap(self.chars))
    def casefold(self): return mkstr(_fold(self.chars))

    def title(self):
        out = []
        prev = False
        for c in self.chars:
            if prev:
                out.extend(_lower((c,)))
            else:
                out.extend(_title1((c,)))
            prev = bool(ch_in(c, 'cased', lambda x: chr(x).isupper()
                              or chr(x).islower() or chr(x).istitle()))
        return mkstr(out)

    def capitalize(self):
        return mkstr(_title1(self.chars[:1]) + _lower(self.chars[1:]))

    def _stripset(self, chars):
        if chars is None:
            return lambda c: bool(ch_in(c, 'isspace', _p_space))
        cs = chars_of(chars)
        if all(type(x) is int for x in cs):
            ss = frozenset(cs)
            return lambda c: bool(ch_in(c, ('in', ss), lambda x: x in ss))
        return lambda c: bool(b_or([ch_eq(c, x) for x in cs]))

    def lstrip(self, chars=None):
        t = self._stripset(chars)
        i = 0
        while i < len(self.chars) and t(self.chars[i]):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        t = self._stripset(chars)
        i = len(self.chars)
        while i > 0 and t(self.chars[i - 1]):
            i -= 1
        return mkstr(self.chars[:i])

    def strip(self, chars=None):
        t = self._stripset(chars)
        i, j = 0, len(self.chars)
        while i < j and t(self.chars[i]):
            i += 1
        while j > i and t(self.chars[j - 1]):
            j -= 1
        return mkstr(self.chars[i:j])

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.chars)
            sp = lambda c: bool(ch_in(c, 'isspace', _p_space))
            while True:
                while i < n and sp(self.chars[i]):
                    i += 1
                if i >= n:
                    return out
                if 0 <= maxsplit <= len(out):
                    j = n
                    while j > i and sp(self.chars[j - 1]):
                        j -= 1
                    out.append(mkstr(self.chars[i:j]))
                    return out
                j = i
                while j < n and not sp(self.chars[j]):
                    j += 1
                out.append(mkstr(self.chars[i:j]))
                i = j
        n = chars_of(sep)
        if not n:
            raise ValueError('empty separator')
        start = i = 0
        while i + len(n) <= len(self.chars):
            if 0 <= maxsplit <= len(out):
                break
            if bool(chars_eq_at(self.chars, i, n)):
                out.append(mkstr(self.chars[start:i]))
                i += len(n)
                start = i
            else:
                i += 1
        out.append(mkstr(self.chars[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.concrete().rsplit(sep, maxsplit)
        n = chars_of(sep)
        if not n:
            raise ValueError('empty separator')
        out = []
        end = len(self.chars)
        i = end - len(n)
        while i >= 0 and len(out) < maxsplit:
            if bool(chars_eq_at(self.chars, i, n)):
                out.append(mkstr(self.chars[i + len(n):end]))
                end = i
                i -= len(n)
            else:
                i -= 1
        out.append(mkstr(self.chars[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self._find(sep, rev=True)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        out = []
        i = start = 0
        n = len(self.chars)
        while i < n:
            if bool(ch_in(self.chars[i], 'lb', _p_lb)):
                j = i + 1
                if (bool(ch_eq(self.chars[i], 13)) and j < n
                        and bool(ch_eq(self.chars[j], 10))):
                    j += 1
                out.append(mkstr(self.chars[start:(j if keepends else i)]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(mkstr(self.chars[start:]))
        return out

    def replace(self, old, new, count=-1):
        o, nw = chars_of(old), chars_of(new)
        if type(count) is not int:
            count = count.__index__()
        out = []
        k = 0
        if not o:
            for c in self.chars:
                if count < 0 or k < count:
                    out.extend(nw)
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out.extend(nw)
            return mkstr(out)
        i = 0
        while i < len(self.chars):
            if (i + len(o) <= len(self.chars) and (count < 0 or k < count)
                    and bool(chars_eq_at(self.chars, i, o))):
                out.extend(nw)
                i += len(o)
                k += 1
            else:
                out.append(self.chars[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        for c in self.chars:
            if type(c) is not int:
                # one fork per table entry the character can hit
                hit = None
                for k in list(table.keys()):
                    if bool(ch_eq(c, k)):
                        hit = k
                        break
                if hit is None:
                    out.append(c)
                    continue
                c = hit
            try:
                r = table[c]
            except LookupError:
                out.append(c)
                continue
            if r is None:
                continue
            if type(r) is int:
                out.append(r)
            else:
                out.extend(chars_of(r))
        return mkstr(out)

    def expandtabs(self, n=8): return self.concrete().expandtabs(n)

    def ljust(self, w, fill=' '):
        w = w.__index__()
        return mkstr(self.chars + chars_of(fill) * max(0, w - len(self.chars)))

    def rjust(self, w, fill=' '):
        w = w.__index__()
        return mkstr(chars_of(fill) * max(0, w - len(self.chars)) + self.chars)

    def center(self, w, fill=' '):
        w = w.__index__()
        pad = max(0, w - len(self.chars))
        left = pad // 2 + (pad & w & 1)
        return mkstr(chars_of(fill) * left + self.chars
                     + chars_of(fill) * (pad - left))

    def zfill(self, w): return self.concrete().zfill(w)

    def join(self, xs):
        out = []
        first = True
        for x in xs:
            if not isstr(x):
                raise TypeError('sequence item: expected str instance')
            if not first:
                out.extend(self.chars)
            out.extend(chars_of(x))
            first = False
        return mkstr(out)

    def format(self, *a, **k):
        from .rt import str_format
        return str_format(self, a, k)

    def format_map(self, m):
        from .rt import str_format
        return str_format(self, (), m)

    def encode(self, encoding='utf-8', errors='strict'):
        from .symbytes import encode
        return encode(self, encoding, errors)


def raw(s):
    """SymStr view of any string (so its methods accept symbolic args)."""
    if type(s) is SymStr:
        return s
    return SymStr(tuple(map(ord, s)))


def _bad_int(s):
    from .rt import sym_repr
    return ValueError('invalid literal for int() with base 10: ' + sym_repr(s))


def str_to_int(s, base=10):
    """int(SymStr)"""
    if base != 10:
        return int(s.concrete(), base)
    t = s.strip()
    if type(t) is _real_str:
        try:
            return int(t)
        except ValueError:
            raise _bad_int(s)
    cs = t.chars
    sign = 1
    c0 = cs[0]
    if bool(ch_in(c0, 'sign', lambda c: c in (43, 45))):
        if bool(ch_eq(c0, 45)):
            sign = -1
        cs = cs[1:]
    if not cs:
        raise _bad_int(s)
    digs = []
    prev_us = True
    for c in cs:
        if bool(ch_in(c, 'isdecimal', _p_decimal)):
            digs.append(c)
            prev_us = False
        elif not prev_us and bool(ch_eq(c, 95)):
            prev_us = True
        else:
            raise _bad_int(s)
    if prev_us:
        raise _bad_int(s)
    val = z3.IntVal(0)
    for c in digs:
        val = val * 10 + digit_value(c)
    return mkint(z3.simplify(val * sign))


def digit_value(c):
    if type(c) is int:
        return z3.IntVal(unicodedata.decimal(chr(c)))
    tab = c.table()
    a = c.var.alphabet
    by = {}
    for i, x in enumerate(tab):
        d = unicodedata.decimal(chr(x), None)
        if d is not None:
            off = d - a.codes[i]
            by[off] = by.get(off, 0) | 1 << i
    items = sorted(by.items())
    e = c.var.z + items[0][0]
    for off, mask in items[1:]:
        e = z3.If(a.expr(c.var, mask), c.var.z + off, e)
    return e
