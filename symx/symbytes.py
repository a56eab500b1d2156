"""Symbolic byte strings: the UTF-8 encodings of symbolic strings.

Every byte is an int (a known byte), a symbolic character below 128, or a part
(char, k, n) of the encoding of a longer character.  Operations whose other
operands are ASCII cannot tell the latter apart, and are made on a string with
one character (0xFF) for each of them.
"""
import re as _re
from .engine import Unsupported
from .symstr import SymStr, mkstr, chars_of, isstr, str_eq, ch_concrete

_real_bytes = bytes
SPACE = ' \t\n\r\x0b\f'


def encode(s, encoding='utf-8', errors='strict'):
    if encoding.lower().replace('_', '-') not in ('utf-8', 'utf8') or errors != 'strict':
        return s.concrete().encode(encoding, errors)
    units = []
    for c in s.chars:
        if type(c) is int:
            units.extend(chr(c).encode('utf-8'))
            continue
        x = mkstr((c,))
        if not bool(x >= '\x80'):
            units.append(c)
            continue
        if bool(x >= '\ud800') and bool(x <= '\udfff'):
            raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
        n = 2 if not bool(x >= '\u0800') else 3 if not bool(x >= '\U00010000') else 4
        units.extend((c, k, n) for k in range(n))
    return mkbytes(units)


def mkbytes(units):
    for u in units:
        if type(u) is not int:
            return SymBytes(tuple(units))
    return _real_bytes(units)


def units_of(b):
    if type(b) is SymBytes:
        return b.units
    if isinstance(b, (_real_bytes, bytearray)):
        return tuple(b)
    raise TypeError('a bytes-like object is required, not %r' % type(b).__name__)


def _text(b):
    """an operand, as a string of ASCII characters"""
    if type(b) is SymBytes:
        if any(type(u) is tuple for u in b.units):
            raise Unsupported('operand with symbolic bytes that are not ASCII')
        return mkstr(tuple(b.units))
    b = _real_bytes(b)
    if any(x >= 128 for x in b):
        raise Unsupported('operand with bytes that are not ASCII')
    return b.decode('ascii')


class SymBytes(object):
    __slots__ = ('units',)

    def __init__(self, units):
        self.units = units

    @property
    def __class__(self):
        return _real_bytes

    def shadow(self):
        return mkstr(tuple(255 if type(u) is tuple or type(u) is int and u >= 128 else u for u in self.units))

    def _of(self, piece, at):
        return mkbytes(self.units[at:at + len(piece)])

    def concrete(self):
        return _real_bytes(self._bytes(lambda c: c if type(c) is int else ch_concrete(c)))

    def under_model(self, e):
        return self._bytes(lambda c: c if type(c) is int else c.value(e)).decode('latin-1')

    def _bytes(self, value):
        out = []
        for u in self.units:
            if type(u) is tuple:
                out.append(chr(value(u[0])).encode('utf-8')[u[1]])
            else:
                out.append(value(u))
        return _real_bytes(out)

    def __len__(self): return len(self.units)
    def __bool__(self): return bool(self.units)
    def __hash__(self): return hash(self.concrete())
    def __iter__(self): return iter(self.concrete())
    def __repr__(self): return repr(self.concrete())
    __str__ = __repr__

    def __eq__(self, o):
        if not isinstance(o, _real_bytes):
            return False
        o = units_of(o)
        if len(o) != len(self.units):
            return False
        return self.decode() == mkbytes(o).decode()

    def __ne__(self, o): return not bool(self.__eq__(o))

    def __add__(self, o): return mkbytes(self.units + units_of(o))
    def __radd__(self, o): return mkbytes(units_of(o) + self.units)
    def __mul__(self, n): return mkbytes(self.units * int(n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            return mkbytes(self.units[i])
        return self.concrete()[i]

    def __contains__(self, o):
        return _text(o) in self.shadow()

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding.lower().replace('_', '-') not in ('utf-8', 'utf8'):
            return self.concrete().decode(encoding, errors)
        out = []
        i, us = 0, self.units
        while i < len(us):
            u = us[i]
            if type(u) is tuple:
                if u[1] != 0 or us[i:i + u[2]] != tuple((u[0], k, u[2]) for k in range(u[2])):
                    raise UnicodeDecodeError('utf-8', b'?', 0, 1, 'invalid data')
                out.append(u[0])
                i += u[2]
            elif type(u) is int and u >= 128:
                j = i + 1
                while j < len(us) and type(us[j]) is int and 128 <= us[j] < 192:
                    j += 1
                out.extend(map(ord, _real_bytes(us[i:j]).decode('utf-8', errors)))
                i = j
            else:
                out.append(u)
                i += 1
        return mkstr(tuple(out))

    # -- methods with ASCII operands
    def lstrip(self, chars=None):
        s = self.shadow()
        t = s.lstrip(SPACE if chars is None else _text(chars))
        return mkbytes(self.units[len(s) - len(t):])

    def rstrip(self, chars=None):
        t = self.shadow().rstrip(SPACE if chars is None else _text(chars))
        return mkbytes(self.units[:len(t)])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit >= 0:
                raise Unsupported('bytes.split')
            from . import symre
            return [self[m.start():m.end()] for m in symre.finditer('[^' + SPACE + ']+', self.shadow())]
        out, at = [], 0
        for x in self.shadow().split(_text(sep), maxsplit):
            out.append(mkbytes(self.units[at:at + len(x)]))
            at += len(x) + len(sep)
        return out

    def splitlines(self, keepends=False):
        raise Unsupported('bytes.splitlines')

    def startswith(self, p, *a):
        return self.shadow().startswith(tuple(map(_text, p)) if isinstance(p, tuple) else _text(p), *a)

    def endswith(self, p, *a):
        return self.shadow().endswith(tuple(map(_text, p)) if isinstance(p, tuple) else _text(p), *a)

    def find(self, x, *a): return self.shadow().find(_text(x), *a)
    def rfind(self, x, *a): return self.shadow().rfind(_text(x), *a)
    def index(self, x, *a): return self.shadow().index(_text(x), *a)
    def count(self, x, *a): return self.shadow().count(_text(x), *a)
    def isspace(self): return bool(self.units) and not self.strip()

    def ljust(self, w, fill=b' '): return self + fill * max(0, int(w) - len(self))
    def rjust(self, w, fill=b' '): return fill * max(0, int(w) - len(self)) + self

    def join(self, xs):
        out = ()
        for i, x in enumerate(xs):
            out += (self.units if i else ()) + units_of(x)
        return mkbytes(out)


class BytesMatch(object):
    """a match of a pattern in symbolic bytes"""
    def __init__(self, m, string, pat):
        self._m, self.string, self.re = m, string, pat
        self.pos, self.endpos = 0, len(string)
        self.lastindex = m.lastindex

    def span(self, k=0): return self._m.span(k)
    def start(self, k=0): return self._m.span(k)[0]
    def end(self, k=0): return self._m.span(k)[1]

    def _one(self, k):
        a, b = self._m.span(k)
        return None if a < 0 else self.string[a:b]

    __getitem__ = _one

    def group(self, *ks):
        r = tuple(self._one(k) for k in (ks or (0,)))
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        out = [self._one(k) for k in range(1, self.re.groups + 1)]
        return tuple(default if v is None else v for v in out)


class BytesPattern(object):
    """a pattern of bytes, for symbolic bytes"""
    def __init__(self, pat):
        from . import symre
        if any(x >= 128 for x in pat.pattern) or b'\\x' in pat.pattern or b'^' in pat.pattern.replace(b'\\^', b'') \
                and b'[^' not in pat.pattern and pat.flags & _re.M:
            raise Unsupported('pattern of bytes that are not ASCII')
        self.pat = pat
        self.twin = symre.compile(pat.pattern.decode('ascii'), (pat.flags & ~_re.U) | _re.A)

    def one(self, how, string, *a):
        m = getattr(self.twin, how)(string.shadow(), *a)
        return None if m is None else BytesMatch(m, string, self.pat)

    def finditer(self, string):
        for m in self.twin.finditer(string.shadow()):
            yield BytesMatch(m, string, self.pat)

    def findall(self, string):
        ms = list(self.finditer(string))
        if self.pat.groups == 0:
            return [m.group() for m in ms]
        if self.pat.groups == 1:
            return [m.group(1) or b'' for m in ms]
        return [tuple(x or b'' for x in m.groups()) for m in ms]

    def split(self, string, maxsplit=0):
        out, last = [], 0
        for n, m in enumerate(self.finditer(string)):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(string[last:])
        return out

    def subn(self, repl, string, count=0):
        out, last, n = (), 0, 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            r = repl(m) if callable(repl) else repl
            if not callable(repl) and b'\\' in repl:
                raise Unsupported('template of bytes')
            out += string.units[last:m.start()] + units_of(r)
            last = m.end()
            n += 1
        return mkbytes(out + string.units[last:]), n
