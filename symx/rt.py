"""Runtime of the transformed code: calls, builtins, formatting, printing."""
import builtins as _b
import types
import _string
import z3
from . import symre, symstr
from .engine import (eng, SymBool, SymInt, Unsupported, Abort, b_and, b_or,
                     b_not, mkint)
from .symstr import (SymStr, mkstr, chars_of, isstr, raw, is_sym, str_to_int,
                     ch_in, ch_eq)
from .symbytes import SymBytes
from .containers import (SymDict, SymDefaultDict, SymOrderedDict, SymCounter,
                         SymSet, SymFrozenSet, _View)

_str = _b.str
_int = _b.int
_type = _b.type
_SYM = (SymStr, SymInt, SymBool, SymBytes)
FUNC = types.FunctionType


def has_sym(x, depth=3):
    t = _type(x)
    if t in _SYM:
        return True
    if depth and (t is tuple or t is list):
        for y in x:
            if has_sym(y, depth - 1):
                return True
        return False
    if depth and isinstance(x, (SymDict, SymSet)) and not isinstance(x, (dict, set)):
        return True
    if depth and t is dict:
        return any(has_sym(v, depth - 1) for v in x.values())
    if depth and t is slice:
        return any(has_sym(y, 0) for y in (x.start, x.stop, x.step))
    if depth and isinstance(x, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def realise(x, depth=4):
    """concrete native version of x (forks over every value)"""
    t = _type(x)
    if t is SymStr or t is SymInt or t is SymBytes:
        return x.concrete()
    if t is SymBool:
        return bool(x)
    if depth:
        if t is list:
            return [realise(y, depth - 1) for y in x]
        if t is tuple:
            return tuple(realise(y, depth - 1) for y in x)
        if _type.__instancecheck__(SymDict, x):
            return {realise(k): realise(v, depth - 1) for k, v in x.items()}
        if _type.__instancecheck__(SymSet, x):
            c = frozenset if x.frozen else set
            return c(realise(y, depth - 1) for y in x)
        if t is dict:
            return {k: realise(v, depth - 1) for k, v in x.items()}
        if t is slice:
            return slice(realise(x.start, 0), realise(x.stop, 0), realise(x.step, 0))
    return x


# -- indices ----------------------------------------------------------------

def norm_index(i, n):
    """SymInt index of a sequence of length n -> concrete index or IndexError"""
    if _type(i) is SymInt:
        if not bool(b_and([i >= -n, i < n])):
            raise IndexError('index out of range')
        return i.concrete()
    return i


def norm_bound(b, n):
    if _type(b) is SymInt:
        if bool(b >= n):
            return n
        if bool(b <= -n):
            return 0
        return b.concrete()
    if _type(b) is SymBool:
        return int(bool(b))
    return b


def norm_slice(s, n):
    if s.step is None and (_type(s.start) is SymInt or _type(s.stop) is SymInt):
        return slice(norm_bound(s.start, n), norm_bound(s.stop, n))
    return s


def getitem(o, k):
    t = _type(k)
    if t is SymInt or t is slice:
        to = _type(o)
        if to is list or to is tuple or to is _str or to is SymStr:
            k = norm_index(k, len(o)) if t is SymInt else norm_slice(k, len(o))
    elif t is SymStr or t is tuple:
        if _type(o) is dict:
            return SymDict(o)[k]
    return o[k]


# -- strings ----------------------------------------------------------------

def sym_str(x=''):
    t = _type(x)
    if t is _str or t is SymStr:
        return x
    if t is SymInt or t is SymBool:
        return _str(x.concrete() if t is SymInt else bool(x))
    m = getattr(t, '__str__', None)
    if _type(m) is FUNC:
        return inner(m)(x)
    if isinstance(x, BaseException) and m in (BaseException.__str__, KeyError.__str__, OSError.__str__):
        if has_sym(x.args):
            if len(x.args) == 1:
                return sym_str(x.args[0]) if m is BaseException.__str__ else sym_repr(x.args[0])
            return sym_repr(x.args)
        return _str(x)
    if m is object.__str__ or m in (list.__str__, tuple.__str__):
        return sym_repr(x)
    return _str(x)


def sym_repr(x):
    t = _type(x)
    if t is SymStr:
        plain = b_and([ch_in(c, 'reprplain',
                             lambda c: chr(c).isprintable() and c not in (39, 92))
                       for c in x.chars])
        if bool(plain):
            return "'" + x + "'"
        return repr(x.concrete())
    if t is SymInt or t is SymBool:
        return _str(x)
    m = getattr(t, '__repr__', None)
    if _type(m) is FUNC and t.__module__ not in ('symx.containers',):
        return inner(m)(x)
    if t is list:
        return '[' + raw(', ').join([sym_repr(y) for y in x]) + ']'
    if isinstance(x, tuple) and m is tuple.__repr__:
        if len(x) == 1:
            return '(' + sym_repr(x[0]) + ',)'
        return '(' + raw(', ').join([sym_repr(y) for y in x]) + ')'
    if _type.__instancecheck__(SymDict, x):
        return '{' + raw(', ').join([sym_repr(k) + ': ' + sym_repr(v)
                                     for k, v in x.items()]) + '}'
    if _type.__instancecheck__(SymSet, x):
        return '{' + raw(', ').join([sym_repr(k) for k in x]) + '}' if x else 'set()'
    return repr(x)


def parse_format(s):
    """(literal, field, spec, conversion) tuples of a format string"""
    if _type(s) is not SymStr:
        for t in _string.formatter_parser(s):
            yield t
        return
    cs = s.chars
    i, n = 0, len(cs)
    lit = []
    while i < n:
        c = cs[i]
        if bool(ch_eq(c, 123)):       # {
            if i + 1 < n and bool(ch_eq(cs[i + 1], 123)):
                lit.append(123)
                i += 2
                yield (mkstr(lit), None, None, None)
                lit = []
                continue
            if i + 1 >= n:
                raise ValueError("Single '{' encountered in format string")
            i += 1
            j, depth, brack = i, 1, False
            while j < n:
                if bool(ch_eq(cs[j], 123)) and not brack:
                    depth += 1
                elif bool(ch_eq(cs[j], 125)) and not brack:
                    depth -= 1
                    if depth == 0:
                        break
                elif bool(ch_eq(cs[j], 91)):
                    brack = True
                elif bool(ch_eq(cs[j], 93)):
                    brack = False
                j += 1
            if j >= n:
                raise ValueError("expected '}' before end of string")
            body = cs[i:j]
            k = 0
            br = False
            while k < len(body):
                if not br and bool(ch_in(body[k], 'fmt!:', lambda c: c in (33, 58))):
                    break
                if bool(ch_eq(body[k], 91)):
                    br = True
                elif bool(ch_eq(body[k], 93)):
                    br = False
                elif bool(ch_eq(body[k], 123)):
                    raise ValueError("unexpected '{' in field name")
                k += 1
            name = mkstr(body[:k])
            conv, spec = None, ''
            if k < len(body):
                if bool(ch_eq(body[k], 33)):
                    if k + 1 >= len(body):
                        raise ValueError("end of string while looking for conversion specifier")
                    conv = mkstr(body[k + 1:k + 2])
                    k += 2
                    if k < len(body):
                        if not bool(ch_eq(body[k], 58)):
                            raise ValueError("expected ':' after conversion specifier")
                        spec = mkstr(body[k + 1:])
                else:
                    spec = mkstr(body[k + 1:])
            yield (mkstr(lit), name, spec, conv)
            lit = []
            i = j + 1
        elif bool(ch_eq(c, 125)):
            if i + 1 < n and bool(ch_eq(cs[i + 1], 125)):
                lit.append(125)
                i += 2
                yield (mkstr(lit), None, None, None)
                lit = []
                continue
            raise ValueError("Single '}' encountered in format string")
        else:
            lit.append(c)
            i += 1
    if lit:
        yield (mkstr(lit), None, None, None)


def format_value(v, spec=''):
    t = _type(v)
    if _type(spec) is SymStr:
        spec = spec.concrete()
    if t is SymStr:
        return format_strspec(v, spec)
    if t is SymInt or t is SymBool:
        return format(v.concrete() if t is SymInt else bool(v), spec)
    m = getattr(t, '__format__', None)
    if _type(m) is FUNC:
        return inner(m)(v, spec)
    if m is object.__format__:
        if spec:
            raise TypeError('unsupported format string passed to __format__')
        return sym_str(v)
    if m is _str.__format__ or t in (int, float, bool):
        return format(v, spec)
    if not spec:
        return sym_str(v)
    return format(v, spec)


def format_strspec(s, spec):
    if not spec:
        return s
    fill, align = ' ', '<'
    i = 0
    if len(spec) > 1 and spec[1] in '<>^=':
        fill, align, i = spec[0], spec[1], 2
    elif spec[0] in '<>^=':
        align, i = spec[0], 1
    rest = spec[i:]
    if rest.startswith('0'):
        return format(s.concrete(), spec)
    w = ''
    while rest and rest[0].isdigit():
        w += rest[0]
        rest = rest[1:]
    prec = None
    if rest.startswith('.'):
        rest = rest[1:]
        p = ''
        while rest and rest[0].isdigit():
            p += rest[0]
            rest = rest[1:]
        prec = int(p)
    if rest not in ('', 's') or align == '=':
        raise ValueError('Unknown format code for str')
    if prec is not None:
        s = raw(s[:prec])
    w = int(w or 0)
    if align == '<':
        return raw(s).ljust(w, fill)
    if align == '>':
        return raw(s).rjust(w, fill)
    pad = max(0, w - len(s))
    return fill * (pad // 2) + s + fill * (pad - pad // 2)


def get_field(name, args, kwargs, auto):
    if _type(name) is SymStr:
        name = name.concrete()
    first, rest = _string.formatter_field_name_split(name)
    if first == '':
        if auto[0] is None:
            raise ValueError('cannot switch from manual field specification '
                             'to automatic field numbering')
        obj = args[auto[0]]
        auto[0] += 1
    elif _type(first) is int:
        if auto[0]:
            raise ValueError('cannot switch from automatic field numbering '
                             'to manual field specification')
        auto[0] = None
        if first >= len(args):
            raise IndexError('Replacement index %d out of range' % first)
        obj = args[first]
    else:
        obj = kwargs[first]
    for is_attr, i in rest:
        obj = getattr(obj, i) if is_attr else getitem(obj, i)
    return obj


def str_format(fmt, args, kwargs, auto=None, depth=2):
    if depth < 0:
        raise ValueError('Max string recursion exceeded')
    out = []
    auto = [0] if auto is None else auto
    for lit, name, spec, conv in parse_format(fmt):
        if lit:
            out.append(lit)
        if name is None:
            continue
        try:
            obj = get_field(name, args, kwargs, auto)
        except IndexError:
            raise IndexError('Replacement index out of range for positional args tuple')
        if conv is not None:
            if _type(conv) is SymStr:
                conv = conv.concrete()
            if conv == 's':
                obj = sym_str(obj)
            elif conv == 'r':
                obj = sym_repr(obj)
            elif conv == 'a':
                obj = ascii(realise(obj))
            else:
                raise ValueError('Unknown conversion specifier ' + conv)
        if spec:
            spec = str_format(spec, args, kwargs, auto, depth - 1)
        out.append(format_value(obj, spec or ''))
    return raw('').join(out)


def str_mod(fmt, args):
    if _type(fmt) is SymStr:
        fmt = fmt.concrete()
    if not isinstance(args, tuple):
        mapping = args
        args = (args,)
    else:
        mapping = None
    import re
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(?:\((.*?)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if key is not None:
            v = mapping[key]
        else:
            if k >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[k]
            k += 1
        if ty in 'sr':
            s = sym_str(v) if ty == 's' else sym_repr(v)
            if prec:
                s = s[:int(prec)]
            if width:
                s = raw(s).ljust(int(width)) if '-' in flags else raw(s).rjust(int(width))
            out.append(s)
        else:
            out.append(('%' + flags + (width or '') + ('.' + prec if prec else '') + ty)
                       % (realise(v),))
    out.append(fmt[pos:])
    if mapping is None and k < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return raw('').join(out)


def mod(a, b):
    if _type(a) is _str and (has_sym(b) or not _prim(b)):
        return str_mod(a, b)
    return a % b


def _prim(x):
    t = _type(x)
    if t is tuple:
        return all(_prim(y) for y in x)
    return t in (_str, int, float, bool, _type(None), bytes)


def contains(a, c):
    """a in c"""
    tc = _type(c)
    if tc is _str and _type(a) is SymStr:
        return bool(raw(c).has(a))
    if tc in (set, frozenset) and has_sym(a):
        return a in SymSet(c)
    if tc is dict and has_sym(a):
        return a in SymDict(c)
    if tc is range and _type(a) is SymInt:
        if c.step == 1:
            return bool(b_and([a >= c.start, a < c.stop]))
    return a in c


def not_contains(a, c):
    return not contains(a, c)


def fstr(parts):
    return raw('').join(parts)


def fvalue(v, conv, spec):
    if conv == 115:
        v = sym_str(v)
    elif conv == 114:
        v = sym_repr(v)
    elif conv == 97:
        v = ascii(realise(v))
    return format_value(v, spec if spec else '')


# -- type proxies -------------------------------------------------------------

class _ProxyMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, s):
        s = getattr(s, '_real', s) if s in (StrProxy, IntProxy) else s
        return issubclass(s, cls._real)

    def __getattr__(cls, name):
        f = getattr(cls._real, name)
        if cls._real is _str and not name.startswith('__'):
            if name == 'maketrans':
                return lambda *a: SymDict(_str.maketrans(*[realise(x) for x in a]))
            def unbound(s, /, *a, **k):
                return callm(s, name, *a, **k)
            return unbound
        return f

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    @property
    def __name__(cls):
        return cls._real.__name__


class StrProxy(object, metaclass=_ProxyMeta):
    _real = _str

    def __new__(cls, x='', *enc):
        if enc:
            if hasattr(x, 'decode'):
                return callm(x, 'decode', *enc)
            return _str(x, *enc)
        return sym_str(x)


class IntProxy(object, metaclass=_ProxyMeta):
    _real = _int

    def __new__(cls, x=0, base=None):
        t = _type(x)
        if t is SymStr:
            return str_to_int(x, 10 if base is None else base)
        if t is SymInt:
            return x
        if t is SymBool:
            return x._i()
        return _int(x) if base is None else _int(x, base)


def rt_type(*a):
    if len(a) == 1:
        t = _type(a[0])
        if t is SymStr or t is _str:
            return StrProxy
        if t is SymInt or t is int:
            return IntProxy
        if t is SymBool:
            return bool
        if t is dict:
            return SymDict
        if t is set:
            return SymSet
        return t
    return _type(*a)


def rt_float(x=0.0):
    return float(realise(x))


def rt_ord(c):
    if _type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return mkint(c.chars[0].expr())
    return ord(c)


def rt_chr(i):
    return chr(realise(i))


def rt_hash(x):
    return hash(realise(x))


def rt_format(v, spec=''):
    return format_value(v, spec)


def rt_print(*args, sep=' ', end='\n', file=None, flush=False):
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    text = raw(sep).join([sym_str(a) for a in args]) + end
    if file is None or file is _sys.stdout:
        STDOUT.append(text)
    else:
        callm(file, 'write', text)


import sys as _sys
STDOUT = []
VFS = {}          # virtual file system: path -> text
VDIRS = set()


def reset_env():
    STDOUT.clear()
    VFS.clear()
    VDIRS.clear()


def rt_open(path, mode='r', *a, **k):
    path = realise(path)
    from .stubs import SymStringIO, SymBinaryIO, SymBinaryOut, SymBuffer
    # files are UTF-8 throughout
    if '+' in mode:
        raise Unsupported('virtual file of mode ' + mode)
    if 'r' in mode:
        if path not in VFS:
            raise FileNotFoundError(2, 'No such file', path)
        t = VFS[path]
        if isinstance(t, bytes) and 'b' not in mode:
            t = t.decode('utf-8')
        return (SymBinaryIO if 'b' in mode else SymStringIO)(t)
    if 'x' in mode and path in VFS:
        raise FileExistsError(17, 'File exists', path)
    if 'b' in mode:
        return SymBinaryOut(path, VFS[path] if 'a' in mode and path in VFS else '')
    f = SymStringIO('')
    if 'a' in mode and path in VFS:
        f.write(VFS[path])
    VFS[path] = f.getvalue()
    f._path = path
    f.buffer = SymBuffer(f)
    return f


def rt_getattr(o, name, *d):
    return getattr(o, realise(name), *d)


def rt_setattr(o, name, v):
    return setattr(o, realise(name), v)


def rt_hasattr(o, name):
    return hasattr(o, realise(name))


def rt_range(*a):
    return range(*[realise(x) for x in a])


def rt_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def rt_eval(src, g=None, l=None):
    from .transform import eval_src
    return eval_src(realise(src), g, l)


def rt_isinstance(x, c):
    return isinstance(x, c)


def rt_dict(*kv):
    d = SymDict()
    for i in range(0, len(kv), 2):
        if kv[i] is UNPACK:
            d.update(kv[i + 1])
        else:
            d[kv[i]] = kv[i + 1]
    return d


UNPACK = object()

# -- calls ----------------------------------------------------------------------
# native callables that are transparent to symbolic values (they only move
# references, or call back __eq__/__lt__/__bool__/__iter__)
SAFE = {
    iter, next, enumerate, zip, map, filter, reversed, any, all, len, id,
    isinstance, issubclass, callable, sorted, min, max, list, tuple, bool,
    object, slice, property, staticmethod, classmethod, abs, divmod, super,
    _type, repr, BaseException,
}
SAFE_MODULES = {'itertools', 'functools', 'operator', '_operator', '_functools',
                'collections', '_collections', 'copy', 'symx', 'weakref',
                '_weakref', 'contextlib', 'heapq', '_heapq', 'bisect',
                '_bisect', 'pprint'}
SAFE_SELF = (list, tuple, BaseException)
_NATIVE_SUBST = {}


def _safe_self(s):
    if isinstance(s, SAFE_SELF):
        return True
    m = _type(s).__module__
    return m in SAFE_MODULES or m == 'itertools'


def call(f, /, *a, **k):
    t = _type(f)
    if t is FUNC:
        m = f.__globals__.get('__symx__')
        if m or f.__module__ is None:
            return f(*a, **k)
        mod_ = f.__module__.split('.')[0]
        if mod_ in SAFE_MODULES:
            return f(*a, **k)
        return f(*_real_args(f, a), **_real_kw(f, k))
    if t is types.MethodType:
        fn = f.__func__
        if _type(fn) is FUNC and (fn.__globals__.get('__symx__')
                                  or fn.__module__.split('.')[0] in SAFE_MODULES):
            return f(*a, **k)
        if _type(fn) is FUNC:
            return f(*_real_args(f, a), **_real_kw(f, k))
        return f(*a, **k)
    if t is types.BuiltinFunctionType or t is types.BuiltinMethodType:
        if f in SAFE:
            return f(*a, **k)
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            ts = _type(s)
            if ts is _str and (any(has_sym(x) for x in a) or f.__name__ == 'format'):
                return callm(s, f.__name__, *a, **k)
            if _safe_self(s):
                if isinstance(s, list) and f.__name__ == 'index':
                    return list_index(s, *a)
                if isinstance(s, list) and f.__name__ == 'remove':
                    return list.__delitem__(s, list_index(s, *a))
                if ts is list or isinstance(s, list):
                    a = _norm_list_args(s, f.__name__, a)
                return f(*a, **k)
            if isinstance(s, type):
                return f(*a, **k)
        elif getattr(f, '__module__', None) in SAFE_MODULES:
            return f(*a, **k)
        return f(*_real_args(f, a), **_real_kw(f, k))
    if isinstance(f, type):
        if f in SAFE or f.__module__ in SAFE_MODULES or \
                getattr(f, '__symx__', False) or f is SymDict:
            if f is _type:
                return rt_type(*a)
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        mod_ = f.__module__
        if mod_ in TRANSFORMED or mod_.split('.')[0] == 'symx':
            return f(*a, **k)
        return f(*_real_args(f, a), **_real_kw(f, k))
    if t is types.WrapperDescriptorType or t is types.MethodDescriptorType:
        # e.g. list.append(self, x): unbound natives
        oc = f.__objclass__
        if oc is _str:
            return callm(a[0], f.__name__, *a[1:], **k)
        if issubclass(oc, (list, tuple, BaseException)) or oc is object:
            if oc is list:
                if f.__name__ == 'index':
                    return list_index(*a)
                if f.__name__ == 'remove':
                    return list.__delitem__(a[0], list_index(*a))
                a = (a[0],) + _norm_list_args(a[0], f.__name__, a[1:])
            return f(*a, **k)
        return f(*_real_args(f, a), **_real_kw(f, k))
    return f(*a, **k)


TRANSFORMED = set()


def native_str(f):
    """__repr__/__str__ called from C must return a real str"""
    def wrapper(self, *a):
        return realise(f(self, *a))
    wrapper.__symx_inner__ = f
    return wrapper


def inner(m):
    return getattr(m, '__symx_inner__', m)


def list_index(s, x, lo=0, hi=None):
    n = list.__len__(s)
    lo, hi, _ = slice(realise(lo), realise(hi)).indices(n)
    for i in range(lo, hi):
        y = list.__getitem__(s, i)
        if y is x or bool(y == x):
            return i
    raise ValueError('object is not in list')


def _norm_list_args(s, name, a):
    if not a:
        return a
    x = a[0]
    if _type(x) is SymInt or _type(x) is slice:
        n = len(s)
        if name in ('__getitem__', '__setitem__', '__delitem__', 'pop'):
            x = norm_index(x, n) if _type(x) is SymInt else norm_slice(x, n)
            return (x,) + a[1:]
        if name == 'insert' and _type(x) is SymInt:
            return (norm_bound(x, n),) + a[1:]
    return a


def _real_args(f, a):
    if any(has_sym(x) for x in a):
        return tuple(realise(x) for x in a)
    return a


def _real_kw(f, k):
    if any(has_sym(x) for x in k.values()):
        return {n: realise(v) for n, v in k.items()}
    return k


_FMT_SAFE = (int, float, bool, _type(None))


def callm(o, name, /, *a, **k):
    t = _type(o)
    if t is _str:
        if name == 'format' or name == 'format_map':
            if name == 'format_map':
                return str_format(o, (), a[0])
            for x in a:
                if _type(x) is not _str and _type(x) not in _FMT_SAFE:
                    return str_format(o, a, k)
            for x in k.values():
                if _type(x) is not _str and _type(x) not in _FMT_SAFE:
                    return str_format(o, a, k)
            return o.format(*a, **k)
        if name == 'join':
            return raw(o).join(a[0])
        if a and any(has_sym(x) for x in a):
            return getattr(raw(o), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is SymStr:
        return getattr(o, name)(*a, **k)
    if t is dict and a and has_sym(a[0]) and name in ('get', '__contains__', '__getitem__'):
        return getattr(SymDict(o), name)(*a, **k)
    return call(getattr(o, name), *a, **k)


def str_attr(o, name):
    return getattr(raw(o) if _type(o) is _str else o, name)


BUILTINS = dict(_b.__dict__)
BUILTINS.update(
    str=StrProxy, int=IntProxy, dict=SymDict, set=SymSet,
    frozenset=SymFrozenSet, type=_type, float=rt_float, ord=rt_ord,
    chr=rt_chr, hash=rt_hash, format=rt_format, print=rt_print, open=rt_open,
    getattr=rt_getattr, setattr=rt_setattr, hasattr=rt_hasattr,
    range=rt_range, sum=rt_sum, repr=sym_repr,
    __rt_call__=call, __rt_callm__=callm, __rt_dict__=rt_dict,
    __rt_set__=SymSet, __rt_dictc__=SymDict, __rt_mod__=mod,
    __rt_in__=contains, __rt_notin__=not_contains, __rt_fstr__=fstr,
    __rt_fv__=fvalue, __rt_getitem__=getitem, __rt_eval__=rt_eval,
    __rt_UNPACK__=UNPACK, __rt_native__=native_str, __symx__=True,
)
for _f in (rt_float, rt_ord, rt_chr, rt_hash, rt_format, rt_print, rt_open,
           rt_getattr, rt_setattr, rt_hasattr, rt_range, rt_sum, sym_repr):
    SAFE.add(_f)
