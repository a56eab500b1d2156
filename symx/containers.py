"""dict/set family whose keys may be symbolic (forking key equality)."""
import builtins as _b
from .engine import SymBool, SymInt, Unsupported
from .symstr import SymStr

_dict = _b.dict
_missing = object()


def symkey(k):
    """does hashing k need forking equality?"""
    t = type(k)
    if t is SymStr or t is SymInt:
        return True
    if t is tuple or (t is not str and isinstance(k, tuple)):
        for x in k:
            if symkey(x):
                return True
    if t is SymFrozenSet:
        return True
    return False


class _Tok(object):
    __slots__ = ()


class _MapMeta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        return cls.__dict__.get('_real') is not None and \
            type(x) is cls._real


class SymDict(object, metaclass=_MapMeta):
    _real = _dict

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self._d = {}        # token -> [key, value]; token is the key itself
        self._s = 0         # number of symbolic keys
        return self

    def __init__(self, *a, **k):
        if len(a) > 1:
            raise TypeError('dict expected at most 1 argument')
        self.update(*a, **k)

    # -- lookup
    def _tok(self, k):
        d = self._d
        if not symkey(k):
            if k in d:            # hashes k: TypeError for unhashables
                return k
            if self._s:
                for t, e in d.items():
                    if type(t) is _Tok and bool(e[0] == k):
                        return t
            return _missing
        for t, e in d.items():
            if e[0] is k or bool(e[0] == k):
                return t
        return _missing

    def __getitem__(self, k):
        t = self._tok(k)
        if t is _missing:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._d[t][1]

    def __setitem__(self, k, v):
        t = self._tok(k)
        if t is _missing:
            if symkey(k):
                t = _Tok()
                self._s += 1
            else:
                t = k
            self._d[t] = [k, v]
        else:
            self._d[t][1] = v

    def __delitem__(self, k):
        t = self._tok(k)
        if t is _missing:
            raise KeyError(k)
        if type(t) is _Tok:
            self._s -= 1
        del self._d[t]

    def __contains__(self, k):
        return self._tok(k) is not _missing

    def get(self, k, default=None):
        t = self._tok(k)
        return default if t is _missing else self._d[t][1]

    def setdefault(self, k, default=None):
        t = self._tok(k)
        if t is _missing:
            SymDict.__setitem__(self, k, default)
            return default
        return self._d[t][1]

    def pop(self, k, *default):
        t = self._tok(k)
        if t is _missing:
            if default:
                return default[0]
            raise KeyError(k)
        if type(t) is _Tok:
            self._s -= 1
        return self._d.pop(t)[1]

    def popitem(self, last=True):
        if not self._d:
            raise KeyError('dictionary is empty')
        t = next(reversed(self._d)) if last else next(iter(self._d))
        e = self._d.pop(t)
        if type(t) is _Tok:
            self._s -= 1
        return (e[0], e[1])

    def move_to_end(self, k, last=True):
        t = self._tok(k)
        if t is _missing:
            raise KeyError(k)
        e = self._d.pop(t)
        if last:
            self._d[t] = e
        else:
            old = list(self._d.items())
            self._d.clear()
            self._d[t] = e
            self._d.update(old)

    def clear(self):
        self._d.clear()
        self._s = 0

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, SymDict) and not isinstance(o, _dict):
                for e in list(o._d.values()):
                    self[e[0]] = e[1]
            elif hasattr(o, 'keys'):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for pair in o:
                    x, y = pair
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def copy(self):
        n = type(self).__new__(type(self))
        n.__dict__.update({k: v for k, v in self.__dict__.items()
                           if k not in ('_d', '_s')})
        n._d = {t: list(e) for t, e in self._d.items()}
        n._s = self._s
        return n

    __copy__ = copy

    @classmethod
    def fromkeys(cls, ks, v=None):
        n = cls()
        for k in ks:
            n[k] = v
        return n

    # -- iteration
    def __iter__(self):
        for e in self._d.values():
            yield e[0]

    def __reversed__(self):
        for e in reversed(self._d.values()):
            yield e[0]

    def keys(self): return _View(self, 0)
    def values(self): return _View(self, 1)
    def items(self): return _View(self, 2)
    def __len__(self): return len(self._d)
    def __bool__(self): return bool(self._d)

    def __eq__(self, o):
        if not isinstance(o, (SymDict, _dict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        other = o if isinstance(o, SymDict) and hasattr(o, '_d') else SymDict(o)
        for e in self._d.values():
            t = other._tok(e[0])
            if t is _missing:
                return False
            v = other._d[t][1]
            if not (v is e[1] or bool(v == e[1])):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        n = SymDict(self)
        n.update(o)
        return n

    def __ror__(self, o):
        n = SymDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % (e[0], e[1])
                                  for e in self._d.values())


class _View(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __iter__(self):
        if self.kind == 2:
            for e in self.d._d.values():
                yield (e[0], e[1])
        else:
            k = self.kind
            for e in self.d._d.values():
                yield e[k]

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self): return len(self.d)

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        if self.kind == 2:
            return (x[0] in self.d) and bool(self.d[x[0]] == x[1])
        return any(bool(v == x) for v in self)

    def _set(self): return SymSet(self)
    def __and__(self, o): return self._set() & SymSet(o)
    def __or__(self, o): return self._set() | SymSet(o)
    def __sub__(self, o): return self._set() - SymSet(o)
    def __xor__(self, o): return self._set() ^ SymSet(o)
    def isdisjoint(self, o): return self._set().isdisjoint(o)
    def __eq__(self, o): return self._set() == SymSet(o)
    def __le__(self, o): return self._set() <= SymSet(o)
    def __ge__(self, o): return self._set() >= SymSet(o)
    __hash__ = None

    def __repr__(self): return 'view(%r)' % (list(self),)


class SymDefaultDict(SymDict):
    _real = None

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        SymDict.__setitem__(self, k, v)
        return v


class SymOrderedDict(SymDict):
    _real = None

    def __eq__(self, o):
        if isinstance(o, SymOrderedDict):
            if len(self) != len(o):
                return False
            return all(bool(a == b) for a, b in zip(self.items(), o.items()))
        return SymDict.__eq__(self, o)
    __hash__ = None


class SymCounter(SymDict):
    _real = None

    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        self.update(it, **k)

    def __missing__(self, k):
        return 0

    def update(self, it=None, **k):
        if it is not None:
            if isinstance(it, (SymDict, _dict)):
                for x in it.keys():
                    self[x] = self.get(x, 0) + it[x]
            else:
                for x in it:
                    self[x] = self.get(x, 0) + 1
        for x, n in k.items():
            self[x] = self.get(x, 0) + n

    def subtract(self, it):
        if isinstance(it, (SymDict, _dict)):
            for x in it.keys():
                self[x] = self.get(x, 0) - it[x]
        else:
            for x in it:
                self[x] = self.get(x, 0) - 1

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else items[:n]

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def total(self): return sum(self.values())

    def __delitem__(self, k):
        if k in self:
            SymDict.__delitem__(self, k)

    def __add__(self, o):
        r = SymCounter()
        for src in (self, o):
            for k, n in src.items():
                r[k] = r[k] + n
        return SymCounter({k: n for k, n in r.items() if n > 0})

    def __sub__(self, o):
        return SymCounter(SymDict((k, n - o[k]) for k, n in self.items()
                                  if n - o[k] > 0))
    __hash__ = None


class SymSet(object, metaclass=_MapMeta):
    _real = _b.set
    frozen = False

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = None

    def add(self, x): self._d[x] = None
    def discard(self, x): self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        if not self._d:
            raise KeyError('pop from an empty set')
        return self._d.popitem(False)[0]

    def clear(self): self._d.clear()
    def copy(self): return type(self)(self)
    __copy__ = copy

    def update(self, *its):
        for it in its:
            for x in it:
                self._d[x] = None

    def __contains__(self, x): return x in self._d
    def __iter__(self): return iter(self._d)
    def __len__(self): return len(self._d)
    def __bool__(self): return bool(len(self._d))

    def _new(self, it): return (SymFrozenSet if self.frozen else SymSet)(it)

    def union(self, *its):
        n = self._new(self)
        for it in its:
            for x in it:
                n._d[x] = None
        return n

    def intersection(self, *its):
        r = list(self)
        for it in its:
            it = it if isinstance(it, (SymSet, SymDict, _b.set, _b.frozenset, _View)) else SymSet(it)
            it = SymSet(it) if isinstance(it, (_b.set, _b.frozenset)) else it
            r = [x for x in r if x in it]
        return self._new(r)

    def difference(self, *its):
        r = list(self)
        for it in its:
            it = SymSet(it)
            r = [x for x in r if x not in it]
        return self._new(r)

    def symmetric_difference(self, it):
        it = SymSet(it)
        return self._new([x for x in self if x not in it]
                         + [x for x in it if x not in self])

    def intersection_update(self, *its):
        self._d = self.intersection(*its)._d

    def difference_update(self, *its):
        self._d = self.difference(*its)._d

    def isdisjoint(self, it): return not self.intersection(it)
    def issubset(self, it):
        it = SymSet(it)
        return all(x in it for x in self)
    def issuperset(self, it): return all(x in self for x in it)

    def _isset(self, o): return isinstance(o, (SymSet, _b.set, _b.frozenset, _View))

    def __or__(self, o): return self.union(o) if self._isset(o) else NotImplemented
    def __ror__(self, o): return SymSet(o).union(self)
    def __and__(self, o): return self.intersection(o) if self._isset(o) else NotImplemented
    def __rand__(self, o): return SymSet(o).intersection(self)
    def __sub__(self, o): return self.difference(o) if self._isset(o) else NotImplemented
    def __rsub__(self, o): return SymSet(o).difference(self)
    def __xor__(self, o): return self.symmetric_difference(o) if self._isset(o) else NotImplemented
    def __ior__(self, o):
        self.update(o)
        return self
    def __isub__(self, o):
        self.difference_update(o)
        return self
    def __iand__(self, o):
        self.intersection_update(o)
        return self
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not self._isset(o):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o): return not self == o
    __hash__ = None

    def __repr__(self): return '{%s}' % ', '.join(map(repr, self))


class SymFrozenSet(SymSet):
    _real = _b.frozenset
    frozen = True

    def __hash__(self):
        return hash(_b.frozenset(self))


import collections.abc as _abc
_abc.MutableMapping.register(SymDict)
