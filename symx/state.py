"""The state of modules, put back before every path.

What code keeps in globals, class attributes, default arguments or closures lives on from one
call to the next, as it should, but must not live on from one explored path to the next: paths
stand for separate runs.
"""
import builtins as _b
import collections
import types

_CONT = ('symx.containers',)


class Keeper(object):
    """tracked: top-level packages whose objects are looked into"""

    def __init__(self, tracked):
        self.tracked = tracked
        self.known = {}          # module name -> (module, records)

    def mine(self, name):
        return isinstance(name, _b.str) and name.split('.')[0] in self.tracked

    def add(self, name, module):
        got = self.known.get(name)
        if got is None or got[0] is not module:
            recs = []
            _Saver(self, recs).module(module)
            self.known[name] = (module, recs)

    def add_loaded(self, modules):
        for name in _b.list(modules):
            if self.mine(name):
                m = modules.get(name)
                if type(m) is types.ModuleType:
                    self.add(name, m)

    def restore(self):
        for _, recs in self.known.values():
            for f, o, data in recs:
                f(o, data)


def _r_list(o, data):
    if len(o) != len(data) or any(x is not y for x, y in _b.zip(_b.list.__iter__(o), data)):
        _b.list.__setitem__(o, slice(None), data)


def _r_deque(o, data):
    o.clear()
    o.extend(data)


def _r_dict(o, data):
    if len(o) != len(data) or any(k not in o or _b.dict.__getitem__(o, k) is not v for k, v in data):
        _b.dict.clear(o)
        for k, v in data:
            _b.dict.__setitem__(o, k, v)


def _r_set(o, data):
    if len(o) != len(data) or any(x not in o for x in data):
        _b.set.clear(o)
        _b.set.update(o, data)


def _r_vars(o, data):
    d = _b.vars(o)
    for k in [k for k in d if k not in data and not isinstance(d[k], types.ModuleType)]:
        _b.delattr(o, k)
    for k, v in data.items():
        if k not in d or d[k] is not v:
            _b.setattr(o, k, v)


def _r_module(o, data):
    d = o.__dict__
    for k in [k for k in d if k not in data and not isinstance(d[k], types.ModuleType)]:
        del d[k]
    for k, v in data.items():
        # (modules are put into their places by the import system)
        if (k not in d or d[k] is not v) and not isinstance(v, types.ModuleType):
            d[k] = v


def _r_instance(o, data):
    d = _b.object.__getattribute__(o, '__dict__')
    if len(d) != len(data) or any(k not in d or d[k] is not v for k, v in data.items()):
        d.clear()
        d.update(data)


def _r_cell(o, data):
    try:
        if o.cell_contents is data:
            return
    except ValueError:
        pass
    o.cell_contents = data


def _r_cache(o, data):
    o.cache_clear()


class _Saver(object):
    def __init__(self, keeper, recs):
        self.k, self.recs = keeper, recs
        self.seen = {}

    def rec(self, f, o, data):
        self.recs.append((f, o, data))

    def module(self, m):
        d = {k: v for k, v in m.__dict__.items() if k != '__builtins__'}
        d['__builtins__'] = m.__dict__.get('__builtins__')
        self.rec(_r_module, m, d)
        for k, v in d.items():
            if not k.startswith('__'):
                self.value(v)

    def value(self, o):
        t = type(o)
        if t in (_b.str, _b.int, _b.bool, _b.float, _b.bytes, type(None), types.ModuleType):
            return
        if id(o) in self.seen:
            return
        self.seen[id(o)] = o
        if t is _b.tuple:
            for x in o:
                self.value(x)
        elif t is types.FunctionType:
            if self.k.mine(o.__module__):
                for x in o.__defaults__ or ():
                    self.value(x)
                for x in (o.__kwdefaults__ or {}).values():
                    self.value(x)
                self.instance(o.__dict__, o)
                for c in o.__closure__ or ():
                    try:
                        x = c.cell_contents
                    except ValueError:
                        continue
                    self.rec(_r_cell, c, x)
                    self.value(x)
        elif t is types.MethodType:
            self.value(o.__self__)
            self.value(o.__func__)
        elif isinstance(o, (staticmethod, classmethod)):
            self.value(o.__func__)
        elif isinstance(o, property):
            for x in (o.fget, o.fset, o.fdel):
                self.value(x)
        elif isinstance(o, type):
            if self.k.mine(o.__module__):
                d = {k: v for k, v in _b.vars(o).items() if k not in ('__dict__', '__weakref__', '__doc__', '__module__', '__abstractmethods__')
                     and not k.startswith('_abc')}
                full = _b.dict(_b.vars(o))
                full.update(d)
                self.rec(_r_vars, o, full)
                for x in d.values():
                    self.value(x)
        elif callable(getattr(t, 'cache_clear', None)) and hasattr(o, '__wrapped__'):
            self.rec(_r_cache, o, None)
            self.value(o.__wrapped__)
        else:
            try:
                if isinstance(o, _b.list):
                    data = _b.list(_b.list.__iter__(o))
                    self.rec(_r_list, o, data)
                elif isinstance(o, _b.dict):
                    items = _b.list(_b.dict.items(o))
                    data = [v for _, v in items]
                    self.rec(_r_dict, o, items)
                elif isinstance(o, _b.set):
                    data = _b.list(_b.set.__iter__(o))
                    self.rec(_r_set, o, data)
                elif isinstance(o, collections.deque):
                    data = _b.list(o)
                    self.rec(_r_deque, o, data)
                else:
                    data = []
            except TypeError:
                return
            for x in data:
                self.value(x)
            if t.__module__ in _CONT or self.k.mine(t.__module__):
                self.instance(getattr(o, '__dict__', None), o)

    def instance(self, d, o):
        if type(d) is _b.dict:
            data = _b.dict(d)
            self.rec(_r_instance, o, data)
            for x in data.values():
                self.value(x)
