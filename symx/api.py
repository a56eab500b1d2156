"""The input/assertion interface that harnesses see, symbolic and plain."""
import z3
from . import engine as E
from .engine import SymInt, SymBool, Infeasible, StopPath
from .symstr import Alphabet, SymStr, SC, charvar, mkstr, isstr, raw
from .symbytes import SymBytes
from . import rt

ASCII = Alphabet(range(32, 127))


class SymS(object):
    """Symbolic mode."""
    symbolic = True

    def __init__(self, engine, params=None):
        self.e = engine
        self.params = dict(params or {})
        self.notes = []

    def _name(self, name):
        n = name
        k = 1
        while n in self.e.names:
            k += 1
            n = '%s~%d' % (name, k)
        self.e.names.add(n)
        return n

    # -- inputs
    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.e.inputs.append((name, lambda e: lo))
            return lo
        v = self.e.int_var(name)
        self.e.assume(z3.And(v >= lo, v <= hi))
        self.e.inputs.append((name, lambda e: e.eval_int(v)))
        return SymInt(v)

    def bool(self, name):
        name = self._name(name)
        v = self.e.bool_var(name)
        self.e.inputs.append((name, lambda e: e.eval_bool(v)))
        return SymBool(v)

    def choice(self, name, options):
        """one of a concrete list of options (forked)"""
        options = list(options)
        if len(options) == 1:
            self.int(name, 0, 0)
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.concrete()]

    def size(self, name, lo, hi):
        i = self.int(name, lo, hi)
        return i if type(i) is int else i.concrete()

    def flag(self, name):
        return bool(self.bool(name))

    def char(self, name, alphabet):
        return self.str(name, 1, 1, alphabet)

    def str(self, name, lo, hi, alphabet):
        """string of lo..hi characters over an alphabet"""
        if not isinstance(alphabet, Alphabet):
            alphabet = Alphabet(alphabet)
        base = self._name(name)
        n = lo
        if lo != hi:
            v = self.e.int_var(base + '.len')
            self.e.assume(z3.And(v >= lo, v <= hi))
            n = self.e.concretize(v)
        cs = []
        for k in range(n):
            cv = charvar('%s[%d]' % (base, k), alphabet)
            self.e.assume(alphabet.domain_expr(cv.z))
            cs.append(SC(cv))
        cs = tuple(cs)
        self.e.inputs.append((base, lambda e: ''.join(chr(c.value(e)) for c in cs)))
        if len(alphabet.codes) == 1:
            return chr(alphabet.codes[0]) * n
        return SymStr(cs) if cs else ''

    # -- obligations
    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.e.assume(cond.expr)
            if cond.narrow is not None:
                v, m = cond.narrow
                self.e.dom[v.name] = self.e.dom.get(v.name, v.alphabet.full) & m
        elif not cond:
            raise Infeasible()

    def require(self, cond, msg):
        if isinstance(cond, SymBool):
            self.e.require(cond.expr, msg)
        else:
            self.e.require(bool(cond), msg)

    def reach(self, tag):
        self.e.reached.append(tag)

    def observe(self, x):
        self.e.observed.append(x)

    def eq(self, a, b):
        return a == b

    # -- environment
    def stdout(self):
        return raw('').join(rt.STDOUT)

    def stringio(self, s=''):
        from .stubs import SymStringIO
        return SymStringIO(s)

    def logs(self):
        from .stubs import LOG
        return list(LOG.records)

    def warned(self):
        from .stubs import WS
        return [(w.category, w.message) for w in WS.log]

    def set_loglevel(self, n):
        from .stubs import LOG
        LOG.level = n

    def mkpath(self, name):
        return '/virtual/' + name

    def put_file(self, name, text):
        rt.VFS['/virtual/' + name] = text
        return '/virtual/' + name

    def get_file(self, path):
        return rt.VFS.get(rt.realise(path))

    def list_files(self):
        return sorted(rt.VFS)

    def stub_module(self, name, **attrs):
        from .stubs import module
        m = module(name, **attrs)
        m.__harness_stub__ = True
        rt.LOADER.add_stub(name, m)


def under_model(x, e):
    """value of an observed object in the current model, canonical form"""
    t = type(x)
    if t is SymStr or t is SymBytes:
        return x.under_model(e)
    if t is bytes:
        return x.decode('latin-1')
    if t is SymInt:
        return e.eval_int(x.expr)
    if t is SymBool:
        return e.eval_bool(x.expr)
    if isinstance(x, (list, tuple)):
        return [under_model(y, e) for y in x]
    if isinstance(x, rt.SymDict):
        return sorted(([under_model(k, e), under_model(v, e)]
                       for k, v in x.items()), key=repr)
    if isinstance(x, rt.SymSet) or isinstance(x, (set, frozenset)):
        return sorted((under_model(y, e) for y in x), key=repr)
    if x is None or t in (str, int, bool, float):
        return x
    return '<%s>' % t.__name__
