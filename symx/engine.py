"""Path-forking symbolic execution core.

One `Engine` explores all paths of a harness by re-execution: every branch on
a symbolic condition is a decision; z3 decides which sides are feasible under
the current path condition, and unexplored feasible sides are queued.  A
`require` is an assertion: z3 is asked for a model of (path condition and not
assertion).
"""
import time
import z3


class Abort(BaseException):
    """Base of the engine's control flow (never caught by `except Exception`)."""


class Infeasible(Abort):
    pass


class Unsupported(Abort):
    """Something the encoding does not cover: the path is inconclusive."""


class StepLimit(Abort):
    pass


class StopPath(Abort):
    """The path is finished (an assertion failed on every value of it)."""


class Inconclusive(Abort):
    pass


ENGINE = None          # the active engine of this process


def eng():
    if ENGINE is None:
        raise RuntimeError('no active symbolic engine')
    return ENGINE


_TRUE = z3.BoolVal(True)


class Decision(object):
    __slots__ = ('kind', 'val', 'alt', 'expr', 'payload')
    # kind: 'F' forced branch, 'B' two-sided branch, 'A' assumption,
    #       'R' discharged obligation

    def __init__(self, kind, val, alt=False, expr=None, payload=None):
        self.kind = kind
        self.val = val
        self.alt = alt
        self.expr = expr
        self.payload = payload

    def pack(self):
        return (self.kind, self.val, self.payload)


class Engine(object):
    def __init__(self, step_limit=400000, query_timeout_ms=60000):
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', query_timeout_ms)
        self.solver.set('random_seed', 1)
        self.step_limit = step_limit
        self.trail = []
        self.base = 0             # length of a foreign prefix (never undone)
        self.asserted = 0         # trail entries whose constraint is on the solver
        self.pos = 0
        self._model = None
        self.model_ok = False
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.functions = {}
        self.varcache = {}
        self.reset_path()

    # -- per path ---------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.steps = 0
        self.inputs = []          # (name, decoder)
        self.names = set()
        self.dom = {}
        self.failures = []
        self.observed = []
        self.reached = []

    def int_var(self, name):
        v = self.varcache.get(name)
        if v is None:
            v = self.varcache[name] = z3.Int(name)
        return v

    def bool_var(self, name):
        v = self.varcache.get(name)
        if v is None:
            v = self.varcache[name] = z3.Bool(name)
        return v

    # -- solver -----------------------------------------------------------
    def _check(self):
        t = time.time()
        r = self.solver.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown: %s'
                               % self.solver.reason_unknown())
        return r == z3.sat

    def model(self):
        if not self.model_ok:
            if not self._check():
                raise Infeasible('path condition became unsatisfiable')
            self._model = self.solver.model()
            self.model_ok = True
        return self._model

    def eval_bool(self, expr):
        return z3.is_true(self.model().eval(expr, model_completion=True))

    def eval_int(self, expr):
        return self.model().eval(expr, model_completion=True).as_long()

    def _push(self, expr):
        self.solver.push()
        self.solver.add(expr)
        self.asserted += 1

    def _next(self):
        """The recorded decision at this point, or None past the frontier."""
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            return self.trail[i]
        return None

    def decide(self, cond, payload=None):
        """Decide a z3 Bool; forks if both sides are feasible."""
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            d = self.trail[i]
            if d.kind == 'B':
                if i >= self.asserted:
                    d.expr = cond
                    self._push(cond if d.val else z3.Not(cond))
                    self.model_ok = False
            elif d.kind == 'F':
                if i >= self.asserted:
                    self._push(_TRUE)
            else:
                raise Unsupported('nondeterministic re-execution (%s)' % d.kind)
            return d.val
        self.decisions += 1
        v = self.eval_bool(cond)
        mine, other = (cond, z3.Not(cond)) if v else (z3.Not(cond), cond)
        self.solver.push()
        self.solver.add(other)
        try:
            sat = self._check()
        finally:
            self.solver.pop()
        if not sat:
            self.trail.append(Decision('F', v, payload=payload))
            self._push(_TRUE)
            return v
        self.trail.append(Decision('B', v, True, cond, payload))
        self._push(mine)
        return v

    def peek_payload(self):
        if self.pos < len(self.trail):
            return self.trail[self.pos].payload
        return None

    def concretize(self, expr):
        while True:
            if self.pos < len(self.trail):
                v = self.trail[self.pos].payload
            else:
                v = self.eval_int(expr)
            if self.decide(expr == v, payload=v):
                return v

    def assume(self, cond):
        d = self._next()
        if d is not None:
            if d.kind != 'A':
                raise Unsupported('nondeterministic re-execution (A/%s)' % d.kind)
            if self.pos - 1 >= self.asserted:
                self._push(cond)
                self.model_ok = False
            return
        if self.model_ok and z3.is_true(
                self._model.eval(cond, model_completion=True)):
            ok = True
        else:
            self.model_ok = False
            ok = None
        self.trail.append(Decision('A', True))
        self._push(cond)
        if ok is None:
            if not self._check():
                raise Infeasible('assumption')
            self._model = self.solver.model()
            self.model_ok = True

    def require(self, cond, msg):
        """cond: bool or z3 Bool.  Records a failure if it can be false."""
        d = self._next()
        if d is not None:
            if d.kind != 'R':
                raise Unsupported('nondeterministic re-execution (R/%s)' % d.kind)
            if self.pos - 1 >= self.asserted:
                self._push(_TRUE if d.payload != 'cex' else cond)
                if d.payload == 'cex':
                    self.model_ok = False
            return
        self.obligations += 1
        if isinstance(cond, bool):
            if not cond:
                self.fail(msg)
                raise StopPath()
            self.trail.append(Decision('R', True))
            self._push(_TRUE)
            return
        self.solver.push()
        self.solver.add(z3.Not(cond))
        sat = False
        try:
            sat = self._check()
            if sat:
                m = self.solver.model()
                keep, keep_ok = self._model, self.model_ok
                self._model, self.model_ok = m, True
                self.fail(msg)
                self._model, self.model_ok = keep, keep_ok
        finally:
            self.solver.pop()
        if not sat:
            self.trail.append(Decision('R', True))
            self._push(_TRUE)
            return
        self.trail.append(Decision('R', True, payload='cex'))
        self._push(cond)
        self.model_ok = False
        if not self._check():
            raise StopPath()
        self._model = self.solver.model()
        self.model_ok = True

    def fail(self, msg):
        self.failures.append((msg, self.decode_inputs()))

    def decode_inputs(self):
        out = {}
        for name, dec in self.inputs:
            out[name] = dec(self)
        return out

    # -- exploration ------------------------------------------------------
    def load_prefix(self, packed):
        while self.solver.num_scopes():
            self.solver.pop()
        self.trail = [Decision(k, v, False, None, p) for k, v, p in packed]
        self.base = len(self.trail)
        self.asserted = 0
        self.model_ok = False

    def backtrack(self):
        """Undo to the deepest untried alternative; False when none is left."""
        if self.pos < len(self.trail):
            # the path ended before replaying its prefix: not deterministic
            raise Unsupported('nondeterministic re-execution (short path)')
        while len(self.trail) > self.base:
            d = self.trail[-1]
            idx = len(self.trail) - 1
            if d.kind == 'B' and d.alt:
                if self.asserted > idx:
                    self.solver.pop()
                    self.asserted -= 1
                d.alt = False
                d.val = not d.val
                self._push(d.expr if d.val else z3.Not(d.expr))
                self.model_ok = False
                return True
            if self.asserted > idx:
                self.solver.pop()
                self.asserted -= 1
            self.trail.pop()
        return False

    def open_alternatives(self):
        """Unexplored prefixes of the current trail (as packed prefixes)."""
        out = []
        packed = [d.pack() for d in self.trail]
        for i in range(self.base, len(self.trail)):
            d = self.trail[i]
            if d.kind == 'B' and d.alt:
                out.append(packed[:i] + [('B', not d.val, d.payload)])
        return out

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            raise StepLimit()


# -- symbolic booleans and integers ---------------------------------------

def b_expr(b):
    if isinstance(b, SymBool):
        return b.expr
    return z3.BoolVal(bool(b))


def b_and(bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        out.append(b.expr if isinstance(b, SymBool) else b)
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(out))


def b_or(bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        out.append(b.expr if isinstance(b, SymBool) else b)
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.Or(out))


def b_not(b):
    if isinstance(b, SymBool):
        nw = b.narrow
        if nw is not None:
            nw = (nw[0], nw[0].alphabet.full & ~nw[1])
        return SymBool(z3.Not(b.expr), nw)
    return not b


class SymBool(object):
    __slots__ = ('expr', 'narrow')

    def __init__(self, expr, narrow=None):
        self.expr = expr
        self.narrow = narrow      # (charvar, mask) when this is var-in-mask

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        e = eng()
        if self.narrow is not None:
            var, mask = self.narrow
            dm = e.dom.get(var.name, var.alphabet.full)
            if not dm & mask:
                return False
            if not dm & ~mask:
                return True
            r = e.decide(self.expr)
            e.dom[var.name] = (dm & mask) if r else (dm & ~mask)
            return r
        return e.decide(self.expr)

    def __eq__(self, other):
        if type(other) is SymBool:
            return SymBool(self.expr == other.expr)
        if isinstance(other, bool):
            return self if other else b_not(self)
        if isinstance(other, int):
            return int(bool(self)) == other
        return False

    def __ne__(self, other):
        return b_not(self.__eq__(other))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        return b_and([self, other]) if isinstance(other, bool) else NotImplemented
    __rand__ = __and__

    def __or__(self, other):
        return b_or([self, other]) if isinstance(other, bool) else NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def _i(self):
        return SymInt(z3.If(self.expr, z3.IntVal(1), z3.IntVal(0)))

    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __neg__(self): return -self._i()
    def __pos__(self): return self._i()
    def __abs__(self): return self._i()
    def __xor__(self, o): return bool(self) ^ (bool(o) if isinstance(o, bool) else o)
    __rxor__ = __xor__
    def __floordiv__(self, o): return self._i() // o
    def __mod__(self, o): return self._i() % o
    def __truediv__(self, o): return self._i() / o
    def __pow__(self, o): return self._i() ** o
    def __lshift__(self, o): return self._i() << o
    def __rshift__(self, o): return self._i() >> o
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return self._i() + o
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __repr__(self):
        return repr(bool(self))
    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _ie(x):
    """z3 expression of an int-like, or None."""
    t = type(x)
    if t is SymInt:
        return x.expr
    if t is int:
        return z3.IntVal(x)
    if t is SymBool:
        return x._i().expr
    if t is bool:
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def mkint(expr):
    if z3.is_int_value(expr):
        return expr.as_long()
    return SymInt(expr)


def mkbool(expr):
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return SymBool(expr)


class SymInt(object):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    @property
    def __class__(self):
        return int

    def concrete(self):
        return eng().concretize(self.expr)

    def __index__(self): return self.concrete()
    __int__ = __index__
    def __float__(self): return float(self.concrete())
    def __hash__(self): return hash(self.concrete())
    def __bool__(self): return bool(SymBool(self.expr != 0))

    def __eq__(self, o):
        if isinstance(o, float): return float(self.concrete()) == o
        e = _ie(o)
        return False if e is None else mkbool(z3.simplify(self.expr == e))

    def __ne__(self, o): return b_not(self.__eq__(o))

    def _cmp(self, o, f):
        if isinstance(o, float): return NotImplemented
        e = _ie(o)
        if e is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.expr, e)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f, rev=False):
        if isinstance(o, float): return NotImplemented
        e = _ie(o)
        if e is None:
            return NotImplemented
        return mkint(z3.simplify(f(e, self.expr) if rev else f(self.expr, e)))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.concrete()
        return self._ar(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.concrete()
        return self._ar(o, lambda a, b: a * b, True)

    def __neg__(self): return mkint(z3.simplify(-self.expr))
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.expr >= 0, self.expr, -self.expr))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(z3.simplify(self.expr / o))
        return self.concrete() // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(z3.simplify(self.expr % o))
        return self.concrete() % o

    def __rfloordiv__(self, o): return o // self.concrete()
    def __rmod__(self, o): return o % self.concrete()
    def __truediv__(self, o): return self.concrete() / o
    def __rtruediv__(self, o): return o / self.concrete()
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return self.concrete() ** o
    def __and__(self, o): return self.concrete() & int(o)
    __rand__ = __and__
    def __or__(self, o): return self.concrete() | int(o)
    __ror__ = __or__
    def __lshift__(self, o): return self.concrete() << int(o)
    def __rlshift__(self, o): return int(o) << self.concrete()
    def __rrshift__(self, o): return int(o) >> self.concrete()
    def __xor__(self, o): return self.concrete() ^ int(o)
    __rxor__ = __xor__
    def __invert__(self): return ~self.concrete()
    def __rpow__(self, o): return o ** self.concrete()
    def __rdivmod__(self, o): return divmod(o, self.concrete())
    def __trunc__(self): return self
    def __int__(self): return self.concrete()
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    numerator = real
    denominator = property(lambda self: 1)
    def conjugate(self): return self
    def __rshift__(self, o): return self.concrete() >> int(o)

    def bit_length(self): return self.concrete().bit_length()

    def __repr__(self): return repr(self.concrete())
    __str__ = __repr__
    def __format__(self, spec): return format(self.concrete(), spec)
    def __round__(self, n=None): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


SYM_SCALARS = (SymBool, SymInt)
