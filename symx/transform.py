"""Loads Python modules from source through an AST transformation, fresh on
every run, so that they execute on symbolic values."""
import ast
import builtins as _b
import os
import sys
import types
from . import rt
from .engine import eng, Engine, SymBool
from . import engine as _engine

_STR = {n for n in dir(str) if not n.startswith('__')}
_COERCED = ('__repr__', '__str__', '__format__', '__bool__', '__len__', '__hash__', '__index__', '__int__', '__float__')
_LEAVE = {'super', 'locals', 'globals', 'vars', 'dir', '__import__'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Transformer(ast.NodeTransformer):
    def __init__(self, modname, count):
        self.mod = modname
        self.stack = []
        self.inclass = False
        self.count = count

    def _call(self, fn, args, keywords=()):
        return ast.Call(func=_name(fn), args=list(args), keywords=list(keywords))

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _LEAVE:
            return self.generic_visit(node)
        if isinstance(f, ast.Name) and f.id in ('eval', 'exec') and \
                len(node.args) == 1 and not node.keywords:
            a = self.visit(node.args[0])
            return ast.copy_location(self._call('__rt_eval__', [
                a, ast.Call(func=_name('globals'), args=[], keywords=[]),
                ast.Call(func=_name('locals'), args=[], keywords=[])]), node)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            n = f.attr
            mangled = n.startswith('__') and not n.endswith('__')
            if not mangled and not (isinstance(f.value, ast.Call)
                                    and isinstance(f.value.func, ast.Name)
                                    and f.value.func.id == 'super'):
                new = self._call('__rt_callm__',
                                 [self.visit(f.value), ast.Constant(n)] + args, kws)
                return ast.copy_location(new, node)
        new = self._call('__rt_call__', [self.visit(f)] + args, kws)
        return ast.copy_location(new, node)

    def visit_Attribute(self, node):
        # methods of strings as values
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in _STR:
            return ast.copy_location(self._call('__rt_attr__', [node.value, ast.Constant(node.attr)]), node)
        return node

    def visit_Dict(self, node):
        out = []
        for k, v in zip(node.keys, node.values):
            out.append(_name('__rt_UNPACK__') if k is None else self.visit(k))
            out.append(self.visit(v))
        return ast.copy_location(self._call('__rt_dict__', out), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call(
            '__rt_set__', [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('__rt_set__', [
            ast.ListComp(elt=node.elt, generators=node.generators)]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('__rt_dictc__', [
            ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                         generators=node.generators)]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(None)
                parts.append(self._call('__rt_fv__', [
                    self.visit(v.value), ast.Constant(v.conversion), spec]))
            else:
                parts.append(v)
        return ast.copy_location(self._call(
            '__rt_fstr__', [ast.List(elts=parts, ctx=ast.Load())]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                self._call('__rt_mod__', [node.left, node.right]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = '__rt_in__' if isinstance(node.ops[0], ast.In) else '__rt_notin__'
            return ast.copy_location(
                self._call(fn, [node.left, node.comparators[0]]), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            # a symbolic truth value is no singleton
            for e in (node.left, node.comparators[0]):
                if isinstance(e, ast.Constant) and (e.value is True or e.value is False):
                    node.left = self._call('__rt_truth__', [node.left])
                    node.comparators = [self._call('__rt_truth__', [node.comparators[0]])]
                    break
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = self._call('__rt_slice__', [sl.lower or none,
                                                 sl.upper or none, sl.step or none])
            return ast.copy_location(
                self._call('__rt_getitem__', [node.value, sl]), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name)
                                 and node.type.id == 'BaseException'):
            node.type = ast.Tuple(elts=[_name('Exception'), _name('SystemExit'),
                                        _name('KeyboardInterrupt')], ctx=ast.Load())
        return node

    def _tick(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self._call('__rt_tick__', [])))
        return node

    visit_For = _tick
    visit_While = _tick

    def _func(self, node):
        inclass, self.inclass = self.inclass, False
        self.stack.append(node.name)
        deco = node.decorator_list
        node.decorator_list = []
        ret, node.returns = node.returns, None
        self.generic_visit(node)
        self.inclass = inclass
        node.returns = None
        node.decorator_list = [self.visit(d) for d in deco]
        if node.name in _COERCED and self.inclass:
            node.decorator_list.append(_name('__rt_native__'))
        for a in (node.args.args + node.args.kwonlyargs + node.args.posonlyargs):
            a.annotation = None
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) and \
                isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, ast.Expr(self._call('__rt_enter__', [
            ast.Constant(self.mod + ':' + '.'.join(self.stack))])))
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        old, self.inclass = self.inclass, True
        self.generic_visit(node)
        self.inclass = old
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if self.inclass:
            return node     # dataclasses and named tuples have fields of them
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(
            ast.Assign(targets=[node.target], value=node.value), node)


def _enter(q):
    e = _engine.ENGINE
    if e is not None:
        e.functions[q] = e.functions.get(q, 0) + 1
        e.steps += 1
        if e.steps > e.step_limit:
            raise _engine.StepLimit()


def _rt_tick():
    e = _engine.ENGINE
    if e is not None:
        e.steps += 1
        if e.steps > e.step_limit:
            raise _engine.StepLimit()


rt.BUILTINS.update(__rt_truth__=lambda x: bool(x) if type(x) is SymBool else x, __rt_attr__=rt.str_attr, __rt_enter__=_enter, __rt_tick__=_rt_tick,
                   __rt_slice__=lambda a, b, c: slice(a, b, c))


class Loader(object):
    def __init__(self, roots, stdlib=()):
        """roots: {top-level package: directory containing it}"""
        self.roots = roots
        self.modules = {}
        self.stdlib = set(stdlib)
        self.files = {}
        self.stubs = {}
        self.loaded = None       # called with every module that was loaded
        self.builtins = dict(rt.BUILTINS)
        self.builtins['__import__'] = self.import_
        self.builtins['__rt_eval__'] = rt.rt_eval
        rt.LOADER = self

    def add_stub(self, name, mod):
        self.stubs[name] = mod

    def _find(self, name):
        top = name.split('.')[0]
        if name in self.stdlib:
            import importlib.util
            spec = importlib.util.find_spec(name)
            return spec.origin, False
        if top in self.roots:
            base = os.path.join(self.roots[top], *name.split('.'))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py'), True
            if os.path.exists(base + '.py'):
                return base + '.py', False
            raise ImportError('No module named %r' % name)
        return None, False

    def _exists(self, name):
        base = os.path.join(self.roots[name.split('.')[0]], *name.split('.'))
        return os.path.exists(base + '.py') or os.path.exists(os.path.join(base, '__init__.py'))

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            m = self.stubs[name]
            if m is None:
                raise ImportError('No module named %r' % name)
            self._register(name, m)
            return m
        if '.' in name:
            parent = name.rpartition('.')[0]
            if parent.split('.')[0] in self.roots:
                self.load(parent)
                if name in self.modules:
                    return self.modules[name]
        path, pkg = self._find(name)
        if path is None:
            return None
        with open(path, encoding='utf-8') as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__symx__'] = True
        m.__dict__['__builtins__'] = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self._register(name, m)
        rt.TRANSFORMED.add(name)
        try:
            code = compile_src(src, path, name)
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            if '.' in name:
                parent, _, last = name.rpartition('.')
                pm = self.modules.get(parent)
                if pm is not None and pm.__dict__.get(last) is m:
                    delattr(pm, last)
            raise
        self.files[name] = path
        if self.loaded is not None:
            self.loaded(name, m)
        return m

    def _register(self, name, m):
        self.modules[name] = m
        if '.' in name:
            parent, _, last = name.rpartition('.')
            pm = self.modules.get(parent)
            if pm is None:
                if parent.split('.')[0] in self.roots:
                    return
                if self.stubs.get(parent) is not None:
                    setattr(self.load(parent), last, m)
                    return
                pm = types.ModuleType(parent)
                pm.__path__ = []
                pm.__dict__['__symx_fake__'] = True
                self._register(parent, pm)
            setattr(pm, last, m)

    def _known(self, name):
        return (name in self.modules or name in self.stubs
                or name in self.stdlib or name.split('.')[0] in self.roots)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'] if globals else ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        children = [n for n in self.stubs] + list(self.stdlib)
        is_parent = any(c.startswith(name + '.') for c in children)
        if self._known(name):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                        sub = name + '.' + f
                        if self._known(sub):
                            if sub.split('.')[0] in self.roots and not self._exists(sub):
                                continue
                            self.load(sub)
                return m
            top = name.split('.')[0]
            if top not in self.modules and self._known(top):
                self.load(top)
            return self.modules[top]
        if fromlist and is_parent:
            subs = {f: name + '.' + f for f in fromlist}
            real = _b.__import__(name, globals, locals, fromlist, 0)
            out = types.ModuleType(name)
            for f, sub in subs.items():
                setattr(out, f, self.load(sub) if self._known(sub) else getattr(real, f))
            return out
        return _b.__import__(name, globals, locals, fromlist, 0)


def compile_src(src, path, modname):
    tree = ast.parse(src, path)
    count = {}
    tree = Transformer(modname, count).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


_evals = {}


def eval_src(src, g, l):
    if isinstance(src, types.CodeType):
        return eval(src, g, l)
    code = _evals.get(src)
    if code is None:
        tree = ast.parse(src.strip(), '<eval>', 'eval')
        tree = Transformer('<eval>', {}).visit(tree)
        ast.fix_missing_locations(tree)
        code = _evals[src] = compile(tree, '<eval>', 'eval')
    if g is None:
        g = {}
    if '__builtins__' not in g:
        g['__builtins__'] = rt.LOADER.builtins
    return eval(code, g, l)
