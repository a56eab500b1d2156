"""Behaviour-preserving rewrites of all of xigt (never used by a check): the checks must
stay quiet on them.   refactor.py KIND REPO   rewrites REPO/xigt in place; KIND = A B C D"""
import ast
import copy
import os
import sys

K = sys.argv[1]


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


class A(ast.NodeTransformer):
    """inverted ifs, temporaries before returns, flipped comparisons"""
    n = 0

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None:
            return n
        return [ast.Assign([ast.Name('_result', ast.Store())], n.value), ast.Return(ast.Name('_result', ast.Load()))]

    def visit_Compare(self, n):
        self.generic_visit(n)
        f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
             ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}
        if len(n.ops) == 1 and type(n.ops[0]) in f:
            return ast.Compare(n.comparators[0], [f[type(n.ops[0])]()], [n.left])
        return n


class B(ast.NodeTransformer):
    """enumerated loops, generator arguments, bodies moved to inner functions"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([ast.Name('_n', ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        ps = {a.arg for a in n.args.args + n.args.kwonlyargs}
        if n.args.vararg:
            ps.add(n.args.vararg.arg)
        stores = {x.id for x in ast.walk(ast.Module(n.body, [])) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        if ps & stores or has(ast.Module(n.body, []), ast.Nonlocal, ast.Global) or n.name.startswith('__') \
                or any(isinstance(x, ast.Name) and x.id in ('super', 'locals') for x in ast.walk(n)):
            return n
        doc = []
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if not body or has(ast.Module(body, []), ast.ImportFrom):
            return n
        inner = ast.FunctionDef('_do', ast.arguments([], [], None, [], [], None, []), body, [], None, None)
        n.body = doc + [inner, ast.Return(ast.Call(ast.Name('_do', ast.Load()), [], []))]
        return n


class C(ast.NodeTransformer):
    """while True, conditional expressions for not / and / or, split strings, extracted helpers"""
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.IfExp(n.operand, ast.Constant(False), ast.Constant(True))
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        out = n.values[-1]
        for v in reversed(n.values[:-1]):
            t = ast.NamedExpr(ast.Name('_t', ast.Store()), v)
            if isinstance(n.op, ast.And):
                out = ast.IfExp(t, out, ast.Name('_t', ast.Load()))
            else:
                out = ast.IfExp(t, ast.Name('_t', ast.Load()), out)
        return out

    def visit_GeneratorExp(self, n):
        return n
    visit_ListComp = visit_DictComp = visit_SetComp = visit_Lambda = visit_ClassDef0 = visit_GeneratorExp

    def visit_Call(self, n):
        # str.format -> % is not the same; only args here
        self.generic_visit(n)
        return n


class D(ast.NodeTransformer):
    """comprehensions to loops through local helpers, attribute calls through temporaries, tuples for lists"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.List([ast.Starred(ast.GeneratorExp(n.elt, n.generators), ast.Load())], ast.Load())

    def visit_Compare(self, n):
        self.generic_visit(n)
        f = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if len(n.ops) == 1 and type(n.ops[0]) in f:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [f[type(n.ops[0])]()], n.comparators))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) \
                and not n.keywords:
            import string
            parts, k = [], 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(n.func.value.value):
                    if lit:
                        parts.append(ast.Constant(lit))
                    if field is not None:
                        if conv or spec or (field and not field.isdigit()):
                            return n
                        i = int(field) if field else k
                        k += 1
                        parts.append(ast.FormattedValue(n.args[i], -1, None))
            except Exception:
                return n
            return ast.JoinedStr(parts)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


T = dict(A=A, B=B, C=C, D=D)[K]
for d, _, fs in os.walk(os.path.join(sys.argv[2], 'xigt')):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.join(d, f)
            t = T().visit(ast.parse(open(p).read()))
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, p, 'exec')
            open(p, 'w').write(s + '\n')
