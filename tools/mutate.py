"""Mutation sweep (never used by a check): mutate.py OUT.jsonl FILE... [--per N] [--seed S]

Small changes to /repo's sources, in scratch copies; those that pass the repository's tests
are given to the quick checks which encode the changed function, cheapest first, until one
reports a violation. Survivors are for reading: equivalent, outside every property, or a gap.
"""
import argparse
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
PY = '/opt/venv/bin/python'

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}


def variants(n):
    """(label, replacement) pairs for one node"""
    out = []

    def mk(label, **kw):
        m = copy.deepcopy(n)
        for k, v in kw.items():
            setattr(m, k, v)
        out.append((label, m))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        t = CMP.get(type(n.ops[0]))
        if t:
            mk('cmp', ops=[t()])
        if isinstance(n.ops[0], ast.Is) and isinstance(n.comparators[0], ast.Constant):
            out.append(('isnone->falsy', ast.UnaryOp(ast.Not(), n.left)))
        if isinstance(n.ops[0], ast.IsNot) and isinstance(n.comparators[0], ast.Constant):
            out.append(('notnone->truthy', n.left))
    elif isinstance(n, ast.BoolOp):
        mk('boolop', op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
        for i in range(len(n.values)):
            v = n.values[:i] + n.values[i + 1:]
            if len(v) > 1:
                mk('drop-operand', values=v)
            else:
                out.append(('drop-operand', v[0]))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(('un-not', n.operand))
    elif isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            mk('const', value=not v)
        elif isinstance(v, int):
            mk('const', value=v + 1)
        elif v is None:
            pass
        elif isinstance(v, str) and len(v) < 12:
            mk('const', value='' if v else 'x')
    elif isinstance(n, ast.If):
        out.append(('if-true', ast.If(ast.Constant(True), n.body, n.orelse)))
        out.append(('if-false', ast.If(ast.Constant(False), n.body, n.orelse)))
    elif isinstance(n, ast.IfExp):
        out.append(('ifexp', n.body))
        out.append(('ifexp', n.orelse))
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        out.append(('drop-call', ast.Pass()))
    elif isinstance(n, (ast.Assign, ast.AugAssign)) and (
            isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name)):
        out.append(('drop-assign', ast.Pass()))
    elif isinstance(n, ast.Break):
        out.append(('break', ast.Pass()))
        out.append(('break->continue', ast.Continue()))
    elif isinstance(n, ast.Continue):
        out.append(('continue->break', ast.Break()))
        out.append(('continue', ast.Pass()))
    elif isinstance(n, ast.Return) and n.value is not None and not (
            isinstance(n.value, ast.Constant) and n.value.value is None):
        out.append(('return-none', ast.Return(ast.Constant(None))))
    elif isinstance(n, ast.BinOp):
        if isinstance(n.op, (ast.Add, ast.Sub)):
            mk('binop', op=ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())
            out.append(('binop-left', n.left))
    elif isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            mk('drop-kw', keywords=n.keywords[:i] + n.keywords[i + 1:])
        if isinstance(n.func, ast.Attribute):
            sw = {'append': 'insert0', 'strip': 'lstrip', 'split': 'rsplit', 'startswith': 'endswith',
                  'pop': None, 'lower': 'upper', 'rstrip': 'strip', 'extend': None, 'find': 'rfind',
                  'items': None, 'search': 'match', 'match': 'search', 'index': None}.get(n.func.attr)
            if sw and sw != 'insert0':
                m = copy.deepcopy(n)
                m.func.attr = sw
                out.append(('method', m))
            if n.func.attr in ('strip', 'lstrip', 'rstrip', 'lower', 'upper') :
                out.append(('unmethod', n.func.value))
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'sorted', 'set', 'str', 'int', 'reversed') and len(n.args) == 1:
            out.append(('uncall', n.args[0]))
        if len(n.args) > 1:
            mk('drop-arg', args=n.args[:-1])
    elif isinstance(n, ast.Slice):
        if n.lower is not None:
            mk('slice', lower=None)
        if n.upper is not None:
            mk('slice', upper=None)
    elif isinstance(n, ast.ExceptHandler):
        pass
    elif isinstance(n, ast.comprehension) and n.ifs:
        mk('drop-if', ifs=n.ifs[1:])
    return out


def mutants(path, mod):
    src = open(path).read()
    tree = ast.parse(src)
    out = []

    def walk(node, qual, docs):
        for field, val in ast.iter_fields(node):
            items = val if isinstance(val, list) else [val]
            for i, k in enumerate(items):
                if not isinstance(k, ast.AST):
                    continue
                q = qual + [k.name] if isinstance(k, (ast.FunctionDef, ast.ClassDef)) else qual
                if isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant):
                    continue
                for label, rep in variants(k):
                    if isinstance(val, list):
                        val[i] = rep
                    else:
                        setattr(node, field, rep)
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                        compile(text, path, 'exec')
                        out.append(dict(fn=mod + ':' + '.'.join(q), line=getattr(k, 'lineno', 0),
                                        label=label, old=ast.unparse(k)[:120],
                                        new=ast.unparse(rep)[:120], text=text))
                    except Exception:
                        pass
                    if isinstance(val, list):
                        val[i] = k
                    else:
                        setattr(node, field, k)
                if isinstance(k, ast.arguments):
                    continue
                walk(k, q, docs)
    walk(tree, [], None)
    base = ast.unparse(ast.parse(src))
    return [m for m in out if m['text'] != base and not dull(m)]


def dull(m):
    o = m['old']
    return (o.startswith(('logging.', "if __name__", "warnings.warn(")) or m['fn'].count(':') and m['fn'].endswith(':')
            or 'help=' in o or 'metavar=' in o or 'formatter_class' in o or o in ("'__main__'", 'main()')
            or o.isupper() and o.startswith("'") and m['fn'].endswith(':main') or '__repr__' in m['fn'])


def cover():
    c = {}
    for f in glob.glob(os.path.join(ROOT, 'evidence', '*.json')):
        e = json.load(open(f))
        for fn in e['coverage']['functions_encoded']:
            c.setdefault(fn, []).append((e['coverage']['cpu_seconds'], e['property']))
    return c


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def judge(m, cov, own, cap):
    from plant import tests
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        r = tmp + '/r'
        shutil.copytree('/repo', r, symlinks=True)
        open(os.path.join(r, m['file']), 'w').write(m['text'])
        try:
            n = tests(r)
        except Exception:
            n = -1
        m['tests'] = n
        if n < 132:
            m['verdict'] = 'tests'
            return m
        v = tmp + '/v'
        os.mkdir(v)
        for d in ('symx', 'harness'):
            shutil.copytree(os.path.join(ROOT, d), v + '/' + d)
        shutil.copy(os.path.join(ROOT, 'known_findings.json'), v)
        todo = cov.get(m['fn'])
        if todo is None:
            todo = [x for k, vs in cov.items() if k.startswith(m['fn'].split(':')[0] + ':') for x in vs]
        todo = sorted(set(todo), key=lambda x: (x[1][0] not in own, x[0]))[:cap]
        m['ran'], m['rc'] = [], []
        for _, p in todo:
            try:
                c = sh(['python3-vt', '-B', '-m', 'symx.run', p.lower(), '--tier', 'quick', '--budget', '800'],
                       cwd=v, timeout=900, env=dict(os.environ, XIGT_REPO=r, VERIF_SEED='1', SYMX_NPROC='1'))
                rc = c.returncode
            except subprocess.TimeoutExpired:
                rc = 9
                c = None
            m['ran'].append(p)
            m['rc'].append(rc)
            if rc == 1:
                m['verdict'] = 'caught ' + p
                return m
            if rc != 0 and c is not None:
                m.setdefault('errors', []).append([p] + [l[:300] for l in c.stdout.splitlines() if l.startswith('ERROR')][:2])
        m['verdict'] = 'SURVIVED' if not any(m['rc']) else 'ERROR'
    except Exception as ex:
        m['verdict'] = 'tool: %r' % ex
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return m


OWN = {'mixins': 'MR', 'model': 'MR', 'metadata': 'MX', 'ref': 'R', 'query': 'Q', 'xigtxml': 'X',
       'xigtjson': 'X', 'xigtpath': 'P', 'scripts': 'S', 'exporters': 'E', 'importers': 'I'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('files', nargs='+')
    ap.add_argument('--per', type=int, default=6)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cap', type=int, default=8)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--fn')
    a = ap.parse_args()
    cov = cover()
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['label'], d['old'], d['new']))
    todo = []
    for f in a.files:
        mod = f[:-3].replace('/', '.')
        by = {}
        for m in mutants(os.path.join('/repo', f), mod):
            if a.fn and a.fn not in m['fn']:
                continue
            m['file'] = f
            by.setdefault(m['fn'], []).append(m)
        rnd = random.Random(a.seed)
        for fn, ms in by.items():
            rnd.shuffle(ms)
            todo += [m for m in ms[:a.per]
                     if (f, m['line'], m['label'], m['old'], m['new']) not in done]
    random.Random(a.seed).shuffle(todo)
    print(len(todo), 'mutants', flush=True)

    def go(m):
        own = next((v for k, v in OWN.items() if k in m['file']), '')
        m = judge(m, cov, own, a.cap)
        m.pop('text', None)
        with open(a.out, 'a') as fh:
            fh.write(json.dumps(m) + '\n')
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(go, todo))


if __name__ == '__main__':
    main()
