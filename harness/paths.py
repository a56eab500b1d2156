"""XigtPath: a document model and an evaluator of path expressions over it.

A path is (start, steps): start is '' (relative), '/' or '//'; a step is
(sep, node, preds) with sep '/' or '//'; a node is one of
  ('.',) ('..',) ('n', prefix or None, name or '*') ('@', prefix or None, name or '*')
  ('f', name, [arguments]) ('g', [paths])
and a predicate is (path, None) or (path, '=' or '!=', text).
"""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

NSMAP = {'p': 'u', 'q': 'v'}


class N(object):
    """a node of the document, with what the harness knows about it"""

    def __init__(self, obj, name, ns=None, id=None, type=None, attrs=None, text=None, md=(), kids=(), value=None, nsmap=None):
        self.nsmap = nsmap
        self.obj, self.name, self.ns = obj, name, ns
        self.id, self.type, self.attrs = id, type, attrs or {}
        self.text, self.value = text, value
        self.md, self.kids = list(md), list(kids)
        self.parent = None
        self.refs = {}
        for x in self.md + self.kids:
            x.parent = self


def quote(s):
    out = ''
    for c in s:
        if c == '"' or c == '\\':
            out += '\\'
        out += c
    return '"' + out + '"'


def render(path, gap=''):
    start, steps = path
    out = start
    for i, (sep, node, preds) in enumerate(steps):
        if i:
            out += gap + sep + gap
        out += rnode(node, gap)
        for p in preds:
            out += gap + '[' + gap + render(p[0], gap) + gap
            if p[1] is not None:
                out += p[1] + gap + (quote(p[2]) if not isinstance(p[2], tuple) else p[2][0]) + gap
            out += ']'
    return out


def rnode(node, gap):
    k = node[0]
    if k == '.' or k == '..':
        return k
    if k == 'n' or k == '@':
        s = node[2] if node[1] is None else node[1] + ':' + node[2]
        return s if k == 'n' else '@' + gap + s
    if k == 'f':
        return node[1] + gap + '(' + (gap + ',' + gap).join([quote(a) for a in node[2]]) + gap + ')'
    return '(' + gap + (gap + '|' + gap).join([render(x, gap) for x in node[1]]) + gap + ')'


def uri(n, prefix):
    while n is not None:
        if n.nsmap is not None:
            return n.nsmap.get(prefix, prefix)
        n = n.parent
    return NSMAP.get(prefix, prefix)


def named(n, prefix, name):
    if name != '*' and n.name != name:
        return False
    return prefix is None or n.ns == uri(n, prefix)


def below(n, prefix, name):
    out = [n] if named(n, prefix, name) else []
    for x in n.md + n.kids:
        out.extend(below(x, prefix, name))
    return out


def root(n):
    while n.parent is not None:
        n = n.parent
    return n


def attribute(n, prefix, name):
    if prefix is None and name in ('id', 'type', 'name'):
        v = n.id if name == 'id' else n.type if name == 'type' else (n.name if n.obj.__class__ is MetaChild else None)
        if v is None:
            v = n.attrs.get(name)
        return [] if v is None else [v]
    if name == '*':
        if prefix is None:
            return list(n.attrs.values())
        return [v for k, v in n.attrs.items() if k.startswith('{%s}' % uri(n, prefix))]
    if prefix is not None:
        name = '{%s}%s' % (uri(n, prefix), name)
    v = n.attrs.get(name)
    return [] if v is None else [v]


def apply(n, sep, node):
    k = node[0]
    if k == '.':
        return [n]
    if k == '..':
        return [] if n.parent is None else [n.parent]
    if k == 'n':
        if sep == '//':
            return below(n, node[1], node[2])
        return [x for x in n.md + n.kids if named(x, node[1], node[2])]
    if k == '@':
        return attribute(n, node[1], node[2])
    if k == 'f':
        return function(n, node[1], node[2])
    out = []
    for path in node[1]:
        out.extend(evaluate(n, path))
    return out


def function(n, name, args):
    if name == 'text':
        return [n.text] if n.name in ('item', 'meta') or n.obj.__class__ is MetaChild else []
    if name == 'value':
        return [n.value] if n.name == 'item' else []
    out = []
    ras = sorted(args) if args else ['alignment', 'content', 'segmentation']
    everything = below(root(n), None, '*')
    for ra in ras:
        if name == 'referent':
            for x in n.refs.get(ra, []):
                out.extend([y for y in everything if y is not n and y.id is not None and y.id == x
                            and y.obj.__class__ is not Metadata] or [y for y in everything if y is n and y.id == x])
        elif n.id is not None:
            for y in everything:
                if y.id is not None and y.obj.__class__ is n.obj.__class__ and n.id in y.refs.get(ra, []):
                    out.append(y)
    return out


def holds(n, pred):
    vals = evaluate(n, pred[0])
    if pred[1] is None:
        return any(v is not None for v in vals)
    lit = pred[2][1] if isinstance(pred[2], tuple) else pred[2]
    if pred[1] == '=':
        return any(v is not None and v.__class__ is not N and v == lit for v in vals)
    return not any(v is not None and v.__class__ is not N and v == lit for v in vals)


def evaluate(n, path):
    start, steps = path
    ctx = [n] if start == '' else [root(n)]
    for i, (sep, node, preds) in enumerate(steps):
        if i == 0:
            sep = '//' if start == '//' else '/'
        out = []
        for x in ctx:
            out.extend(apply(x, sep, node))
        for p in preds:
            out = [x for x in out if holds(x, p)]
        ctx = out
    return ctx


def agree(got, want):
    """the results are the expected objects and strings, in order"""
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w.__class__ is N:
            if g is not w.obj:
                return False
        elif w is None:
            if g is not None:
                return False
        elif g != w:
            return False
    return True


# ways of making documents


def item(id=None, text=None, ns=None, attrs=None, type=None, refs=None, value=None, nsmap=None):
    attrs = dict(attrs or {})
    for ra in (refs or {}):
        attrs[ra] = ','.join(refs[ra])
    o = Item(id=id, text=text, namespace=ns, attributes=dict(attrs), type=type, nsmap=nsmap)
    n = N(o, 'item', ns, id, type, attrs, text, value=text if value is None else value, nsmap=nsmap)
    n.refs = dict(refs or {})
    return n


def tier(id, items, md=(), ns=None, attrs=None, type=None, refs=None, nsmap=None):
    attrs = dict(attrs or {})
    for ra in (refs or {}):
        attrs[ra] = refs[ra][0]
    o = Tier(id=id, items=[x.obj for x in items], metadata=[x.obj for x in md], namespace=ns,
             attributes=dict(attrs), type=type, nsmap=nsmap)
    n = N(o, 'tier', ns, id, type, attrs, None, md, items, nsmap=nsmap)
    n.refs = dict(refs or {})
    return n


def igt(id, tiers, md=(), ns=None, attrs=None, type=None, nsmap=None):
    o = Igt(id=id, tiers=[x.obj for x in tiers], metadata=[x.obj for x in md], namespace=ns,
            attributes=dict(attrs or {}), type=type, nsmap=nsmap)
    return N(o, 'igt', ns, id, type, attrs, None, md, tiers, nsmap=nsmap)


def corpus(igts, md=(), id=None, attrs=None, type=None):
    o = XigtCorpus(id=id, igts=[x.obj for x in igts], metadata=[x.obj for x in md], nsmap=dict(NSMAP),
                   attributes=dict(attrs or {}), type=type)
    return N(o, 'xigtcorpus', None, id, type, attrs, None, md, igts)


def metadata(metas, ns=None, id=None, type=None, attrs=None, nsmap=None):
    o = Metadata(id=id, metas=[x.obj for x in metas], namespace=ns, type=type, attributes=dict(attrs or {}), nsmap=nsmap)
    return N(o, 'metadata', ns, id, type, attrs, None, (), metas, nsmap=nsmap)


def meta(kids=(), ns=None, id=None, text=None, type=None, attrs=None, nsmap=None):
    o = Meta(id=id, children=[x.obj for x in kids], namespace=ns, text=text, type=type, attributes=dict(attrs or {}), nsmap=nsmap)
    return N(o, 'meta', ns, id, type, attrs, text, (), kids, nsmap=nsmap)


def child(name, kids=(), ns=None, text=None, attrs=None, nsmap=None):
    o = MetaChild(name, children=[x.obj for x in kids], namespace=ns, text=text, attributes=dict(attrs or {}), nsmap=nsmap)
    return N(o, name, ns, None, None, attrs, text, (), kids, nsmap=nsmap)


def nodes(n):
    return below(n, None, '*')
