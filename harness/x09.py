"""X09: JSON documents have one layout, in writing and in reading."""
import json
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtjson
from harness.corpora import fill, usable, build, describe, difference, scoped, OBJECTS, CHAINS, MAPS, NSU, NSV

PROPERTY = 'X09'
BOUNDS = ('written: the corpora of X03, two fields of one object at a time varying over absent and arbitrary strings of up to 1 (thorough: 2) characters, '
          'namespaces declared at three levels; read: a document with every kind of object where any key may be there or not, names and attributes have prefixes '
          'declared at any level (the nearest of up to four declarations) or URIs, keys in any order, unknown keys; from strings, file objects and files')
ASSUMES = ['as X03', 'the default namespace is not for names in JSON']
KEYS = ['id', 'type', 'attributes', 'namespaces', 'namespace', 'metadata', 'igts', 'tiers', 'items', 'metas', 'children', 'name', 'text']
MEMBERS = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas', 'meta': 'children', 'child': 'children'}
INNER = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta', 'meta': 'child', 'child': 'child'}
CLASS = {'corpus': 'XigtCorpus', 'igt': 'Igt', 'tier': 'Tier', 'item': 'Item', 'metadata': 'Metadata', 'meta': 'Meta', 'child': 'MetaChild'}


def qualified(k, scope):
    """the full name of an attribute"""
    if k[:1] != '{' and ':' in k:
        pre, name = k.split(':', 1)
        if pre in scope:
            return '{%s}%s' % (scope[pre], name)
    return k


def meaning(S, d, kind, scope):
    """what a document says, as corpora.describe has it"""
    scope = dict(scope)
    allowed = {'item': ['text'], 'meta': ['text', 'children'], 'child': ['text', 'children', 'name']}.get(kind, [MEMBERS.get(kind)])
    if kind in ('corpus', 'igt', 'tier'):
        allowed = allowed + ['metadata']
    for k in d:
        S.require(k in ['id', 'type', 'attributes', 'namespaces', 'namespace'] + allowed, 'the keys of an object')
    if 'namespaces' in d:
        scope.update(d['namespaces'])
    name, ns = d.get('name'), d.get('namespace')
    if kind == 'child':
        S.require(name is not None, 'nested elements have names')
        if ':' in name:
            pre, name = name.split(':', 1)
            S.require(pre in scope, 'the prefix of a name is declared')
            S.require(ns is None, 'one namespace for a name')
            ns = scope[pre]
    out = [CLASS[kind], d.get('id'), d.get('type'), ns, [[qualified(k, scope), v] for k, v in d.get('attributes', {}).items()]]
    if kind == 'child':
        # (the attributes of nested elements are all alike)
        out[1] = out[2] = None
        out.append(name)
    if kind in ('item', 'meta', 'child'):
        out.append(d.get('text'))
    if kind in ('corpus', 'igt', 'tier'):
        out.append([meaning(S, m, 'metadata', scope) for m in d.get('metadata', [])])
        if kind == 'corpus':
            S.reach('corpus')
    if kind != 'item':
        out.append([meaning(S, m, INNER[kind], scope) for m in d.get(MEMBERS[kind], [])])
    return out


def written(S):
    p = S.params
    f = fill(S, p['vary'], textmin=0, n=p.get('n', 1), alpha='a"\\:{\n\x00\u2028\u4e2d ')
    xc = build(f, usable(S, f), where=p['where'])
    data = json.loads(xigtjson.dumps(xc, indent=p['indent']))
    d = difference(describe(xc), meaning(S, data, 'corpus', {}))
    S.require(d is None, 'the document says something else: %s' % d)
    S.reach('written')


def scopes(S):
    xc = scoped(S, S.params['chain'], MAPS[:S.params['maps']])
    d = difference(describe(xc), meaning(S, json.loads(xigtjson.dumps(xc)), 'corpus', {}))
    S.require(d is None, 'the document says something else: %s' % d)
    S.reach('scopes')


def read(S):
    """documents as others write them"""
    on = S.params['vary']

    def opt(name, options):
        return S.choice(name, options) if name in on else options[0]

    def word(name):
        return S.str(name, 0, 2, 'a:"\u4e2d') if name in on else 'v'
    at = opt('declared', ['corpus', 'igt', 'metadata', 'meta', 'child'])
    pre = opt('prefix', ['p', 'dc', 'xml', 'id'])
    how = opt('name', ['plain', 'prefix', 'uri', 'prefix as namespace', 'undeclared prefix'])
    akey = opt('attribute', ['k', 'prefixed', 'uri', 'undeclared', 'id'])
    gone = opt('gone', [None, 'metadata', 'metas', 'children', 'tiers', 'items', 'igts', 'attributes', 'text', 'id', 'type'])
    empty = opt('empty', [None, 'metadata', 'metas', 'children', 'tiers', 'items', 'igts', 'attributes'])
    extra = opt('unknown', [{}, {'extra': [{'id': 'z', 'items': []}], 'Items': 'x', 'comment': None}])
    val = word('value')

    def obj(kind, **kw):
        d = {}
        keys = sorted(kw)
        if opt('order', [0, 1]):
            keys = keys[::-1]
        for k in keys:
            if k != gone or k == 'id' and kind == 'igt':
                d[k] = ([] if k != 'attributes' else {}) if k == empty else kw[k]
        d.update(extra)
        if kind == at:
            d['namespaces'] = {pre: NSU}
            S.reach('declares')
        return d

    # (what is declared here is there for what is inside)
    def has(kind):
        return {'corpus': ['corpus'], 'igt': ['corpus', 'igt'], 'child': ['corpus', 'igt', 'metadata', 'meta', 'child']}[kind].count(at) > 0

    def attrs(kind):
        k = {'k': 'k', 'prefixed': pre + ':k', 'uri': '{%s}k' % NSU, 'undeclared': 'zz:k', 'id': 'tiers'}[akey]
        return {k: val, 'b': 'w'}

    def full(kind):
        k = {'k': 'k', 'prefixed': '{%s}k' % NSU if has(kind) else pre + ':k', 'uri': '{%s}k' % NSU, 'undeclared': 'zz:k', 'id': 'tiers'}[akey]
        return {} if 'attributes' in (gone, empty) else {k: val, 'b': 'w'}
    S.assume(how not in ('prefix', 'prefix as namespace') or has('child'))
    child = {'attributes': attrs('child'), 'text': 'inner', 'name': pre + ':subject' if how == 'prefix' else 'subject'}
    if how in ('uri', 'prefix as namespace'):
        child['namespace'] = NSU if how == 'uri' else pre
    if how == 'undeclared prefix':
        child['name'] = 'zz:subject'
    meta = obj('meta', id='m1', type='mt', children=[obj('child', **child), {'name': 'plain', 'children': [{'name': 'in', 'text': ''}]}])
    md = obj('metadata', metas=[meta, {'text': 'just text'}])
    items = [obj('item', id='x1', text=val), {'id': 'x2', 'attributes': {'alignment': 'x1[0:1]', 'segmentation': ''}}, {}]
    igt = obj('igt', id='i1', attributes=attrs('igt'), metadata=[md], tiers=[obj('tier', id='t', type='words', items=items), {'id': 'u', 'type': ''}])
    doc = obj('corpus', id='c', type='ct', attributes=attrs('corpus'), metadata=[{'type': 'x', 'metas': []}], igts=[igt, {'id': 'i2'}])
    text = json.dumps(doc)
    kind = opt('from', ['string', 'object', 'incremental', 'transient'])
    if kind == 'string':
        xc = xigtjson.loads(text)
    elif kind == 'object':
        fh = S.stringio()
        json.dump(doc, fh)
        fh.seek(0)
        xc = xigtjson.load(fh)
    else:
        with open(S.mkpath('d.json'), 'w') as fh:
            json.dump(doc, fh)
        xc = xigtjson.load(S.mkpath('d.json'), mode=kind)
    # what it says
    off = (gone, empty)

    def some(k, v):
        return [] if k in off else v

    def one(k, v):
        return None if k == gone else v
    kid = MetaChild('subject', attributes=full('child'), text=one('text', 'inner'), namespace={'plain': None, 'undeclared prefix': 'zz'}.get(how, NSU))
    metas = some('metas', [Meta(id=one('id', 'm1'), type=one('type', 'mt'), children=some('children', [
        kid, MetaChild('plain', children=[MetaChild('in', text='')])])), Meta(text='just text')])
    want = XigtCorpus(id=one('id', 'c'), type=one('type', 'ct'), attributes=full('corpus'), metadata=some('metadata', [Metadata(type='x')]), igts=some('igts', [
        Igt(id='i1', attributes=full('igt'), metadata=some('metadata', [Metadata(metas=metas)]), tiers=some('tiers', [
            Tier(id=one('id', 't'), type=one('type', 'words'), items=some('items', [
                Item(id=one('id', 'x1'), text=one('text', val)), Item(id='x2', alignment='x1[0:1]', segmentation=''), Item()])), Tier(id='u', type='')])),
        Igt(id='i2')]))
    got = list(xc)
    d = difference(describe(want)[:-1] + [[]], describe(xc)[:-1] + [[]])
    S.require(d is None, 'reading differs: %s' % d)
    S.require(len(got) == len(want), 'number of igts')
    for a, b in zip(want, got):
        d = difference(describe(a), describe(b))
        S.require(d is None, 'reading differs: %s' % d)
    S.reach(how)
    S.reach(akey)
    S.reach('gone' if gone else 'empty' if empty else 'all')


def declared(S):
    """prefixes declared at several levels: the nearest declaration of each counts"""
    chain = S.params['chain']
    scope, docs, wants = {}, [], []
    for i, kind in enumerate(chain):
        d = {'attributes': {'p:a': '1', 'q:b': '2'}}
        own = S.choice('map%d' % i, [None, {'p': NSU}, {'q': NSV}, {'p': NSV, 'q': NSU}, {}][:S.params['maps']])
        if own is not None:
            d['namespaces'] = dict(own)
            scope = dict(scope)
            scope.update(own)
        if kind == 'child':
            d['name'] = 'p:n'
        docs.append(d)
        wants.append(scope)
    for i in range(len(chain) - 1):
        docs[i]['metadata' if chain[i + 1] == 'metadata' else MEMBERS[chain[i]]] = [docs[i + 1]]
    x = xigtjson.loads(json.dumps(docs[0]))
    for i, kind in enumerate(chain):
        if i:
            x = x.metadata[0] if kind == 'metadata' else x[0]
        S.require(x.attributes == dict((qualified(k, wants[i]), v) for k, v in (('p:a', '1'), ('q:b', '2'))), 'attributes with prefixes declared at several levels')
        S.require(x.nsmap == wants[i], 'the prefixes in force')
        if kind == 'child':
            S.require((x.namespace, x.name) == (wants[i].get('p', 'p'), 'n'), 'names with prefixes declared at several levels')
    S.reach('nested' if len(wants[-1]) > 1 else 'less')


OPTS = ['declared', 'prefix', 'name', 'attribute', 'gone', 'empty', 'unknown', 'value', 'order', 'from']


def wshapes(t):
    out, n = [], 0
    for o in OBJECTS:
        ks = OBJECTS[o]
        for i in range(len(ks)):
            for j in range(i) if t != 'quick' else [i - 1 - i % 2] if i > 1 else [0] if i else []:
                n += 1
                where = {'cmd': 'corpus', 'imd': 'igt'}.get(o, ('igt', 'corpus', 'tier')[n % 3])
                out.append(dict(vary=[o + '.' + ks[j], o + '.' + ks[i]], where=where, indent=(None, 0, 2)[n % 3]))
                if t != 'quick':
                    out.append(dict(out[-1], n=2))
    return out


def rshapes(t):
    out = [dict(vary=[OPTS[j], OPTS[i]]) for i in range(len(OPTS)) for j in range(i)]
    if t != 'quick':
        out += [dict(vary=[OPTS[k], OPTS[j], OPTS[i]]) for i in range(len(OPTS)) for j in range(i) for k in range(j)]
    return out


HARNESSES = [('written', wshapes, ['written', 'corpus']), ('scopes', lambda t: [dict(chain=c, maps=3 if t == 'quick' else 7) for c in CHAINS], ['scopes']),
             ('declared', lambda t: [dict(chain=c, maps=4 if t == 'quick' else 5) for c in (
                 ['corpus', 'igt', 'tier', 'item'], ['corpus', 'igt', 'metadata', 'meta'], ['corpus', 'metadata', 'meta', 'child'])], ['nested', 'less']),
             ('read', rshapes, ['declares', 'plain', 'prefix', 'uri', 'prefix as namespace', 'undeclared prefix', 'k', 'prefixed', 'undeclared', 'id', 'gone', 'empty', 'all'])]
