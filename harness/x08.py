"""X08: written XML documents follow the published schema."""
from xml.etree import ElementTree as ET
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtxml
from harness.corpora import fill, clean, usable, build, scoped, OBJECTS, CHAINS, MAPS

PROPERTY = 'X08'
BOUNDS = ('the corpora of X01: every kind of object at every place, two fields of one object at a time varying over absent and arbitrary strings of up to 1 '
          '(thorough: 2) characters, zero to two members, namespaces declared at three levels; dumps, and dump to a file; indent None, 0 and 2 (what an indentation of 0 to 4 looks like, for texts without white space); read by the parser of '
          'the standard library and compared with what schema/xigt-structure.rnc says')
ASSUMES = ['as X01', 'objects without ids, types and metadata are written without them, whether or not the schema wants them']
XML = {'xigt-corpus': XigtCorpus, 'igt': Igt, 'tier': Tier, 'item': Item, 'metadata': Metadata, 'meta': Meta}


def blank(t):
    return t is None or t.strip() == ''


def follows(S, e, o, tag):
    """an element is what the schema has for the object"""
    S.require(e.tag == tag, 'the name of an element')
    want = dict(o.attributes)
    if o.id is not None:
        want['id'] = o.id
    if o.type is not None:
        want['type'] = o.type
    got = dict(e.attrib)
    S.require(len(got) == len(want), 'the attributes of an element')
    for k, v in want.items():
        S.require(k in got and got[k] == v, 'the attributes of an element')
    kids = []
    if isinstance(o, (XigtCorpus, Igt, Tier)):
        kids = [(m, 'metadata') for m in o.metadata]
        if kids and len(o):
            S.reach('metadata come first')
    member = {XigtCorpus: 'igt', Igt: 'tier', Tier: 'item', Metadata: 'meta'}.get(o.__class__)
    if member is not None:
        kids += [(m, member) for m in o]
    elif not isinstance(o, Item):
        kids = [(m, m.name if m.namespace is None else '{%s}%s' % (m.namespace, m.name)) for m in o]
    if isinstance(o, Item):
        S.require((e.text or '') == (o.text or ''), 'the text of an item')
    elif isinstance(o, (Meta, MetaChild)):
        S.require(blank(e.text) if blank(o.text) else e.text == o.text, 'the text of an element in metadata')
    else:
        S.require(blank(e.text), 'only white space between elements')
    got = list(e)
    S.require(len(got) == len(kids), 'the elements inside an element')
    for x, (k, t) in zip(got, kids):
        S.require(blank(x.tail), 'only white space between elements')
        follows(S, x, k, t)
    S.reach(tag if tag in XML else 'other')


def written(S):
    p = S.params
    f = fill(S, p['vary'], n=p.get('n', 1), alpha='a<>&"\' ]\n\t\u4e2d')
    clean(S, f)
    xc = build(f, usable(S, f), where=p['where'])
    if p.get('file'):
        path = S.mkpath('out.xml')
        xigtxml.dump(path, xc)
        with open(path, 'rb') as fh:
            e = ET.parse(fh).getroot()
    else:
        e = ET.fromstring(xigtxml.dumps(xc, indent=p['indent']))
    follows(S, e, xc, 'xigt-corpus')


def scopes(S):
    xc = scoped(S, S.params['chain'], MAPS[:S.params['maps']])
    follows(S, ET.fromstring(xigtxml.dumps(xc, indent=None)), xc, 'xigt-corpus')


def layout(S):
    """indentation is white space between elements, a line for each"""
    p = S.params
    f = fill(S, p['vary'], n=1, alpha='a<&\u4e2d', textmin=1)
    # (no white space is added to texts next to elements)
    f['meta.text'] = f['child.text'] = None
    clean(S, f)
    xc = build(f, usable(S, f), where=p['where'])
    flat = xigtxml.dumps(xc, indent=None)
    n = S.size('indent', 0, 4)
    lines = xigtxml.dumps(xc, indent=n).rstrip('\n').split('\n')
    depth = 0
    for line in lines:
        bare = line.strip()
        if bare[:2] == '</':
            depth -= 1
        S.require(line == ' ' * (n * depth) + bare, 'the indentation of an element')
        S.require(bare[:1] == '<' and '><' not in bare, 'a line for each element')
        if bare[:2] != '</' and bare[-2:] != '/>' and '</' not in bare:
            depth += 1
            S.reach('deeper')
    S.require(depth == 0, 'every element ends')
    S.require(''.join([x.strip() for x in lines]) == flat, 'indentation adds white space only')


def shapes(t):
    out, n = [], 0
    for o in OBJECTS:
        ks = OBJECTS[o]
        for i in range(len(ks)):
            for j in range(i) if t != 'quick' else [i - 1 - i % 2] if i > 1 else [0] if i else []:
                n += 1
                where = {'cmd': 'corpus', 'imd': 'igt'}.get(o, ('igt', 'corpus', 'tier')[n % 3])
                d = dict(vary=[o + '.' + ks[j], o + '.' + ks[i]], where=where, indent=(None, 0, 2)[n % 3])
                if n % 4 == 0:
                    d['file'] = True
                out.append(d)
                if t != 'quick':
                    out.append(dict(d, n=2))
    return out


HARNESSES = [('written', shapes, list(XML) + ['other', 'metadata come first']),
             ('scopes', lambda t: [dict(chain=c, maps=3 if t == 'quick' else 7) for c in CHAINS], ['other']),
             ('layout', lambda t: [dict(vary=v, where=w) for w in ('igt', 'tier', 'corpus') for v in ([], ['item.text'], ['grandchild.text'], ['imd.type'])], ['deeper'])]
