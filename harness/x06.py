"""X06: single objects are written and read by themselves."""
from xigt.codecs import xigtxml, xigtjson
from harness.corpora import (fill, clean, usable, build, describe, difference, nsmaps, unprefixed, OBJECTS, CHAINS, MAPS, scoped)

PROPERTY = 'X06'
BOUNDS = ('every object of the corpora of X01 (igts, tiers, items, metadata, metas, nested elements), with two fields at a time varying, and of '
          'chains of three levels that declare namespaces anew, hide or lack them; written alone as XML (indent None, 0, 2) and JSON')
ASSUMES = ['the assumptions of X01 for XML', 'an XML fragment is read as part of an otherwise empty corpus']


def objects(xc):
    """all objects but the corpus: (kind, object)"""
    out = []

    def children(m):
        for c in m:
            out.append(('metachild', c))
            children(c)

    def metadata(o):
        for md in o.metadata:
            out.append(('metadata', md))
            for m in md:
                out.append(('meta', m))
                children(m)
    metadata(xc)
    for igt in xc:
        out.append(('igt', igt))
        metadata(igt)
        for tier in igt:
            out.append(('tier', tier))
            metadata(tier)
            for item in tier:
                out.append(('item', item))
    return out


XML = {'igt': ('', '', lambda c: c[0]), 'tier': ('<igt>', '</igt>', lambda c: c[0][0]),
       'item': ('<igt><tier>', '</tier></igt>', lambda c: c[0][0][0]), 'metadata': ('', '', lambda c: c.metadata[0]),
       'meta': ('<metadata>', '</metadata>', lambda c: c.metadata[0][0]),
       'metachild': ('<metadata><meta>', '</meta></metadata>', lambda c: c.metadata[0][0][0])}


def alone(S, kind, o, xml=True, indent=None):
    before, maps = describe(o), nsmaps(o)
    if xml:
        write = {'igt': xigtxml.encode_igt, 'tier': xigtxml.encode_tier, 'item': xigtxml.encode_item, 'metadata': xigtxml.encode_metadata,
                 'meta': xigtxml.encode_meta, 'metachild': xigtxml.encode_metachild}[kind]
        text = write(o) if indent == 2 else write(o, indent=indent)
        a, b, get = XML[kind]
        back = get(xigtxml.loads('<xigt-corpus>' + a + text + b + '</xigt-corpus>'))
    else:
        write, read = {'igt': (xigtjson.encode_igt, xigtjson.decode_igt), 'tier': (xigtjson.encode_tier, xigtjson.decode_tier),
                       'item': (xigtjson.encode_item, xigtjson.decode_item),
                       'metadata': (xigtjson.encode_metadata, xigtjson.decode_metadata),
                       'meta': (xigtjson.encode_meta, xigtjson.decode_meta),
                       'metachild': (xigtjson.encode_metachild, xigtjson.decode_metachild)}[kind]
        back = read(write(o))
    S.require(difference(before, describe(o)) is None and nsmaps(o) == maps, 'writing changed the object')
    d = difference(before, describe(back))
    S.require(d is None, '%s by itself changed: %s' % (kind, d))
    S.require(back == o and o == back, 'the objects are not equal')
    S.require(not unprefixed(o, back), 'prefixes stand for what they stood for')
    S.reach(kind)


def single(S):
    p = S.params
    f = fill(S, p['vary'], n=p.get('n', 1), alpha='a<>&"\' ]\n\t\u4e2d')
    clean(S, f)
    xc = build(f, usable(S, f), where=p['where'])
    for kind, o in objects(xc):
        if kind == p['kind']:
            alone(S, kind, o, p['xml'], p['indent'])
    S.reach('xml' if p['xml'] else 'json')


def scopes(S):
    xc = scoped(S, S.params['chain'], MAPS[:S.params['maps']])
    for kind, o in objects(xc):
        alone(S, kind, o, S.params['xml'])


KINDS = {'igt': ['igt'], 'tier': ['igt', 'tier'], 'item': ['igt', 'item'], 'imd': ['metadata'], 'meta': ['meta', 'metadata'],
         'child': ['metachild', 'meta'], 'grandchild': ['metachild']}


def shapes(t):
    out, n = [], 0
    for o, kinds in KINDS.items():
        fields = [o + '.' + k for k in OBJECTS[o]]
        for i, a in enumerate(fields):
            for j in range(i) if t != 'quick' else range(max(0, i - 2), i):
                for kind in kinds:
                    n += 1
                    out.append(dict(vary=[a, fields[j]], kind=kind, xml=n % 3 > 0, indent=(2, None, 0)[n % 5 % 3], where=('igt', 'tier')[n % 2]))
    return out


HARNESSES = [('single', shapes, ['xml', 'json']),
             ('scopes', lambda t: [dict(chain=c, maps=4 if t == 'quick' else 7, xml=x) for c in CHAINS for x in (True, False)],
              ['igt', 'tier', 'item', 'metadata', 'meta', 'metachild'])]
