"""X04: the XML and JSON codecs agree with each other."""
from xigt.codecs import xigtxml, xigtjson
from harness.corpora import (fill, clean, usable, build, describe, difference, scoped, OBJECTS, MAPS, CHAINS)

PROPERTY = 'X04'
BOUNDS = ('the corpora of X01, two fields of one object at a time varying over absent and arbitrary strings of up to 1 (thorough 2) '
          'characters; chains model > XML > model > JSON > model > XML and the other way round; transient reading with '
          'writing in the other format; from JSON files to XML files; namespaces declared anew, hidden or not declared at any two levels, as X01')
ASSUMES = ['as X01 and X03']
A = 'a<&"\\\n \u4e2d'


def cross(S):
    p = S.params
    f = fill(S, p['vary'], alpha=A, n=p.get('n', 1))
    clean(S, f)
    xc = build(f, usable(S, f), where=p['where'])
    first = describe(xc)
    if p['way'] == 'xjx':
        x = xigtxml.dumps(xc)
        j = xigtjson.loads(xigtjson.dumps(xigtxml.loads(x)))
        y = xigtxml.dumps(j)
        d = difference(first, describe(j))
        S.require(d is None, 'XML to JSON changed: %s' % d)
        d = difference(first, describe(xigtxml.loads(y)))
        S.require(d is None, 'JSON to XML changed: %s' % d)
    else:
        j = xigtjson.dumps(xc)
        x = xigtxml.loads(xigtxml.dumps(xigtjson.loads(j)))
        d = difference(first, describe(x))
        S.require(d is None, 'JSON to XML changed: %s' % d)
        d = difference(first, describe(xigtjson.loads(xigtjson.dumps(x))))
        S.require(d is None, 'XML to JSON changed: %s' % d)
    S.reach(p['way'])


def piped(S):
    """reading igt by igt and writing in the other format"""
    f = fill(S, ['item.text', 'igt.n'], alpha=A)
    xc = build(f, {'p': 'http://u/'})
    first = describe(xc)
    path = S.mkpath('in.xml')
    xigtxml.dump(path, xc)
    mode = S.choice('mode', ['transient', 'incremental', 'full'])
    if S.flag('json'):
        out = xigtjson.loads(xigtjson.dumps(xigtxml.load(path, mode=mode)))
    else:
        out = xigtxml.loads(xigtxml.dumps(xigtxml.load(path, mode=mode)))
    d = difference(first, describe(out))
    S.require(d is None, 'conversion changed: %s' % d)
    S.reach(mode)


def stored(S):
    """the other way round: from a JSON file"""
    f = fill(S, ['item.text', 'igt.id'], alpha='a"<\xe9\u4e2d\U0001f600')
    xc = build(f, {'p': 'http://u/'})
    first = describe(xc)
    path = S.mkpath('in.json')
    xigtjson.dump(path, xc)
    mode = S.choice('mode', ['transient', 'incremental', 'full'])
    handle = S.flag('handle')
    source = open(path) if handle else path
    if mode == 'transient' and not handle:
        got = xigtjson.load(source)
    else:
        got = xigtjson.load(source, mode=mode)
    if handle:
        source.close()
    out = S.mkpath('out.xml')
    xigtxml.dump(out, got)
    d = difference(first, describe(xigtxml.load(out)))
    S.require(d is None, 'conversion changed: %s' % d)
    if mode == 'incremental':
        # its igts can be had again
        xigtxml.dump(out, got)
        d = difference(first, describe(xigtxml.load(out)))
        S.require(d is None, 'a second conversion changed: %s' % d)
        S.require(len(got) == len(xc) and got[0].id == xc[0].id, 'the igts read one by one are kept')
        S.reach('again')
    S.reach('stored')


def scopes(S):
    """namespaces declared anew, hidden, or not declared further down"""
    xc = scoped(S, S.params['chain'], MAPS[:S.params['maps']])
    first = describe(xc)
    j = xigtjson.loads(xigtjson.dumps(xigtxml.loads(xigtxml.dumps(xc))))
    d = difference(first, describe(j))
    S.require(d is None, 'XML to JSON changed: %s' % d)
    d = difference(first, describe(xigtxml.loads(xigtxml.dumps(j))))
    S.require(d is None, 'JSON to XML changed: %s' % d)
    S.reach('scopes')


def shapes(t):
    out, n = [], 0
    for o in OBJECTS:
        ks = [k for k in OBJECTS[o]]
        for i in range(len(ks)):
            for j in range(i) if t != 'quick' else [(i * 3 + 1) % len(ks)]:
                n += 1
                where = {'cmd': 'corpus', 'imd': 'igt'}.get(o, ('igt', 'corpus', 'tier')[n % 3])
                for way in ('xjx', 'jxj') if t != 'quick' else (('xjx', 'jxj')[n % 2],):
                    out.append(dict(vary=[o + '.' + ks[i], o + '.' + ks[j]], where=where, way=way))
    return out


HARNESSES = [('cross', shapes, ['xjx', 'jxj']), ('piped', lambda t: [{}], ['transient', 'incremental', 'full']), ('stored', lambda t: [{}], ['stored', 'again']),
             ('scopes', lambda t: [dict(chain=c, maps=3 if t == 'quick' else 5) for c in CHAINS], ['scopes'])]
