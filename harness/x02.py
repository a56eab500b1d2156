"""X02: writing XML changes nothing, is repeatable, and agrees between its ways of writing."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta
from xigt.codecs import xigtxml
from xigt.errors import XigtError
from harness.common import raises
from harness.corpora import fill, clean, usable, build, describe, difference, nsmaps, inherits, OBJECTS, KNOWN

PROPERTY = 'X02'
BOUNDS = ('the corpora of X01 varied in up to two fields within one object; indent None, 0, 2 and 4; dumps, dump to a text file '
          'object, to an open file (in several encodings, after other text) and to a path; loads after dumps followed by dumps; documents of up to 2 fixed characters in UTF-8, ASCII, ISO-8859-1 and UTF-16 read from bytes, paths and binary files; corpora of the three modes')
ASSUMES = ['as X01', 'files are written as UTF-8 except where another encoding is asked for']
A = 'a<>&"\' \n\u4e2d'


def stable(S):
    p = S.params
    f = fill(S, p['vary'], alpha=A)
    clean(S, f)
    nsmap = usable(S, f)
    xc = build(f, nsmap, where=p['where'])
    before, maps = describe(xc), nsmaps(xc)
    one = xigtxml.dumps(xc, indent=p['indent'])
    S.require(difference(before, describe(xc)) is None and nsmaps(xc) == maps, 'writing changed the corpus')
    two = xigtxml.dumps(xc, indent=p['indent'])
    S.require(one == two, 'writing twice gives different texts')
    out = S.stringio()
    xigtxml.dump(out, xc, encoding='unicode', indent=p['indent'])
    S.require(out.getvalue() == one, 'dump and dumps differ')
    # (a prefix that had to be added counts as declared from then on)
    if f['item.known'] != KNOWN[1] and f['child.known'] != KNOWN[1]:
        again = xigtxml.dumps(xigtxml.loads(one), indent=p['indent'])
        S.require(again == one, 'the text changes after reading and writing')
    S.require(inherits(xc, build(f, nsmap, where=p['where'])), 'writing changed where namespaces are inherited from')
    S.reach('stable')
    S.observe(one)


def files(S):
    """to a path and back, in each mode"""
    text = S.str('text', 1, 2, 'a<&"\xe9\u4e2d')
    xc = XigtCorpus(id='c', igts=[Igt(id='i%d' % k, tiers=[Tier(id='t', items=[Item(id='x', text=text)])])
                                  for k in range(S.choice('n', [0, 1, 2]))])
    path = S.mkpath('out.xml')
    xigtxml.dump(path, xc)
    mode = S.choice('mode', ['full', 'incremental', 'transient'])
    back = xigtxml.load(path, mode=mode)
    S.require(back == xc if mode == 'full' else back.id == 'c', 'reading the file')
    igts = []
    for g in back:
        S.require(g.corpus is back, 'corpus of an igt read from a file')
        igts.append(describe(g))
    S.require(len(igts) == len(xc), 'number of igts read from a file')
    for a, b in zip(igts, xc):
        S.require(difference(a, describe(b)) is None, 'igt read from a file')
    S.reach(mode)


def opened(S):
    """to a file that is open already, after what was written to it before"""
    p = S.params
    text = S.str('text', 1, 1, 'a<&"\xe9\u4e2d')
    xc = XigtCorpus(id='c', igts=[Igt(id='i%d' % k, tiers=[Tier(id='t', items=[Item(id='x', text=text)])]) for k in range(p['igts'])])
    path = S.mkpath('out.xml')
    # (the default encoding declares itself, which has to come first)
    pre = S.choice('pre', ['', '<!-- x -->', '\n']) if p['encoding'] == 'unicode' else ''
    with open(path, 'w', encoding='utf-8') as f:
        if pre:
            f.write(pre)
        if p['encoding'] is None:
            xigtxml.dump(f, xc, indent=p['indent'])
        else:
            xigtxml.dump(f, xc, encoding=p['encoding'], indent=p['indent'])
    got = S.get_file(path)
    want = xigtxml.dumps(xc, indent=p['indent'])
    if p['encoding'] == 'unicode':
        S.require(got == pre + want, 'what is written to an open file')
    with open(path, 'r', encoding='utf-8') as f:
        back = xigtxml.load(f)
    S.require(difference(describe(xc), describe(back)) is None, 'reading what was written to an open file')
    S.reach('opened')


def encodings(S):
    """documents in other encodings say so, and are read accordingly"""
    enc = S.params['encoding']
    text = S.choice('text', ['a', '\xe9', 'a\u4e2d\xa0', '&\U00010000'])
    where = S.choice('where', ['text', 'attribute', 'metadata'])
    xc = XigtCorpus(id='c', igts=[Igt(id='i', tiers=[Tier(id='t', items=[Item(id='x', text=text if where == 'text' else 'z')])])])
    if where == 'attribute':
        xc[0][0].attributes['state'] = text
    elif where == 'metadata':
        xc.metadata.append(Metadata(metas=[Meta(type='m', text=text)]))
    doc = xigtxml.dumps(xc, encoding=enc, indent=S.choice('indent', [None, 2]))
    S.require(isinstance(doc, bytes), 'an encoded document is bytes')
    path = S.mkpath('coded.xml')
    with open(path, 'wb') as f:
        f.write(doc)
    how = S.choice('how', ['loads', 'path', 'open'])
    if how == 'loads':
        back = xigtxml.loads(doc)
    elif how == 'path':
        back = xigtxml.load(path)
    else:
        with open(path, 'rb') as f:
            back = xigtxml.load(f)
    S.require(difference(describe(xc), describe(back)) is None, 'reading a document in another encoding')
    S.reach(how)


def wrong(S):
    o = S.choice('o', ['igt', 'tier', 'item', 'none', 'text'])
    o = {'igt': Igt(), 'tier': Tier(), 'item': Item(), 'none': None, 'text': 'x'}[o]
    out = S.stringio()
    S.require(raises(lambda: xigtxml.dumps(o), XigtError) is not None, 'only a corpus can be written')
    S.require(raises(lambda: xigtxml.dump(out, o), XigtError) is not None, 'only a corpus can be written')
    S.require(out.getvalue() == '', 'nothing is written')
    S.reach('wrong')


def shapes(t):
    out, n = [], 0
    for o in OBJECTS:
        ks = OBJECTS[o]
        for i in range(len(ks)):
            for j in range(i if t != 'quick' else min(i, 1 + (i % 2)) if i else 0):
                n += 1
                where = ('igt', 'corpus', 'tier')[n % 3]
                where = {'cmd': 'corpus', 'imd': 'igt'}.get(o, where)
                out.append(dict(vary=[o + '.' + ks[i], o + '.' + ks[j]], where=where, indent=(2, None, 0, 4)[n % 4]))
    return out


HARNESSES = [('stable', shapes, ['stable']), ('files', lambda t: [{}], ['full', 'incremental', 'transient']),
             ('opened', lambda t: [dict(encoding=e, indent=i, igts=n) for e, i, n in
                                   ((None, 2, 1), ('utf-8', None, 2), ('unicode', 2, 1), ('unicode', None, 0), ('us-ascii', 0, 1))], ['opened']),
             ('encodings', lambda t: [dict(encoding=e) for e in ('utf-8', 'us-ascii', 'iso-8859-1', 'utf-16')], ['loads', 'path', 'open']),
             ('wrong', lambda t: [{}], ['wrong'])]
