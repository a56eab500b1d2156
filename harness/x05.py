"""X05: reading XML documents as people and other tools write them."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtxml
from harness.corpora import describe, difference

PROPERTY = 'X05'
BOUNDS = ('a document with metadata, nested elements, tiers and items, whose layout varies in two respects at a time: white space '
          'between elements (arbitrary, up to 2 characters), attribute order and quotes, empty-element tags, character and entity '
          'references, comments, XML declaration, where namespaces are declared and under which prefix (arbitrary letter), '
          'unknown elements and text between elements, namespaced attributes with the names of those of xigt; texts of up to 2 arbitrary characters; the three loading modes; elements with equal attributes that are changed one by one')
ASSUMES = ['no DTD']
OPTS = ['gap', 'quote', 'order', 'empty', 'ref', 'comment', 'decl', 'prefix', 'nsat', 'unknown', 'mode', 'text', 'bytes', 'spaced']


def document(S):
    on = S.params['vary']

    def opt(name, options):
        return S.choice(name, options) if name in on else options[0]
    gap = S.str('gap', 0, 2, ' \n\t') if 'gap' in on else '\n'
    q = opt('quote', ['"', "'"])
    pre = S.str('prefix', 1, 1, 'dpx') if 'prefix' in on else 'dc'
    com = opt('comment', ['', '<!-- <igt/> & -->', '<!---->'])
    unk = opt('unknown', ['', '<extra id="z"><tier/><item>no</item></extra>', 'stray'])
    nsat = opt('nsat', ['corpus', 'metadata', 'meta', 'child'])
    text = S.str('text', 0, 2, 'ab \u4e2d') if 'text' in on else 'ab'
    form = opt('ref', ['plain', 'lt', 'amp', 'dec', 'hex', 'cdata'])
    raw, meant = {'plain': ('', ''), 'lt': ('&lt;', '<'), 'amp': ('&amp;lt;', '&lt;'), 'dec': ('&#97;&#20013;', 'a\u4e2d'),
                  'hex': ('&#x1F600;&#x0a;', '\U0001f600\n'), 'cdata': ('<![CDATA[<&]]>', '<&')}[form]
    decl = ' xmlns:' + pre + '=' + q + 'http://purl.org/dc/elements/1.1/' + q

    def ns(level):
        return decl if nsat == level else ''

    order = opt('order', ['asis', 'reversed'])

    def at(*kvs):
        kvs = list(kvs)
        if order == 'reversed':
            kvs = kvs[::-1]
        return ''.join(' ' + k + '=' + q + v + q for k, v in kvs)
    # attributes of a namespace that are named like those of xigt
    spaced = 'spaced' in on and nsat == 'corpus' and S.flag('spaced')
    DC = '{http://purl.org/dc/elements/1.1/}'

    def sp(v):
        return [(pre + ':id', 'n' + v), (pre + ':type', 't' + v), (pre + ':alignment', 'a' + v)] if spaced else []

    def spa(v, **kw):
        if spaced:
            kw.update({DC + 'id': 'n' + v, DC + 'type': 't' + v, DC + 'alignment': 'a' + v})
            S.reach('spaced')
        return kw
    empty = opt('empty', ['<item' + at(('id', 'e1'), ('alignment', 'w1')) + '/>',
                          '<item' + at(('id', 'e1'), ('alignment', 'w1')) + '></item>'])
    s = opt('decl', ['', '<?xml version="1.0"?>', "<?xml version='1.0' encoding='utf-8'?>\n"])
    s += '<xigt-corpus' + at(('id', 'c'), ('lg', 'x y'), *sp('c')) + ns('corpus') + '>' + gap + com + unk
    s += '<metadata' + at(('type', 'xigt-meta'), *sp('d')) + ns('metadata') + '>' + gap
    s += '<meta' + at(('id', 'm1'), ('type', 'a'), *sp('m')) + ns('meta') + '>' + gap
    s += '<' + pre + ':subject' + at(('code', 'k'), ('id', 'no'), *sp('s')) + ns('child') + '>' + 'S' + raw + '</' + pre + ':subject>' + gap
    s += '</meta>' + gap + com + '<meta>T</meta></metadata>' + gap + unk
    for i in ('i1', 'i2'):
        s += '<igt' + at(('id', i), ('note', raw.replace('<![CDATA[<&]]>', '')), *sp('g')) + '>' + gap + com
        s += '<tier' + at(('id', 'w'), ('type', 'words'), *sp('t')) + '>' + gap + '<item' + at(('id', 'w1'), *sp('i')) + '>' + text + raw + '</item>' + gap
        s += unk + '</tier>' + gap + '<tier' + at(('id', 'e'), ('alignment', 'w')) + '>' + com + empty + gap + '</tier>' + unk + gap
        s += '</igt>' + gap + com
    s += '</xigt-corpus>' + gap
    note = meant if form != 'cdata' else ''
    igts = []
    for i in ('i1', 'i2'):
        full = text + meant
        igts.append(Igt(id=i, attributes=spa('g', note=note), tiers=[
            Tier(id='w', type='words', attributes=spa('t'), items=[Item(id='w1', attributes=spa('i'), text=full if len(full) else None)]),
            Tier(id='e', alignment='w', items=[Item(id='e1', alignment='w1')])]))
    want = XigtCorpus(id='c', attributes=spa('c', lg='x y'), igts=igts, metadata=[Metadata(type='xigt-meta', attributes=spa('d'), metas=[
        Meta(id='m1', type='a', attributes=spa('m'), children=[MetaChild('subject', attributes=spa('s', code='k', id='no'), text='S' + meant,
                                                    namespace='http://purl.org/dc/elements/1.1/')]),
        Meta(text='T')])])
    return s, want, opt('mode', ['full', 'incremental', 'transient'])


def read(S):
    s, want, mode = document(S)
    if mode == 'full' and 'mode' not in S.params['vary']:
        got = xigtxml.loads(s)
        d = difference(describe(want), describe(got))
        S.require(d is None, 'reading differs: %s' % d)
        m = got.metadata[0][0][0]
        S.require('http://purl.org/dc/elements/1.1/' in m.nsmap.values(), 'declared prefixes')
        S.reach('read')
    else:
        got = xigtxml.load(S.put_file('d.xml', s), mode=mode)
        S.require(len(got) == (2 if mode == 'full' else 0), 'igts loaded at once')
        S.require(got.id == 'c' and len(got.metadata) == 1, 'the corpus is known before its igts')
        igts = []
        for g in got:
            S.require(g.corpus is got, 'the corpus of an igt')
            igts.append(g)
        S.require(len(igts) == 2, 'number of igts')
        for a, b in zip(igts, want):
            d = difference(describe(b), describe(a))
            S.require(d is None, 'reading differs: %s' % d)
        S.require(len(got) == (0 if mode == 'transient' else 2), 'igts kept')
        S.reach(mode)


def attributes(S):
    """every element has its own attributes, and only those"""
    def el(name, tag, cls, inner='', **kw):
        ks = [k for k in S.params['keys'] if S.flag(name + '.' + k)] if name in S.params['vary'] else []
        S.reach('own' if ks else 'none')
        return ('<' + tag + ''.join(' ' + k + '="' + name + '"' for k in ks) + '>' + inner + '</' + tag + '>',
                cls(**dict({k: name for k in ks if k == 'type'}, attributes={k: name for k in ks if k != 'type'}, **kw)))

    def els(names, tag, cls, inner=None, field=None, **kw):
        s, out = '', []
        for n in names:
            a, xs = inner(n) if inner else ('', [])
            if field:
                kw[field] = xs
            b, o = el(n, tag, cls, a, **kw)
            s += b
            out.append(o)
        return s, out

    class Child(MetaChild):
        pass

    def child(attributes=None, children=None, type=None):
        a = dict(attributes or {})
        if type is not None:
            a['type'] = type
        return MetaChild('e', attributes=a, children=children)
    md, mds = els(['d1', 'd2'], 'metadata', Metadata, lambda d: els([d + 'm1', d + 'm2'], 'meta', Meta, lambda m: els(
        [m + 'e1', m + 'e2'], 'e', child, lambda e: els([e + 'f'], 'e', child, field=None), 'children'), 'children') if d == 'd1' else ('', []), 'metas')
    gs, igts = els(['g1', 'g2'], 'igt', Igt, lambda g: els([g + 't1', g + 't2'], 'tier', Tier, lambda t: els(
        [t + 'i1', t + 'i2'], 'item', Item), 'items') if g == 'g1' else ('', []), 'tiers')
    s, want = el('c', 'xigt-corpus', XigtCorpus, md + gs, metadata=mds, igts=igts)
    got = xigtxml.loads(s)
    d = difference(describe(want), describe(got))
    S.require(d is None, 'attributes of elements: %s' % d)


CH = [['c', 'd1', 'g1'], ['d1', 'd2', 'd1m1'], ['d1m1', 'd1m2', 'd1m1e1'], ['d1m1e1', 'd1m1e2', 'd1m2e1'], ['d1m1e1', 'd1m1e1f', 'd1m1e2f'], ['d2', 'g1', 'g2'],
      ['g1', 'g1t1', 'g1t2'], ['g1t1', 'g1t1i1', 'g1t1i2'], ['g1t1i2', 'g1t2', 'g1t2i1'], ['g1t2i2', 'g2', 'd1m2e2']]


def shapes(t):
    opts = [o for o in OPTS if o != 'bytes']
    out = []
    for i in range(len(opts)):
        for j in range(i):
            if t == 'quick' and (i + j) % 2 and i < 6:
                continue
            out.append(dict(vary=[opts[j], opts[i]]))
    return out


HARNESSES = [('read', shapes, ['read', 'full', 'incremental', 'transient', 'spaced']),
             ('attributes', lambda t: [dict(vary=v, keys=['k', 'type'] if t == 'quick' else ['k', 'type', 'l']) for v in CH], ['own', 'none'])]
