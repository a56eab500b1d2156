"""X07: XML documents that are damaged are refused, and never read as a smaller corpus."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtxml
from harness.corpora import describe, difference

PROPERTY = 'X07'
BOUNDS = ('documents of 0, 1 or 2 igts with tiers, items, metadata and symbolic texts and attribute values of 1 character, as written by dumps '
          '(indent 2 and None), cut after any character; with up to 2 (thorough 3) arbitrary characters, or another document, comment or element after the root; '
          'with any one end tag having another name; with other roots: an element of another name (up to 5 symbolic characters '
          'around "igt"), in a namespace, an igt; loads (text and bytes), load in the three modes; iterating the corpus read twice; a document read after another one; a document in UTF-8, ISO-8859-1 and UTF-16 cut after any byte')
ASSUMES = ['the assumptions of X01 about the XML parser', 'documents without a DTD']
A = 'a<>&"\' ]/\n\u4e2d'


def corpus(S, n, metadata):
    """a corpus of n igts"""
    xc = XigtCorpus(id='xc', attributes={'k': S.str('val', 1, 1, 'a"&' if n else A)})
    if metadata:
        xc.metadata.append(Metadata(metas=[Meta(type='m', text='igt')]))
    for i in range(n):
        items = [Item(id='t1', text=S.str('text', 1, 1, S.params.get('alpha', 'a<\u4e2d')))] if i == 0 else []
        xc.append(Igt(id='i%d' % i, tiers=[Tier(id='t', items=items)]))
    return xc


def refused(S, text, xc, mode, bytes_=False):
    """the text is not well-formed: the igts that come before the damage are delivered at most"""
    orig = [describe(igt) for igt in xc]
    got = []
    error = None
    try:
        if mode == 'loads':
            got.extend(xigtxml.loads(text.encode('utf-8') if bytes_ else text))
        else:
            fh = S.stringio()
            fh.write(text)
            fh.seek(0)
            for igt in xigtxml.load(fh, mode=mode):
                got.append(igt)
    except StopIteration:
        S.require(False, 'the error ends loops quietly')
    except Exception as e:
        error = e
    S.require(error is not None, 'a damaged document was read as if it were not damaged')
    if mode in ('full', 'loads'):
        S.require(not got, 'a part of a damaged document was read')
    S.require(len(got) <= len(orig), 'more igts than there are')
    for igt, o in zip(got, orig):
        S.require(difference(o, describe(igt)) is None, 'an igt was read only in part')
    S.reach('refused')


def same(S, text, xc, mode):
    """the text is that of the corpus"""
    fh = S.stringio()
    fh.write(text)
    fh.seek(0)
    before = describe(xc)
    back = xigtxml.load(fh, mode=mode)
    if mode == 'transient':
        igts = [describe(igt) for igt in back]
        S.require(len(igts) == len(xc), 'number of igts')
        for x, y in zip(before[6], igts):
            S.require(difference(x, y) is None, 'an igt changed')
    else:
        n = len([igt for igt in back])
        S.require(n == len(xc), 'number of igts')
        S.require(difference(before, describe(back)) is None, 'the corpus changed')
    S.reach('read')


def write(S, xc, root=None):
    return xigtxml.dumps(xc, indent=S.params.get('indent', 2))


def cut(S):
    p = S.params
    xc = corpus(S, p['igts'], p['metadata'])
    text = write(S, xc)
    k = S.choice('cut', list(range(len(text) + 1)))
    head = text[:k]
    if len(text[k:].strip()) == 0:
        same(S, head, xc, p['mode'] if p['mode'] != 'loads' else 'full')
    else:
        refused(S, head, xc, p['mode'])


def after(S):
    """characters after the root"""
    p = S.params
    xc = corpus(S, p['igts'], p['metadata'])
    text = write(S, xc)
    kind = p['junk']
    if kind == 'chars':
        junk = S.str('junk', 1, p.get('n', 2), 'x<>&/ \n\u4e2d\x00-')
        if len(junk.strip(' \n')) == 0:
            return same(S, text + junk, xc, p['mode'] if p['mode'] != 'loads' else 'full')
    elif kind == 'document':
        junk = write(S, xc)
    elif kind == 'element':
        junk = '<igt id="i9"/>'
    elif kind == 'end':
        junk = '</xigt-corpus>'
    elif kind == 'comment':
        return same(S, text + '\n<!-- ' + S.str('c', 0, 1, 'x<&>') + ' -->\n', xc, p['mode'])
    refused(S, text + junk, xc, p['mode'], p.get('bytes', False))


def tags(S):
    """an end tag has another name"""
    p = S.params
    xc = corpus(S, p['igts'], p['metadata'])
    text = write(S, xc)
    name = p['tag']
    at = text.find('</' + name + '>')
    S.assume(at >= 0)
    other = S.str('name', 1, 2, 'igt\u4e2dem')
    if p['whole']:
        S.assume(other != name)
        bad = text[:at + 2] + other + '>'
    else:
        bad = text[:at + 2] + name + other + '>'
    refused(S, bad + text[at + 3 + len(name):], xc, p['mode'])


def root(S):
    """the root is not a corpus"""
    p = S.params
    kind = p['root']
    attrs = ''
    if kind == 'name':
        name = S.str('pre', 0, 1, 'xX\u4e2d') + S.choice('mid', ['igt', 'xigt-corpus', 'tier', 'xigtcorpus', 'Xigt-Corpus']) + S.str('post', 0, 1, 's-.1')
        S.assume(name != 'xigt-corpus')
    else:
        name = 'xigt-corpus'
        uri = S.str('uri', 1, 2, 'ux/')
        if kind == 'default':
            attrs = ' xmlns="' + uri + '"'
        else:
            name = S.str('prefix', 1, 1, 'px') + ':xigt-corpus'
            attrs = ' xmlns:' + name[:1] + '="' + uri + '"'
    content = {'': '', 'igt': '<igt id="i0"/>', 'corpus': '<xigt-corpus><igt id="i0"/></xigt-corpus>'}[p['content']]
    refused(S, '<' + name + attrs + '>' + content + '</' + name + '>', XigtCorpus(), p['mode'])


def following(S):
    """a document that is refused leaves nothing behind"""
    bad = S.choice('bad', ['<xigt-corpus xmlns:p="u" p:k="1"><igt xmlns:q="v" id="a"></xigt-corpus>', '<xigt-corpus xmlns:p="u"><igt id="a"><tier id="t"><item',
                           '<igt xmlns:p="u"/>', '<xigt-corpus xmlns="u"/>', '<xigt-corpus xmlns:p="u" k="1"><metadata><meta type="m"><p:e></meta>', '',
                           '<xigt-corpus xmlns:p="u"><igt id="a"><tier id="1"/></igt></xigt-corpus>', '<xigt-corpus xmlns:p="u"><igt id="a"/><igt id="a"/></xigt-corpus>'])
    mode = S.choice('mode', MODES)

    def attempt():
        if mode == 'loads':
            xigtxml.loads(bad)
        else:
            fh = S.stringio()
            fh.write(bad)
            fh.seek(0)
            for g in xigtxml.load(fh, mode=mode):
                pass
    try:
        attempt()
        ok = 'a"/><igt id="a"' in bad and mode == 'transient'
    except Exception:
        ok = True
    S.require(ok, 'a damaged document was read as if it were not damaged')
    k = S.str('k', 1, 1, 'ab<')
    nsmap = S.choice('nsmap', [{}, {'p': 'w'}, {'q': 'u'}])
    want = XigtCorpus(nsmap=nsmap, igts=[Igt(id='a', attributes={'k': k}, tiers=[Tier(id='t', items=[Item(id='x', text=k)])],
                                             metadata=[Metadata(metas=[Meta(children=[MetaChild('e')])])])])
    got = xigtxml.loads(xigtxml.dumps(want))
    d = difference(describe(want), describe(got))
    S.require(d is None, 'a document after one that was refused: %s' % d)
    for o in [got, got[0], got[0][0], got[0][0][0]]:
        S.require(all(p in nsmap and nsmap[p] == u for p, u in o.nsmap.items()), 'prefixes of a document that was refused')
    S.reach('following')


MODES = ['full', 'incremental', 'transient', 'loads']


def cuts(t):
    out = [dict(igts=n, metadata=False, mode=m, indent=None) for n in (0, 1, 2) for m in MODES if n or m != 'loads']
    out += [dict(igts=1, metadata=True, mode=m, indent=2) for m in ('full', 'transient')]
    if t != 'quick':
        out += [dict(igts=n, metadata=d, mode=m, indent=2, alpha=A) for n in (0, 1, 2) for d in (False, True) for m in MODES]
    return out


def afters(t):
    out = [dict(igts=n, metadata=False, mode=m, junk=j, n=2 if t == 'quick' else 3) for n in (0, 1, 2) for m in MODES
           for j in ('chars', 'document', 'element', 'end', 'comment') if j != 'comment' or m != 'loads']
    out += [dict(igts=1, metadata=True, mode='loads', junk=j, bytes=True) for j in ('chars', 'document')]
    return out


def alltags(t):
    return [dict(igts=2, metadata=True, mode=m, tag=n, whole=w)
            for n in ('xigt-corpus', 'metadata', 'meta', 'igt', 'tier', 'item') for m in MODES for w in (True, False)]


def roots(t):
    return [dict(root=r, content=c, mode=m) for r in ('name', 'default', 'prefix') for c in ('', 'igt', 'corpus') for m in MODES]


def coded(S):
    """documents in other encodings that are cut after any byte, even within a character"""
    p = S.params
    xc = XigtCorpus(id='c', igts=[Igt(id='i%d' % i, tiers=[Tier(id='t', items=[Item(id='x', text='\xe9\xdf')])]) for i in range(p['igts'])])
    doc = xigtxml.dumps(xc, encoding=p['encoding'], indent=None)
    doc = doc[:S.choice('cut', range(len(doc)))]
    path = S.mkpath('coded.xml')
    with open(path, 'wb') as f:
        f.write(doc)
    orig = [describe(igt) for igt in xc]
    got, error = [], None
    try:
        if p['mode'] == 'loads':
            got.extend(xigtxml.loads(doc))
        else:
            for igt in xigtxml.load(path, mode=p['mode']):
                got.append(igt)
    except StopIteration:
        S.require(False, 'the error ends loops quietly')
    except Exception as e:
        error = e
    S.require(error is not None, 'a damaged document was read as if it were not damaged')
    S.require(not got or p['mode'] not in ('full', 'loads'), 'a part of a damaged document was read')
    S.require(len(got) <= len(orig), 'more igts than there are')
    for igt, o in zip(got, orig):
        S.require(difference(o, describe(igt)) is None, 'an igt was read only in part')
    S.reach('refused')


HARNESSES = [('cut', cuts, ['refused', 'read']), ('after', afters, ['refused', 'read']), ('tags', alltags, ['refused']),
             ('root', roots, ['refused']), ('following', lambda t: [{}], ['following']),
             ('coded', lambda t: [dict(igts=2 if t != 'quick' else 1, mode=m, encoding=e) for m in MODES for e in ('utf-8', 'iso-8859-1', 'utf-16')], ['refused'])]
