"""P01: the axes and name tests of XigtPath."""
from xigt import XigtCorpus, Igt, Tier, Item, xigtpath as xp
from harness.paths import (N, corpus, igt, tier, item, metadata, meta, child, nodes,
                           render, evaluate, agree)

PROPERTY = 'P01'
BOUNDS = ('a corpus of two igts with metadata (on the corpus, igt or tier), nested elements, tiers and items, in which names, '
          'namespaces and attributes vary; from every node, every path of one to two (thorough: three) steps out of '
          'self, parent, children and descendants by name, by arbitrary one-letter name, by prefix, by *, and attributes '
          'by name, prefix and *; relative, from the root, and // at either place; the prefixes declared at the corpus, or exchanged below an igt or a meta; '
          'paths evaluated before and after the document is edited (an igt moved to another corpus or renamed, tiers added, attributes and prefixes changed)')
ASSUMES = ['// stands before a name test', 'attribute steps come last', 'an object that declares a prefix anew is not itself in the namespace of the prefix']


def document(S):
    where = S.params.get('md', 'igt')
    anew = S.choice('anew', ['igt', 'meta']) if S.params.get('anew') else None
    other = {'p': 'v', 'q': 'u'}
    k1 = S.params['k'] == 1 and where == 'igt'
    ns1 = S.choice('ns1', ['u'] if not k1 else ['u', 'v'] if anew else [None, 'u', 'v', 'w'])
    ns2 = S.choice('ns2', ['u', 'v'] if k1 and not anew else ['u'])
    y = child(S.str('y', 1, 1, 'xyz'), ns=ns2, text='deep', attrs={'id': 'cid', 'k': 'ck', '{u}k': 'cuk', '{v}k': 'cvk'})
    x = child('x', [y], ns=ns1, attrs={'type': 'ct'})
    odd = child(S.choice('odd', ['item', 'a.b-c', 'textual', 'value'] if k1 and S.params['start'] != '/' else ['item']), text='odd')
    md = metadata([meta([x, odd], id='m', type='mt', nsmap=other if anew == 'meta' else None), meta(text='t', ns=ns1)], ns=ns2)
    a1 = item('a1', 'A', ns=ns1, attrs={'k': S.str('k', 0, 1, 'ab'), '{u}k': 'u-k', '{v}j': 'v-j'})
    a2 = item(None, 'B', attrs={'name': 'attname'})
    ta = tier('ta', [a1, a2], md=[md] if where == 'tier' else [], type=S.str('type', 1, 1, 'xy'))
    tb = tier('tb', [item('b1', 'C')], ns=ns2, attrs={'{u}k': 'tuk'})
    i1 = igt('i1', [ta, tb], md=[md] if where == 'igt' else [], nsmap=other if anew == 'igt' else None)
    i2 = igt(None, [tier('ta', [item('i2', ns='u')] if anew else [], ns=ns2 if anew else None)])
    return corpus([i1, i2], md=[md] if where == 'corpus' else [], id='c')


NAMES = [(None, 'igt'), (None, 'tier'), (None, 'item'), (None, 'metadata'), (None, 'meta'), (None, 'x'), (None, 'a.b-c'),
         (None, 'textual'), (None, 'value'), (None, 'xigtcorpus'), ('p', 'item'), ('q', 'metadata'), ('p', 'meta'), ('q', 'tier'),
         ('p', 'x'), ('q', '*'), ('p', '*'), ('u', 'item'), (None, '*')]
FEWER = [(None, 'igt'), (None, 'tier'), (None, 'item'), (None, 'metadata'), (None, 'meta'), ('q', 'tier'), ('p', 'x'), ('p', '*'), (None, '*')]
ATTRS = [(None, 'id'), (None, 'type'), (None, 'name'), (None, 'k'), ('p', 'k'), ('q', 'k'), (None, '*'), ('p', '*'), ('q', '*'), ('v', 'j')]


def anode(S, name, last):
    how = S.choice(name + '.how', ['.', '..', 'name', 'letter'] + (['attr'] if last else []))
    if how in ('.', '..'):
        return (how,)
    if how == 'letter':
        return ('n', None, S.str(name + '.name', 1, 1, 'xyz'))
    if how == 'name':
        p, x = S.choice(name + '.test', NAMES if S.params['k'] == 1 else FEWER)
        return ('n', p, x)
    p, x = S.choice(name + '.attr', ATTRS)
    return ('@', p, x)


def walk(S):
    p = S.params
    doc = document(S)
    start = p['start']
    steps = []
    for i in range(p['k']):
        node = anode(S, 'step%d' % i, i == p['k'] - 1)
        dbl = node[0] == 'n' and (start == '//' if i == 0 else S.flag('dbl%d' % i))
        if i == 0 and start == '//':
            S.assume(node[0] == 'n')
        steps.append(('//' if dbl else '/', node, []))
    path = (start, steps)
    text = render(path)
    if p.get('from') == 'root':
        n = doc
    else:
        n = S.choice('from', nodes(doc))
    want = evaluate(n, path)
    got = xp.findall(n.obj, text)
    S.require(agree(got, want), 'results of a path')
    one = xp.find(n.obj, text)
    S.require(agree([one], [want[0] if want else None]), 'find gives the first result')
    S.require(agree(list(xp.iterfind(n.obj, text)), want), 'iterfind gives the same results')
    S.observe(len(got))
    S.reach('some' if want else 'none')
    S.reach(start)
    S.reach(steps[-1][1][0])


def labels(found):
    return [x if not hasattr(x, 'attributes') else (x.__class__.__name__, x.id) for x in found]


AGAIN = ['/igt', '/@id', '//tier/@id', '..', '../@id', 'tier', 'tier/@id', 'item/@id', './/item', '*', '@k', 'p:tier', '../../@id', '//item/@p:k', '@id']


def again(S):
    """a path evaluated anew after the document changed"""
    def make(st):
        tiers = [Tier(id=i, namespace='u' if i == 'n' else None, items=[Item(id='x' + i, attributes={'{u}k': 'uk', '{v}k': 'vk'})]) for i in st['tiers']]
        return XigtCorpus(id=st['corpus'], nsmap={'p': st['p']}, igts=[Igt(id=st['igt'], attributes={'k': st['k']}, tiers=tiers)])

    def starts(xc):
        return [xc[0], xc[0][0], xc[0][0][0]]
    st = dict(corpus='c', p='u', igt='g', tiers=['t', 'n'], k='a')
    xc = make(st)
    path = S.choice('path', AGAIN)
    at = S.choice('from', [0, 1, 2])
    start = starts(xc)[at]
    # what is asked before the change: the same, something else, only the first result
    how = S.choice('before', ['same', 'first', 'other', 'elsewhere'])
    if how == 'same':
        S.require(labels(xp.findall(start, path)) == labels(xp.findall(starts(make(st))[at], path)), 'the same document gives the same')
    elif how == 'first':
        xp.find(start, path)
    elif how == 'other':
        xp.findall(start, S.choice('other', ['//*', '/igt/tier', '../..']))
    else:
        xp.findall(starts(make(dict(st, corpus='e', k='z', tiers=['z'])))[at], path)
    op = S.choice('op', ['none', 'move', 'value', 'prefix', 'append', 'rename', 'insert'])
    if op == 'move':
        other = XigtCorpus(id='d', nsmap={'p': 'u'})
        g = xc[0]
        xc.remove(g)
        other.append(g)
        xc = other
        st['corpus'] = 'd'
    elif op == 'value':
        st['k'] = S.str('k', 0, 1, 'ab')
        xc[0].attributes['k'] = st['k']
    elif op == 'prefix':
        st['p'] = S.choice('uri', ['u', 'v'])
        xc.nsmap = {'p': st['p']}
    elif op == 'append':
        xc[0].append(Tier(id='m', items=[Item(id='xm', attributes={'{u}k': 'uk', '{v}k': 'vk'})]))
        st['tiers'] = ['t', 'n', 'm']
    elif op == 'rename':
        st['igt'] = S.str('id', 1, 1, 'gh')
        xc[0].id = st['igt']
    elif op == 'insert':
        xc[0].insert(1, Tier(id='m', items=[Item(id='xm', attributes={'{u}k': 'uk', '{v}k': 'vk'})]))
        st['tiers'] = ['t', 'm', 'n']
    want = labels(xp.findall(starts(make(st))[at], path))
    S.require(labels(xp.findall(start, path)) == want, 'results after a change of the document')
    S.require(labels([xp.find(start, path)]) == (want[:1] or [None]), 'the first result after a change of the document')
    S.reach(op)


def shapes(t):
    out = []
    for md in ('igt', 'corpus', 'tier'):
        for start in ('', '/', '//'):
            out.append(dict(md=md, start=start, k=1, **({} if start == '' else {'from': 'root'})))
    out.append(dict(md='igt', start='', k=2, **{'from': 'root'}))
    out.append(dict(md='igt', start='//', k=2, **{'from': 'root'}))
    for start in ('', '//'):
        out.append(dict(md='igt', start=start, k=1, anew=True, **({'from': 'root'} if start else {})))
    out.append(dict(md='igt', start='', k=2, anew=True, **{'from': 'root'}))
    if t != 'quick':
        out.append(dict(md='tier', start='', k=2))
        out.append(dict(md='corpus', start='//', k=2))
        out.append(dict(md='igt', start='', k=3, **{'from': 'root'}))
    return out


HARNESSES = [('walk', shapes, ['some', 'none', '', '/', '//', '.', '..', 'n', '@']),
             ('again', lambda t: [{}], ['none', 'move', 'value', 'prefix', 'append', 'rename', 'insert'])]
