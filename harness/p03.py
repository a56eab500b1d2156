"""P03: XigtPath functions: text(), value(), referent() and referrer()."""
from xigt import xigtpath as xp
from harness.paths import corpus, igt, tier, item, metadata, meta, child, nodes, render, evaluate, agree

PROPERTY = 'P03'
BOUNDS = ('igts of up to three tiers and four items with or without ids, in which items refer, by two attributes, to any one or two '
          'items of another tier or to nothing that exists; functions with every selection of the three reference attributes, '
          'as a step, followed by a step, chained, or in a predicate; texts absent or of 0..2 arbitrary characters; '
          'values through references with a span')
ASSUMES = ['ids are unique in an igt', 'only tiers and items are asked for referents and referrers',
           'tier references name one tier each']
RAS = ['alignment', 'content', 'segmentation']


def document(S):
    p = S.params
    w = [item('w1', 'abc'), item('w10', 'd')]
    opts = [None, ['w1'], ['w10', 'w1'], ['gone'], ['w1', 'gone']][:p.get('opts', 5)]
    its = []
    for i in range(p['items']):
        refs = {}
        for ra in p['ras']:
            r = S.choice('r%d.%s' % (i, ra), opts)
            if r is not None:
                refs[ra] = r
        its.append(item('g%d' % i if S.flag('g%d.id' % i) else None, 'x', refs=refs))
    trefs = {}
    for ra in p['ras']:
        if S.flag('t.' + ra):
            trefs[ra] = [S.choice('t.%s.to' % ra, ['w', 'gone', 'g'])]
    tw, tg = tier('w', w), tier('g' if S.flag('tg.id') else None, its, refs=trefs)
    return corpus([igt('i', [tw, tg] if not p.get('swap') else [tg, tw])])


ARGS = [[], ['alignment'], ['segmentation'], ['segmentation', 'alignment'], ['content']]


def refs(S):
    p = S.params
    doc = document(S)
    f = ('f', S.choice('f', ['referent', 'referrer']), S.choice('args', ARGS))
    shape = p['shape']
    if shape == 'step':
        steps = [('/', f, [])]
        start = ''
    elif shape == 'then':
        steps = [('/', f, []), ('/', S.choice('then', [('..',), ('@', None, 'id'), ('n', None, 'item'), ('f', 'text', [])]), [])]
        start = ''
    elif shape == 'chain':
        steps = [('/', f, []), ('/', ('f', S.choice('f2', ['referent', 'referrer']), S.choice('args2', ARGS[:2]) if p.get('args2') else []), [])]
        start = ''
    else:
        steps = [('/', ('n', None, S.choice('what', ['item', 'tier'])), [(('', [('/', f, [])]), None)])]
        start = '//'
    path = (start, steps)
    text = render(path, ' ' if shape == 'chain' else '')
    # from tiers and items only
    where = [n for n in nodes(doc) if n.name in ('tier', 'item')] if start == '' else [doc]
    for n in where:
        want = evaluate(n, path)
        got = xp.findall(n.obj, text)
        S.require(agree(got, want), 'results of %s' % f[1])
        S.reach('some' if want else 'none')
        S.observe(len(got))
    S.reach(f[1])


def texts(S):
    """text() and value()"""
    t1 = S.str('t1', 0, 2, 'ab') if S.flag('t1.has') else None
    t2 = S.str('t2', 0, 1, 'ab') if S.flag('t2.has') else None
    span = S.choice('span', ['w1', 'w1[0:1]', 'w1[1:2+0:1]'])
    w1 = item('w1', 'xyz')
    got = {'w1': 'xyz', 'w1[0:1]': 'x', 'w1[1:2+0:1]': 'yx'}[span]
    m1 = item('m1', t1, attrs={'segmentation': span}, value=got if t1 is None else t1)
    m2 = item('m2', t2, value=t2)
    md = metadata([meta([child('x', text=t2)], text=t1)])
    doc = corpus([igt('i', [tier('w', [w1]), tier('m', [m1, m2], attrs={'segmentation': 'w'})], md=[md])])
    f = ('f', S.choice('f', ['text', 'value']), [])
    n = S.choice('node', [('n', None, x) for x in ('item', 'tier', 'igt', 'meta', 'metadata', 'x', '*')])
    if S.flag('pred'):
        path = ('//', [('/', n, [(('', [('/', f, [])]), S.choice('cmp', ['=', '!=']), S.str('lit', 1, 1, 'abx'))])])
    else:
        path = ('//', [('/', n, []), ('/', f, [])])
    want = evaluate(doc, path)
    got = xp.findall(doc.obj, render(path))
    S.require(agree(got, want), 'results of %s()' % f[1])
    S.reach(f[1])
    S.observe(len(got))


def shapes(t):
    out = [dict(shape='step', items=1, ras=['alignment', 'segmentation'], opts=4), dict(shape='step', items=2, ras=['alignment']),
           dict(shape='then', items=1, ras=['alignment']), dict(shape='chain', items=2, ras=['segmentation'], opts=3),
           dict(shape='chain', items=0, ras=['alignment', 'segmentation'], args2=True),
           dict(shape='pred', items=1, ras=['segmentation'], swap=True)]
    if t != 'quick':
        out += [dict(shape=s, items=2, ras=['alignment', 'segmentation'], opts=3) for s in ('step', 'then', 'pred')]
        out += [dict(shape='chain', items=2, ras=['alignment'], opts=5, swap=True), dict(shape='step', items=3, ras=['content'])]
    return out


HARNESSES = [('refs', shapes, ['some', 'none', 'referent', 'referrer']), ('texts', lambda t: [{}], ['text', 'value'])]
