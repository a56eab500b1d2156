"""P02: XigtPath predicates keep exactly the results for which they hold."""
from xigt import Item, Tier, Igt, xigtpath as xp
from harness.paths import corpus, igt, tier, item, metadata, meta, child, render, evaluate, agree

PROPERTY = 'P02'
BOUNDS = ('paths of one or two steps with one or two predicates each (nested up to two deep), which test for existence or compare '
          '(= and !=) attributes, texts and values of the object, its parent, children or grandchildren with an arbitrary '
          'string of 0..2 characters out of letters, quotes, backslash, brackets, slash, blank and = (escaped where needed) or '
          'with an unquoted word; evaluated before and after changes of what is tested; attributes and texts arbitrary strings of 0..2 of these characters or absent')
ASSUMES = ['results that are compared are strings']
A = 'ab"\\]/= '


def optional(S, name, n=1, alpha='ab"'):
    return S.str(name, 0, n, alpha) if S.flag(name + '.has') else None


def document(S):
    p = S.params
    vary = p['vary']
    k = S.str('k', 0, p.get('len', 1), A) if 'k' in vary else 'a'
    a1 = item('a1', optional(S, 't1') if 't1' in vary else 'a', attrs={'k': k})
    a2 = item('a2', optional(S, 't2') if 't2' in vary else 'b', attrs={'k': 'b'} if 'k2' in vary and S.flag('k2') else {})
    a3 = item('a3', None, attrs={'k': ''})
    ta = tier('ta', [a1, a2, a3], type=optional(S, 'ty') if 'ty' in vary else 'ab')
    tb = tier('tb', [item('b1', 'a', type='b')], type='b')
    mc = child('x', [child('y', text='a')], text=optional(S, 'mt') if 'mt' in vary else 'b', attrs={'k': 'a'})
    i1 = igt('i1', [ta, tb], md=[metadata([meta([mc]), meta(text='b')])])
    return corpus([i1, igt('i2', [])], id='c')


def lit(S, name):
    n = S.params.get('len', 1)
    if S.params.get('bare') and S.flag(name + '.bare'):
        s = S.str(name + '.word', 1, 2, 'ab1-')
        return (s, s)
    return S.str(name, 0, n, A)


R = lambda *steps: ('', [('/', s, []) for s in steps])
SUB = {
    '@k': R(('@', None, 'k')), '@type': R(('@', None, 'type')), 'text()': R(('f', 'text', [])), 'value()': R(('f', 'value', [])),
    '../@type': R(('..',), ('@', None, 'type')), 'item': R(('n', None, 'item')), 'item/@k': R(('n', None, 'item'), ('@', None, 'k')),
    'item/text()': R(('n', None, 'item'), ('f', 'text', [])), '*': R(('n', None, '*')), './@k': R(('.',), ('@', None, 'k')),
    '..': R(('..',)), 'x/y': R(('n', None, 'x'), ('n', None, 'y')), './/y/text()': ('', [('/', ('.',), []), ('//', ('n', None, 'y'), []), ('/', ('f', 'text', []), [])]),
    '@id': R(('@', None, 'id')), '/igt': ('/', [('/', ('n', None, 'igt'), [])]), 'x/text()': R(('n', None, 'x'), ('f', 'text', [])),
}


def pred(S, name):
    p = S.params
    sub = SUB[S.choice(name + '.sub', p['subs'])]
    if p.get('nested') and S.flag(name + '.nested'):
        inner = (R(('@', None, 'k')), S.choice(name + '.icmp', ['=', '!=']), lit(S, name + '.ilit')) if S.flag(name + '.cmpd') else (R(('f', 'text', [])), None)
        start, steps = sub
        steps = [(s, n, [inner] if i == 0 and n[0] == 'n' else []) for i, (s, n, ps) in enumerate(steps)]
        sub = (start, steps)
    cmp = S.choice(name + '.cmp', [None, '=', '!='] if not p.get('cmp') else p['cmp'])
    if cmp is None:
        return (sub, None)
    return (sub, cmp, lit(S, name + '.lit'))


def select(S):
    p = S.params
    doc = document(S)
    steps = [('/', ('n', None, x), []) for x in p['steps']]
    at = p.get('at', len(steps) - 1)
    preds = [pred(S, 'p%d' % i) for i in range(p.get('n', 1))]
    steps[at] = (steps[at][0], steps[at][1], preds)
    path = (p.get('start', '//'), steps)
    text = render(path)
    want = evaluate(doc, path)
    got = xp.findall(doc.obj, text)
    S.require(agree(got, want), 'results of a path with predicates')
    S.require(agree([xp.find(doc.obj, text)], [want[0] if want else None]), 'find gives the first result')
    S.observe(len(got))
    S.reach('some' if want else 'none')
    for q in preds:
        S.reach('exists' if q[1] is None else q[1])


def again(S):
    """a predicate evaluated anew after what it tests changed"""
    lit = S.str('lit', 1, 1, 'ab')
    cmp = S.choice('cmp', ['=', '!=', None])
    sub = S.choice('sub', ['text()', '@k', 'value()'])
    on = S.choice('on', ['item', 'tier'])
    values = [S.choice('v0', [None, 'a', 'b']), 'a', 'b']
    refs = sub == 'value()' and S.flag('reference')

    def holds(vs):
        vs = [v for v in vs if v is not None] if cmp is None else vs
        if cmp == '=':
            return any(v == lit for v in vs)
        return all(v != lit for v in vs) if cmp == '!=' else len(vs) > 0

    def set_(x, v):
        if sub == '@k':
            x.attributes.pop('k', None)
            if v is not None:
                x.attributes['k'] = v
        elif refs:
            src['s' + x.id].text = v if v is not None else ''
        else:
            x.text = v

    src = Tier(id='src', items=[Item(id='sx%d' % i) for i in range(3)])
    items = [Item(id='x%d' % i, attributes={'content': 'sx%d' % i} if refs else {}) for i in range(3)]
    tier = Tier(id='t', attributes={'content': 'src'} if refs else {}, items=items)
    igt = Igt(tiers=[tier, src])
    for x, v in zip(items, values):
        set_(x, v)
    test = '[' + ('item/' if on == 'tier' else '') + sub + ('' if cmp is None else cmp + '"' + lit + '"') + ']'
    path = on + test

    def check(when):
        vs = [v if v is not None or not refs else '' for v in values]
        if sub == '@k':
            vs = [[v] if v is not None else [] for v in vs]
        else:
            vs = [[v] for v in vs]
        if on == 'item':
            want = [x for x, v in zip(items, vs) if holds(v)]
            got = xp.findall(tier, path)
        else:
            want = [tier] if holds([x for v in vs for x in v]) else []
            got = [t for t in xp.findall(igt, path) if t is tier]
        S.require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'results of a predicate ' + when)
    check('at first')
    k = S.choice('which', [0, 2])
    values[k] = S.choice('new', [None, 'a', 'b'])
    set_(items[k], values[k])
    check('after a change')
    if S.flag('removed'):
        tier.remove(items[1])
        del items[1], values[1]
    else:
        new = Item(id='x3')
        tier.append(new)
        items.append(new)
        refs_, refs = refs, False
        set_(new, 'a')
        refs = refs_
        values.append('a')
    check('after a member came or went')
    S.reach('again')


def shapes(t):
    out = [
        dict(steps=['item'], subs=['@k', './@k', 'text()'], vary=['k', 'k2', 't1']),
        dict(steps=['item'], subs=['@k'], vary=['k'], len=2, cmp=['=']),
        dict(steps=['item'], subs=['value()', 'text()', '../@type', '..', '@id'], vary=['t2', 'ty']),
        dict(steps=['tier'], subs=['item', 'item/@k', 'item/text()', '@type', '*', '/igt'], vary=['ty', 't1']),
        dict(steps=['tier', 'item'], at=0, subs=['@type', 'item/@k', 'item'], vary=['ty', 'k'], nested=True),
        dict(steps=['item'], subs=['@k', 'text()'], n=2, vary=['t1'], cmp=['=', None]),
        dict(steps=['meta'], subs=['x/y', './/y/text()', 'x/text()', 'text()', '@type'], vary=['mt'], nested=True),
        dict(steps=['igt', 'tier'], at=0, subs=['*', 'item', '@id'], vary=['ty'], start='/'),
        dict(steps=['item'], subs=['@k', 'text()'], vary=['k'], bare=True, cmp=['=', '!=']),
    ]
    if t != 'quick':
        out += [
            dict(steps=['item'], subs=['@k', 'text()'], vary=['k', 't1'], len=3, cmp=['=']),
            dict(steps=['tier', 'item'], at=0, subs=list(SUB), vary=['ty', 't1'], nested=True),
            dict(steps=['tier'], subs=list(SUB), n=2, vary=['ty']),
            dict(steps=['meta', 'x'], subs=list(SUB), n=1, at=0, vary=['mt', 'k']),
        ]
    return out


HARNESSES = [('select', shapes, ['some', 'none', 'exists', '=', '!=']),
             ('again', lambda t: [{}], ['again'])]
