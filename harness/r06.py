"""R06: dereferencing gives the objects that references name."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, ref
from xigt.errors import XigtLookupError
from harness.common import raises, same

PROPERTY = 'R06'
BOUNDS = ('tiers and items of an igt of three tiers (one without items) and three items, with an arbitrary reference attribute holding up to three ids out of '
          'those present and missing ones, whole or with a range, any delimiters; missing attribute; before and after the referenced objects or the reference change; objects of other kinds')
ASSUMES = ['dereference of an expression without any id is outside']


def deref(S):
    i1, i2, i3 = Item(id='i1', text='x'), Item(id='i2', text='y'), Item(id='i3', text='x')
    ta, tb = Tier(id='ta', items=[i1, i2]), Tier(id='tb', items=[i3])
    te = Tier(id='te')
    igt = Igt(tiers=[ta, te, tb])
    objs = {'i1': i1, 'i2': i2, 'i3': i3, 'ta': ta, 'tb': tb, 'te': te, 'gone': None}
    ra = S.choice('ra', ['alignment', 'content', 'segmentation', 'children'])
    src = S.choice('src', ['ta', 'i1', 'i3'])
    o = objs[src]
    n = S.params['n']
    text, want = S.choice('lead', ['', ' ']), []
    for k in range(n):
        x = S.choice('id%d' % k, ['i1', 'i2', 'i3', 'ta', 'tb', 'te', 'gone'])
        if k:
            text += S.str('sep%d' % k, 1, 1, ' ,+')
        text += x + S.choice('rng%d' % k, ['', '[0:1]', '[0:1,2:3]'] if k == 0 else ['', '[2:1]'])
        want.append(objs[x])
    o.attributes[ra] = text
    got = ref.dereference_all(o, ra)
    S.require(same(got, want), 'all referenced objects in order')
    if n:
        S.require(ref.dereference(o, ra) is want[0], 'the first referenced object')
    S.require(raises(lambda: ref.dereference(o, 'absent'), KeyError) is not None, 'a missing reference attribute')
    S.require(raises(lambda: ref.dereference_all(o, 'absent'), KeyError) is not None, 'a missing reference attribute')
    S.reach('n%d' % n)


def others(S):
    o = S.choice('o', ['corpus', 'igt', 'metadata'])
    o = {'corpus': XigtCorpus, 'igt': Igt, 'metadata': Metadata}[o](attributes={'alignment': 'a'})
    S.require(raises(lambda: ref.dereference(o, 'alignment'), XigtLookupError) is not None, 'only tiers and items refer')
    S.require(raises(lambda: ref.dereference_all(o, 'alignment'), XigtLookupError) is not None, 'only tiers and items refer')
    S.reach('others')


def changed(S):
    """references are followed in the igt as it is"""
    igt = Igt(tiers=[Tier(id='ta', items=[Item(id='i1', text='x'), Item(id='i2', text='y')]), Tier(id='tb', items=[Item(id='j1')])])
    o = S.choice('src', [igt['tb'], igt['tb'][0]])
    kind = S.choice('kind', ['tier', 'item'])
    o.attributes['alignment'] = 'ta' if kind == 'tier' else 'i1'
    if S.flag('before'):
        S.require(ref.dereference(o, 'alignment') is igt.get_any('ta' if kind == 'tier' else 'i1'), 'the referenced object')
        got = ref.dereference_all(o, 'alignment')
        S.require(len(got) == 1, 'the referenced objects')
        got.append(None)
    op = S.choice('op', ['replace', 'remove', 'reference', 'rename', 'none'])
    if op == 'replace':
        if kind == 'tier':
            igt[0] = Tier(id='ta', type='new')
        else:
            igt[0][0] = Item(id='i1', text='new')
    elif op == 'remove':
        if kind == 'tier':
            igt.remove(igt['ta'])
        else:
            igt[0].remove(igt[0]['i1'])
    elif op == 'reference':
        o.attributes['alignment'] = S.choice('to', ['i2', 'tb', 'gone'])
    elif op == 'rename':
        (igt[0] if kind == 'tier' else igt[0][0]).id = S.choice('id', ['i3', 'ta', 'i1'] if kind == 'item' else ['tc', 'ta'])
    if op in ('replace', 'remove', 'rename'):
        S.assume(op != 'rename' or igt[0].id != 'i1')
        igt.refresh_indices(tiers=True)
    wanted = o.attributes['alignment']
    want = [x for t in list.__iter__(igt) for x in [t] + list(list.__iter__(t)) if x.id == wanted]
    S.assume(len(want) < 2)
    want = want[0] if want else None
    S.require(ref.dereference(o, 'alignment') is want, 'the referenced object after a change')
    S.require(same(ref.dereference_all(o, 'alignment'), [want]), 'the referenced objects after a change')
    S.reach(op)


HARNESSES = [('deref', lambda t: [dict(n=n) for n in ((0, 1, 2) if t == 'quick' else (1, 2, 3))], ['n1', 'n2']),
             ('others', lambda t: [{}], ['others']),
             ('changed', lambda t: [{}], ['replace', 'remove', 'reference', 'rename', 'none'])]
