"""Q02: descendants follow references downwards, breadth first, and stop."""
from xigt import Igt, Tier, Item
from xigt.query import descendants
from harness.common import same
from harness.q01 import build, ITEMS

PROPERTY = 'Q02'
BOUNDS = ('every reference graph over two or three (thorough: four) tiers in which each tier refers to at most one tier by each of one '
          'or two attributes (cycles and self-references included), one or two items per tier, referring to any set of '
          'items of the referred tier; start at any tier or item; following the first or all reference attributes, '
          'two priority orders')
ASSUMES = ['tiers and the items followed have ids', 'a pair of tier and reference attribute that is reached again is not followed again']
_STEPS = 120000


def down(S):
    igt, tids, tiers, model = build(S)
    p = S.params
    refattrs = p['order']
    follow = p['follow']
    s = S.choice('start', list(range(len(tids))))
    if S.flag('from.item'):
        k = S.choice('item', list(range(len(ITEMS[s]))))
        obj, ids = tiers[s][k], [ITEMS[s][k]]
    else:
        obj, ids = tiers[s], list(ITEMS[s])
    kw = {} if p['default'] else {'refattrs': refattrs}
    gen = descendants(obj, **kw) if follow == 'first' and p['default'] else descendants(obj, follow=follow, **kw)
    got = []
    for x in gen:
        got.append(x)
        if len(got) > len(tids) * len(tids) * len(refattrs):
            break
    # breadth-first oracle over the model
    want, seen, agenda = [], [], [(s, ids)]
    while agenda:
        t, ids = agenda.pop(0)
        some = [ra for ra in refattrs if any(m[0].get(ra) == tids[t] for m in model)]
        if follow == 'first':
            some = some[:1]
        for ra in some:
            if (t, ra) in seen:
                S.reach('again')
                continue
            seen.append((t, ra))
            for j in range(len(tids)):
                if model[j][0].get(ra) == tids[t]:
                    hits = [(x, o) for x, links, o in model[j][1] if any(i in links[ra] for i in ids)]
                    want.append((t, ra, j, [o for x, o in hits]))
                    agenda.append((j, [x for x, o in hits]))
    S.require(len(got) == len(want), 'number of steps')
    for (t, ra, r, items), (wt, wra, wr, wi) in zip(got, want):
        S.require(t is tiers[wt] and ra == wra and r is tiers[wr], 'step')
        S.require(same(items, wi), 'the items that refer to those carried along')
        S.reach('step')
    if not want:
        S.reach('none')
    S.observe(len(got))


def shapes(t):
    A, G = 'alignment', 'segmentation'
    out = [dict(tiers=3, ras=[G], order=[G, A], default=True, links=True, chain=True, follow='first', _steps=_STEPS),
           dict(tiers=3, ras=[A], order=[G, A], default=True, follow='first', _steps=_STEPS),
           dict(tiers=2, ras=[A, G], order=[G, A], default=True, follow='all', links=True, _steps=_STEPS),
           dict(tiers=2, ras=[A, G], order=[A, G], default=False, follow='first', _steps=_STEPS),
           dict(tiers=2, ras=[A, 'content'], order=['content', A], default=False, follow='all', _steps=_STEPS)]
    out.append(dict(tiers=2, ras=[A, G, 'content'], order=['content', A, G], default=False, follow='all', _steps=_STEPS))
    if t != 'quick':
        out += [dict(tiers=3, ras=[A, G], order=[G, A], default=True, follow='first', _steps=_STEPS),
                dict(tiers=3, ras=[A, G], order=[G, A], default=True, follow='all', _steps=_STEPS),
                dict(tiers=4, ras=[A], order=[A, G], default=False, follow='first', _steps=_STEPS),
                dict(tiers=3, ras=[A], order=[A], default=False, follow='first', links=True, _steps=_STEPS)]
    return out


HARNESSES = [('down', shapes, ['step', 'none', 'again'])]
