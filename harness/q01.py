"""Q01: ancestors follow references upwards, step by step, and stop."""
from xigt import Igt, Tier, Item
from xigt.query import ancestors
from harness.common import same

PROPERTY = 'Q01'
BOUNDS = ('every reference graph over three (thorough: four) tiers in which each tier refers to at most one tier by each of one or two '
          'attributes (cycles and self-references included), with one or two items per tier, each referring to any '
          'set of items of the referred tier or to others; start at any tier or item; three attribute priority orders')
ASSUMES = ['referred tiers exist']
_STEPS = 60000
ITEMS = [['a1', 'a12'], ['ba1'], ['ba12'], ['a1b']]  # ids that occur in each other


def build(S):
    p = S.params
    n = p['tiers']
    tids = ['t', 'ti', 'xti', 'x'][:n]
    model, tiers = [], []
    for i in range(n):
        attrs = {}
        for ra in p['ras']:
            if p.get('chain'):
                if i + 1 < n or S.flag('loop'):
                    attrs[ra] = tids[i + 1] if i + 1 < n else S.choice('back', tids)
            elif S.flag('%s.%s' % (tids[i], ra)):
                attrs[ra] = S.choice('%s.%s.to' % (tids[i], ra), tids)
        items = []
        for x in ITEMS[i]:
            iattrs, links = {}, {}
            for ra in attrs:
                to = ITEMS[tids.index(attrs[ra])]
                opts = [[], to] if p.get('links') and ra == p['ras'][-1] else [to]
                if len(to) > 1 and len(opts) > 1:
                    opts.append(to[:1])
                xs = S.choice('%s.%s' % (x, ra), opts)
                if xs:
                    iattrs[ra] = xs[0] + '[0:1]' if len(xs) == 1 else ','.join(xs)
                links[ra] = list(xs)
            items.append((x, links, Item(id=x, attributes=iattrs)))
        t = Tier(id=tids[i], attributes=attrs, items=[o for x, l, o in items])
        tiers.append(t)
        model.append((attrs, items))
    igt = Igt(tiers=tiers)
    return igt, tids, tiers, model


def up(S):
    igt, tids, tiers, model = build(S)
    p = S.params
    refattrs = p['order']
    s = S.choice('start', list(range(len(tids))))
    if S.flag('from.item'):
        k = S.choice('item', list(range(len(ITEMS[s]))))
        obj = tiers[s][k]
        carried = [model[s][1][k]]
    else:
        obj = tiers[s]
        carried = model[s][1]
    gen = ancestors(obj) if p['default'] else ancestors(obj, refattrs=refattrs)
    got = []
    for x in gen:
        got.append(x)
        if len(got) > 2 * len(tids):
            break
    S.require(len(got) <= len(tids), 'no tier is left more than once')
    here, seen = s, [s]
    for (t, ra, r, items) in got:
        attrs = model[here][0]
        want = [x for x in refattrs if x in attrs]
        S.require(t is tiers[here], 'a step starts at the tier reached')
        S.require(len(want) > 0, 'a step without reference')
        S.require(ra == want[0], 'the first reference attribute present is followed')
        to = tids.index(attrs[want[0]])
        S.require(r is tiers[to], 'the referred tier')
        linked = []
        for x, links, o in carried:
            linked += links[want[0]]
        exp = [m for m in model[to][1] if m[0] in linked]
        S.require(same(items, [m[2] for m in exp]), 'the referred items in tier order')
        if to in seen:
            S.require(len(got) > 0 and got[-1] == (t, ra, r, items), 'stops at a tier met before')
            S.reach('cycle')
            here = None
        else:
            seen.append(to)
            here = to
        carried = exp
        S.reach('step')
    if here is not None:
        S.require(not any(x in model[here][0] for x in refattrs), 'the climb ends only at a tier without reference or met before')
        S.reach('top')
    S.observe(len(got))


def shapes(t):
    A, G = 'alignment', 'segmentation'
    out = [dict(tiers=3, ras=[G], order=[A, G], default=True, links=True, chain=True, _steps=_STEPS),
           dict(tiers=3, ras=[A], order=[A, G], default=True, _steps=_STEPS),
           dict(tiers=2, ras=[A, G], order=[A, G], default=True, _steps=_STEPS),
           dict(tiers=2, ras=[A, G], order=[G, A], default=False, links=True, _steps=_STEPS),
           dict(tiers=2, ras=['content', A], order=['content'], default=False, links=True, _steps=_STEPS)]
    if t != 'quick':
        out += [dict(tiers=3, ras=[G], order=[A, G], default=True, links=True, _steps=_STEPS),
                dict(tiers=3, ras=[A, G], order=[A, G], default=True, _steps=_STEPS),
                dict(tiers=4, ras=[A], order=[A, G], default=True, _steps=_STEPS),
                dict(tiers=4, ras=[A], order=[G, A], default=False, links=True, _steps=_STEPS, _replay=3),
                dict(tiers=3, ras=[A, G], order=[G, A], default=False, links=True, _steps=_STEPS, _replay=3)]
    return out


HARNESSES = [('up', shapes, ['step', 'cycle', 'top'])]
