"""M09: sort_tiers is a stable depth-first ordering along references."""
from xigt import Igt, Tier, Item
from harness.common import raises, same

PROPERTY = 'M09'
BOUNDS = ('igts of up to 3 (quick) / 4 (thorough) tiers, every reference graph over them: each tier has no reference '
          'or up to two of the reference attributes, each naming any tier (itself and cycles included) or nothing '
          'that exists; one tier may lack an id; default and caller-given priority orders of reference attributes')
ASSUMES = ['a reference to a tier that does not exist places the tier as if it had none',
           'among tiers on a reference cycle any relative order is accepted']
RAS = ['segmentation', 'alignment', 'content']
_STEPS = 100000


def effective(i, attrs, order, names):
    """(index of the tier that positions tier i, rank of the attribute) or None"""
    for rank in range(len(order)):
        if order[rank] in attrs:
            v = attrs[order[rank]]
            for j in range(len(names)):
                if names[j] is not None and names[j] == v:
                    return (j, rank)
            return None
    return None


def on_cycle(i, par):
    j, k = i, 0
    while k <= len(par):
        if par[j] is None:
            return False
        j = par[j][0]
        if j == i:
            return True
        k += 1
    return False


def root_path(i, par):
    """positions from the root down to i; only for tiers not leading into a cycle"""
    path = []
    while True:
        if i in path:
            return None
        path.insert(0, i)
        if par[i] is None:
            return path
        i = par[i][0]


def sort(S):
    n = S.params['n']
    noid = S.choice('noid', [None] + list(range(n))) if S.params['noid'] else None
    names = [None if i == noid else 't%d' % i for i in range(n)]
    targets = ['t%d' % i for i in range(n)] + S.params.get('dead', ['gone'])
    order = {'default': RAS, 'reversed': ['content', 'alignment', 'segmentation'],
             'subset': ['alignment', 'content'], 'none': []}[S.params['order']]
    tiers, attrs = [], []
    for i in range(n):
        a = {}
        which = S.choice('ras%d' % i, S.params['ras'])
        for ra in which:
            a[ra] = S.choice('%s%d' % (ra, i), targets)
        attrs.append(a)
        tiers.append(Tier(id=names[i], items=[Item(id='i%d' % i)], attributes=a))
    igt = Igt(tiers=tiers)
    par = [effective(i, attrs[i], order, names) for i in range(n)]
    if S.params['order'] == 'default':
        igt.sort_tiers()
    else:
        igt.sort_tiers(refattrs=tuple(order))
    got = list(igt)
    pos = []
    for t in tiers:
        where = [k for k in range(len(got)) if got[k] is t]
        S.require(len(where) == 1, 'each tier occurs once')
        pos.append(where[0])
    S.require(len(got) == n, 'no tier is added')
    cyc = [on_cycle(i, par) for i in range(n)]
    for i in range(n):
        S.require(names[i] is None or igt[names[i]] is tiers[i], 'lookup by id')
        S.require(tiers[i].attributes == attrs[i] and tiers[i].igt is igt and len(tiers[i]) == 1, 'sorting changed a tier')
        if par[i] is not None and not cyc[i]:
            S.require(pos[par[i][0]] < pos[i], 'a tier precedes the tiers that refer to it')
        if cyc[i]:
            S.reach('cycle')
    paths = [root_path(i, par) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j or paths[i] is None or paths[j] is None:
                continue
            # siblings under the same tier (or both unreferring): by rank, then former position
            if paths[i][:-1] == paths[j][:-1]:
                ri = (par[i][1] if par[i] else 0, i)
                rj = (par[j][1] if par[j] else 0, j)
                if ri < rj:
                    S.require(pos[i] < pos[j], 'siblings by attribute priority, then by former order')
                    S.reach('siblings')
            # everything below i is placed directly after i
            if i in paths[j]:
                for k in range(n):
                    if pos[i] < pos[k] and pos[k] < pos[j]:
                        S.require(paths[k] is not None and i in paths[k], 'the tiers below a tier follow it directly')
                S.reach('below')
    if not any(cyc):
        igt.sort_tiers(refattrs=tuple(order))
        S.require(same(igt, got), 'sorting twice changes nothing more')
        S.reach('sorted')
    S.observe([t.id for t in got])


def shapes(t):
    one = [[], ['segmentation'], ['alignment'], ['content']]
    two = [[], ['segmentation', 'alignment'], ['alignment', 'content']]
    out = []
    for o in ('default', 'reversed', 'subset', 'none'):
        out.append(dict(n=3, ras=[[], ['alignment'], ['segmentation']], order=o, noid=False, _steps=_STEPS))
    out.append(dict(n=2, ras=one + two[1:], order='default', noid=True, _steps=_STEPS))
    out.append(dict(n=2, ras=two, order='subset', noid=True, _steps=_STEPS))
    out.append(dict(n=3, ras=[[], ['alignment']], order='default', noid=True, _steps=_STEPS))
    out.append(dict(n=2, ras=two + one[1:2], order='default', noid=False, dead=['gone', ''], _steps=_STEPS))
    out.append(dict(n=4, ras=[[], ['alignment']], order='default', noid=False, _steps=_STEPS))
    if t != 'quick':
        out.append(dict(n=4, ras=[[], ['alignment'], ['segmentation']], order='default', noid=False, _steps=_STEPS, _replay=5))
        out.append(dict(n=3, ras=one + two[1:], order='default', noid=True, _steps=_STEPS, _replay=5))
    return out


HARNESSES = [('sort', shapes, ['sorted', 'siblings', 'below', 'cycle'])]
