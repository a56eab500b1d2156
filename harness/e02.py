"""E02: the columns of interlinear examples."""
from xigt import Igt, Tier, Item
from xigt.exporters import latex

PROPERTY = 'E02'
BOUNDS = ('two to three tiers of up to 3 items (thorough: 4), each item aligned to any set of items of any of the tiers above (in any order, '
          'crossing, several to one, one to several), to no item, or to items that do not exist; items with and without ids; an example after one with the same ids')
ASSUMES = ['ids of items are unique in an igt']


def build(S):
    p = S.params
    tiers, refs = [], []
    above = []
    for t, n in enumerate(p['sizes']):
        items, rs, mine = [], [], []
        for i in range(n):
            x = 'i%d%d' % (t, i)
            if t == 0:
                r = None
            else:
                opts = [None] + list(p['opts'][t - 1])
                r = S.choice('r%d%d' % (t, i), opts)
            ra = p.get('ra', 'alignment')
            noid = p.get('noid') and i == n - 1 and t == len(p['sizes']) - 1
            it = Item(id=None if noid else x, text='x', attributes={} if r is None else {ra: r})
            items.append(it)
            rs.append([] if r is None else [z for z in r.replace('+', ' ').replace(',', ' ').split()])
        tiers.append(Tier(id=None if p.get('noid') else 't%d' % t, type='words', items=items))
        refs.append(rs)
    igt = Igt(id='g', tiers=tiers)
    return igt, tiers, refs


def columns(S):
    igt, tiers, refs = build(S)
    if S.params.get('before'):
        # another IGT with the same ids comes first
        other = [Tier(id=t.id, type='words', items=[Item(id=x.id, text='y', attributes={} if n == 0 else {'alignment': 'i0%d' % (len(tiers[0]) - 1 - k)}) for k, x in enumerate(t)]) for n, t in enumerate(tiers)]
        latex.export_igt(Igt(id='g', tiers=other), latex.prepare_config(None))
    cols = latex.group_alignments(list(tiers))
    place = {}
    for c, col in enumerate(cols):
        S.require(len(col) == len(tiers), 'every column has a row for each tier')
        for r, row in enumerate(col):
            for it in row:
                S.require(r < len(tiers), 'no rows beyond the tiers')
                k = [(t, i) for t, tier in enumerate(tiers) for i, x in enumerate(tier) if x is it]
                S.require(len(k) == 1 and k[0][0] == r, 'items are in the row of their tier')
                S.require(k[0] not in place, 'no item is in two columns')
                place[k[0]] = c
    nodes = [(t, i) for t, tier in enumerate(tiers) for i in range(len(tier))]
    for k in nodes:
        S.require(k in place, 'no item is left out')
    ids = {tiers[t][i].id: (t, i) for t, i in nodes}
    # what has to be together
    comp = {k: k for k in nodes}

    def root(k):
        while comp[k] != k:
            k = comp[k]
        return k
    gaps = False
    prev, since = -1, False
    mono = True
    for t, i in nodes:
        targets = [ids[z] for z in refs[t][i] if z in ids and ids[z][0] < t]
        for z in targets:
            S.require(place[t, i] == place[z], 'items are in the column of what they are aligned to')
            comp[root((t, i))] = root(z)
            S.reach('aligned')
        if t > 0 and not targets:
            S.reach('loose')
        if i > 0 and t > 0 and refs[t][i] == refs[t][i - 1]:
            comp[root((t, i))] = root((t, i - 1))
        if i == 0:
            prev, since = -1, False
        if t > 0:
            pos = [z[1] for z in targets]
            at = [place[z] for z in targets]
            if not pos:
                since = True    # (stands before or after the next one that is aligned)
            elif min(at) < prev or (since and min(at) == prev):
                mono = False
            else:
                prev, since = max(at), False
            if pos and (max(pos) - min(pos) >= len(set(pos)) or len(set([z[0] for z in targets])) > 1):
                gaps = True
    for i in range(1, len(tiers[0])):
        S.require(place[0, i - 1] <= place[0, i], 'the first row keeps its order')
    several = any((len(set(z for z in r if z in ids)) > 1 for rs in refs for r in rs))
    loose = any((not [z for z in r if z in ids] for rs in refs[1:] for r in rs))
    # (an unaligned item may stand in a range of columns that another one joins)
    if len(tiers) == 2 and not gaps and not (several and loose):
        for a in nodes:
            for b in nodes:
                if root(a) != root(b):
                    S.require(place[a] != place[b], 'items that are not aligned are in different columns')
        S.reach('apart')
    if mono:
        for t, i in nodes:
            if i > 0:
                S.require(place[t, i - 1] <= place[t, i], 'rows keep their order')
        S.reach('ordered')
    # the rows of an example
    if not S.params.get('noid'):
        out = latex.export_igt(igt, latex.prepare_config(None))
        lines = out.split('\n')[2:2 + len(tiers)]
        for r, line in enumerate(lines):
            S.require(line == ' '.join(['{' + ' '.join(['x' for x in col[r]]) + '}' for col in cols]) + '\\\\', 'the rows of the example')


A2 = ['i00', 'i01', 'i00 i01', 'i01,i00', 'i09', 'i08']
A3 = ['i00', 'i01', 'i02', 'i00,i01', 'i02+i01', 'i00 i02', 'i09 i01']
C4 = ['i03', 'i00,i01', 'i02+i01', 'i03 i01', 'i00']
C3 = ['i02', 'i00,i01', 'i01']
B2 = ['i10', 'i11', 'i10 i11', 'i00', 'i01', 'i11,i01']


def shapes(t):
    out = [dict(sizes=[2, 2], opts=[A2]), dict(sizes=[3, 3], opts=[A3]), dict(sizes=[2, 2, 2], opts=[A2[:4], B2]),
           dict(sizes=[3, 2], opts=[A3], ra='segmentation'), dict(sizes=[1, 3], opts=[['i00', 'i09', 'i08']]), dict(sizes=[2, 0, 2], opts=[[], ['i00', 'i01', 'i00 i01']]),
           dict(sizes=[2, 2], opts=[A2], noid=True), dict(sizes=[2, 2], opts=[A2], before=True), dict(sizes=[4, 3], opts=[C4]), dict(sizes=[3, 4], opts=[C3]), dict(sizes=[3, 3, 1], opts=[C3, ['i10', 'i12', 'i11 i12']])]
    if t != 'quick':
        out += [dict(sizes=[3, 4], opts=[A3]), dict(sizes=[2, 2, 3], opts=[A2, B2]), dict(sizes=[2, 2, 2, 1], opts=[A2[:4], B2, ['i20', 'i21', 'i00', 'i11', 'i21 i10']])]
    return out


HARNESSES = [('columns', shapes, ['aligned', 'loose', 'apart', 'ordered'])]
