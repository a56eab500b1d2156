"""M07: metadata sequences and the get_meta lookup."""
from xigt import XigtCorpus, Igt, Tier, Metadata, Meta, MetaChild
from xigt.errors import XigtError
from harness.common import raises, same

PROPERTY = 'M07'
BOUNDS = ('a corpus holding an igt holding a tier, each with up to two metadata of one or two metas; metadata '
          'types, meta types and meta texts vary (two levels at a time in quick, three in thorough); zero to two conditions; '
          'inherit on/off; default given or not; typed or untyped metas asked for; lookup from each level; assignment of metadata sequences; the same question before and after the metadata changes')
ASSUMES = []


def level(S, name, rich, texts):
    """two metadata with two and one metas (rich), or one metadata with one meta"""
    mds = []
    for i in range(S.choice(name + '.n', [1, 2] if rich else [0, 1])):
        if rich:
            mtype = S.choice('%s.md%d.type' % (name, i), ['xigt-meta', 'other', None] if i == 0 else ['xigt-meta', None])
        else:
            mtype = 'xigt-meta'
        metas = []
        for j in range(2 if rich and i == 0 else 1):
            if rich:
                t = S.str('%s.m%d%d.type' % (name, i, j), 1, 1, 'ab') if S.flag('%s.m%d%d.typed' % (name, i, j)) else None
            else:
                t = 'a'
            x = S.choice('%s.m%d%d.text' % (name, i, j), [None, 'x']) if texts and j == 0 else 'y'
            metas.append(Meta(type=t, text=x))
        mds.append(Metadata(type=mtype, metas=metas))
    return mds


def get_meta(S):
    names = S.params['levels']
    rich = S.params['rich']
    mds = {'corpus': [], 'igt': [], 'tier': []}
    for n in names:
        mds[n] = level(S, n, n == rich, S.params['conds'])
    c = XigtCorpus(metadata=mds['corpus'])
    g = Igt(metadata=mds['igt'])
    t = Tier(metadata=mds['tier'])
    attached = 'corpus' not in names or S.flag('attached')
    if attached:
        c.append(g)
    g.append(t)
    start = S.params['start']
    obj = {'corpus': c, 'igt': g, 'tier': t}[start]
    order = {'tier': ['tier', 'igt', 'corpus'], 'igt': ['igt', 'corpus'], 'corpus': ['corpus']}[start]
    if not attached and start != 'corpus':
        order = order[:-1]
    kw = {}
    conds = [[], [lambda m: m.text is not None], [lambda m: m.text is not None, lambda m: m.text == 'x']][
        S.params['conds']]
    if conds:
        kw['conditions'] = conds
    inherit = S.flag('inherit')
    if not inherit:
        kw['inherit'] = False
    if S.params['conds'] == 0 and S.flag('dflt'):
        kw['default'] = 'none found'
    want = None
    for n in order:
        hits = []
        for md in mds[n]:
            if md.type == 'xigt-meta':
                for m in list.__iter__(md):
                    ok = m.type == S.params.get('key', 'a')
                    for f in conds:
                        ok = ok and f(m)
                    if ok:
                        hits.append(m)
        if hits:
            want = hits
            S.reach('hit ' + n)
            break
        if not inherit:
            break
    got = obj.get_meta(S.params.get('key', 'a'), **kw)
    if want is None:
        S.require(got == kw.get('default'), 'default when nothing is found')
        S.reach('default')
    else:
        S.require(same(got, want), 'metas found')
    S.observe(got is None)


def again(S):
    """every question is answered from the metadata as they are"""
    g, h = Igt(), Igt()
    c = XigtCorpus(igts=[g])
    g.metadata.append(Metadata(type='xigt-meta', metas=[Meta(type='a', text='1'), Meta(type='b', text='2')]))
    k1, k2 = S.choice('k1', ['a', 'b', 'c']), S.choice('k2', ['a', 'b', 'c'])
    o1, o2 = S.choice('o1', [g, h, c]), S.choice('o2', [g, h, c])
    conds = [lambda m: m.text == '1'] if S.flag('conditions') else None

    def check(o, k, conds, when):
        want = [m for m in (list(g.metadata[0]) if o is g and len(g.metadata) else []) if m.type == k and (conds is None or m.text == '1')]
        if not want and o in (g, c) and o is not h:
            want = [m for md in c.metadata for m in md if m.type == k and (conds is None or m.text == '1')]
        got = o.get_meta(k, conditions=conds)
        if not want:
            S.require(got is None, 'nothing is there ' + when)
        else:
            S.require(got is not None and same(got, want), 'metas found ' + when)
            got.append(None)
    check(o1, k1, conds, 'at first')
    check(o2, k2, None, 'after another question')
    op = S.choice('op', ['type', 'drop', 'corpus'])
    if op == 'type':
        g.metadata[0][0].type = 'c'
    elif op == 'drop':
        g.metadata = []
    else:
        c.metadata.append(Metadata(type='xigt-meta', metas=[Meta(type='c', text='1')]))
    check(o2, k2, None, 'after a change')
    check(o1, k1, conds, 'after a change')
    S.reach(op)


def assign(S):
    """assigning the metadata sequence"""
    kind = S.params['kind']
    o = {'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier}[kind](metadata=[Metadata(id='old')])
    S.require(o.metadata['old']._parent is o, 'owner')
    new = [Metadata(id=S.str('id%d' % i, 1, 1, 'ab') if S.flag('has%d' % i) else None) for i in range(S.choice('n', [0, 1, 2]))]
    ids = [m.id for m in new if m.id is not None]
    dup = len(ids) == 2 and ids[0] == ids[1]
    seq = iter(new) if S.flag('iterator') else new

    def f():
        o.metadata = seq
    ex = raises(f, XigtError)
    S.require((ex is not None) == dup, 'duplicate ids are refused, others accepted')
    if not dup:
        S.require(same(o.metadata, new), 'assigned sequence')
        for m in new:
            S.require(m._parent is o, 'owner of assigned metadata')
            if m.id is not None:
                S.require(o.metadata[m.id] is m, 'lookup by id')
        S.require(o.metadata.get('old') is None, 'the old metadata is gone')
        S.reach('assigned')

    def g():
        o.metadata = Metadata()
    keep = list(o.metadata)
    S.require(raises(g, XigtError) is not None, 'a single metadata object is refused')
    S.require(same(o.metadata, keep), 'metadata after a refused assignment')
    md = o.metadata
    if not dup and len(keep) and keep[0].id is None:
        md[0] = Metadata(id='n')
        S.require(o.metadata['n'] is md[0] and md[0]._parent is o, 'metadata replaced by position')
        S.reach('replaced')


def shapes(t):
    out = []
    pairs = [('corpus', 'igt'), ('igt', 'tier'), ('corpus', 'tier')]
    for ls in pairs if t == 'quick' else pairs + [('corpus', 'igt', 'tier')]:
        for rich in ls:
            for start in ('corpus', 'igt', 'tier'):
                if start in ls:
                    for conds in ((0, 2) if t == 'quick' else (0, 1, 2)):
                        out.append(dict(levels=list(ls), rich=rich, start=start, conds=conds))
    out.append(dict(levels=['igt', 'tier'], rich='tier', start='tier', conds=0, key=None))
    return out


HARNESSES = [('get_meta', shapes, ['hit corpus', 'hit igt', 'hit tier', 'default']),
             ('again', lambda t: [{}], ['type', 'drop', 'corpus']),
             ('assign', lambda t: [dict(kind=k) for k in ('corpus', 'igt', 'tier')], ['assigned', 'replaced'])]
