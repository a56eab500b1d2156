"""M01: containers keep order, id index and ownership coherent."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.errors import XigtError
from harness.common import same, raises

PROPERTY = 'M01'
BOUNDS = ('seven container kinds; an arbitrary valid state of 0..2 members (0..3 for tiers, and everywhere in thorough), each with an '
          'arbitrary one-letter id or none; then 1 (quick; 2 for a tier of one, an edit that takes away or replaces and another) / 2 (thorough) arbitrary edits out '
          'of append, insert, extend (or +=), remove, pop, delete by position, delete by id, replace by '
          'position, clear, assign (nothing, fewer, reversed, other members, the container itself, a generator over it), re-index, change of an id with re-index, with arbitrary positions up to one past either end and arbitrary objects '
          '(members or one of two new ones); adding a member once more in any way; and histories of 1-3 / 4 attachments (the last in any way) of 2 items, 2 tiers, an IGT to 2 tiers, IGTs, corpora')
ASSUMES = ['ids are changed only together with a re-index', 'edits that the container must reject are '
           'decided by M02', 'slice edits, *= and copies are outside']

KINDS = {
    'tier': (lambda ms: Tier(id='box', items=ms), Item, lambda o, c: o.tier is c,
             lambda c: c.items, lambda c, ms: setattr(c, 'items', ms)),
    'igt': (lambda ms: Igt(id='box', tiers=ms), Tier, lambda o, c: o.igt is c,
            lambda c: c.tiers, lambda c, ms: setattr(c, 'tiers', ms)),
    'corpus': (lambda ms: XigtCorpus(id='box', igts=ms), Igt, lambda o, c: o.corpus is c,
               lambda c: c.igts, lambda c, ms: setattr(c, 'igts', ms)),
    'metadata': (lambda ms: Metadata(id='box', metas=ms, nsmap={'own': 'box'}), Meta, lambda o, c: o.nsmap == c.nsmap,
                 lambda c: c.metas, lambda c, ms: setattr(c, 'metas', ms)),
    'meta': (lambda ms: Meta(id='box', children=ms, nsmap={'own': 'box'}), MetaChild, lambda o, c: o.nsmap == c.nsmap,
             lambda c: c.children, lambda c, ms: setattr(c, 'children', ms)),
    'md': (lambda ms: Igt(id='box', metadata=ms, nsmap={'own': 'box'}).metadata, Metadata, lambda o, c: o.nsmap == {'own': 'box'},
           lambda c: c, lambda c, ms: setattr(c._container, 'metadata', ms)),
    'child': (lambda ms: MetaChild('box', children=ms, nsmap={'own': 'box'}), MetaChild, lambda o, c: o.nsmap == c.nsmap,
              lambda c: c.children, lambda c, ms: setattr(c, 'children', ms)),
}


def member(S, kind, name, alpha='abc'):
    cls = KINDS[kind][1]
    if cls is MetaChild:
        return cls('x')
    if S.flag(name + '.hasid'):
        return cls(id=S.str(name + '.id', 1, 1, alpha))
    return cls()


def coherent(S, kind, c, want, when):
    owner = KINDS[kind][2]
    S.require(same(c, want), 'members differ from the edits made ' + when)
    S.require(len(c) == len(want), 'length ' + when)
    S.require(same(KINDS[kind][3](c), want), 'member list property ' + when)
    for i in range(len(want)):
        S.require(c[i] is want[i], 'position %d %s' % (i, when))
        S.require(c[i - len(want)] is want[i], 'position %d %s' % (i - len(want), when))
        S.require(c.get(i) is want[i], 'get(position) ' + when)
        S.require(c[str(i)] is want[i], 'position as a string ' + when)
        S.require(owner(want[i], c), 'a member does not know its container ' + when)
        if want[i].id is not None:
            S.require(c.get(want[i].id) is want[i], 'lookup by id ' + when)
            S.require(c[want[i].id] is want[i], 'index by id ' + when)
    for a, b in ((None, None), (1, None), (-1, None), (None, -1), (0, 2)):
        S.require(same(c[a:b], want[a:b]), 'slice ' + when)
    S.require(c.get(len(want)) is None, 'position past the end ' + when)
    q = S.str('q', 1, 1, 'abc' if S.params.get('brief') else 'abcd')
    for m in want:
        if m.id is not None and m.id == q:
            break
    else:
        S.require(c.get(q) is None, 'an id that is not a member is found ' + when)
        S.require(raises(lambda: c[q], KeyError) is not None,
                  'an id that is not a member does not raise KeyError ' + when)


def clash(want, obj, ignore=None):
    if obj.id is None:
        return False
    for m in want:
        if m is not ignore and m.id is not None and m.id == obj.id:
            return True
    return False


def ident(xs, obj):
    for i in range(len(xs)):
        if xs[i] is obj:
            return i
    return -1


def edit(S, kind, c, want, pool, n):
    """one arbitrary accepted edit; returns the expected members"""
    ops = ['append', 'insert', 'remove', 'delpos', 'delid',
           'replace', 'clear', 'assign', 'extend', 'refresh', 'rename', 'pop']
    if S.params.get('brief'):
        ops = ops[2:8] + ops[-2:] if n == 0 else ['append', 'extend', 'remove', 'delid', 'replace', 'pop', 'refresh']
    op = S.choice('op%d' % n, ops)
    if op == 'append':
        o = S.choice('obj%d' % n, pool)
        S.assume(not clash(want, o))
        S.assume(ident(want, o) < 0)
        c.append(o)
        want = want + [o]
    elif op == 'insert':
        o = S.choice('obj%d' % n, pool)
        S.assume(not clash(want, o))
        S.assume(ident(want, o) < 0)
        i = S.int('pos%d' % n, -len(want) - 1, len(want) + 1)
        c.insert(i, o)
        want = list(want)
        want.insert(i, o)
    elif op == 'extend':
        os = pool[-2:]
        S.assume(not clash(want, os[0]))
        S.assume(not clash(want + os[:1], os[1]))
        S.assume(ident(want, os[0]) < 0 and ident(want, os[1]) < 0)
        if S.flag('inplace%d' % n):
            box = c
            c += os
            S.require(c is box, 'a container extended in place is another')
        else:
            c.extend(os)
        want = want + os
    elif op == 'remove':
        S.assume(len(want) > 0)
        k = S.choice('mem%d' % n, list(range(len(want))))
        o = want[k]
        c.remove(o)
        want = want[:k] + want[k + 1:]
    elif op == 'delpos':
        i = S.int('pos%d' % n, -len(want), max(len(want) - 1, 0))
        S.assume(-len(want) <= i and i < len(want))
        del c[i]
        want = list(want)
        del want[i]
    elif op == 'pop':
        S.assume(len(want) > 0)
        want = list(want)
        if S.flag('poplast%d' % n):
            S.require(c.pop() is want.pop(), 'pop() gives the last member')
        else:
            i = S.int('pos%d' % n, -len(want), max(len(want) - 1, 0))
            S.require(c.pop(i) is want.pop(i), 'pop(i) gives the member there')
    elif op == 'delid':
        S.assume(len(want) > 0)
        k = S.choice('mem%d' % n, list(range(len(want))))
        S.assume(want[k].id is not None)
        del c[want[k].id]
        want = want[:k] + want[k + 1:]
    elif op == 'replace':
        o = S.choice('obj%d' % n, pool)
        i = S.int('pos%d' % n, -len(want), max(len(want) - 1, 0))
        S.assume(-len(want) <= i and i < len(want))
        S.assume(not clash(want, o, want[i]))
        S.assume(ident(want, o) < 0 or o is want[i])
        c[i] = o
        want = list(want)
        want[i] = o
    elif op == 'clear':
        c.clear()
        want = []
    elif op == 'assign':
        how = S.choice('assign%d' % n, ['nothing', 'none', 'fewer', 'reversed', 'other', 'self', 'lazy'])
        if how == 'nothing':
            ms = []
        elif how == 'none':
            ms = None
        elif how == 'fewer':
            ms = want[1:]
        elif how == 'reversed':
            ms = want[::-1]
        elif how == 'self':
            ms = c
        elif how == 'lazy':
            ms = (m for m in c if m is not want[0])
        else:
            ms = pool[-1:] + want[1:]
            S.assume(not clash(want[1:], pool[-1]) and ident(want[1:], pool[-1]) < 0)
        if kind == 'md' and ms is None:
            ms = []     # (the sequence itself cannot be None)
        KINDS[kind][4](c, ms)
        if how == 'lazy':
            want = want[1:]
        elif how != 'self':
            want = list(ms or [])
    elif op == 'rename':
        S.assume(len(want) > 0 and KINDS[kind][1] is not MetaChild)
        k = S.choice('mem%d' % n, list(range(len(want))))
        new = S.str('newid%d' % n, 1, 1, 'ab' if S.params.get('brief') else 'abc') if S.flag('newhas%d' % n) else None
        for m in want:
            S.assume(m is want[k] or m.id is None or new is None or m.id != new)
        want[k].id = new
        c.refresh_index()
    else:
        c.refresh_index()
    S.reach(op)
    return want


def edits(S):
    kind = S.params['kind']
    n = S.params['n']
    alpha = 'ab' if S.params.get('brief') else 'abc'
    init = [member(S, kind, 'm%d' % i, alpha) for i in range(n)]
    for i in range(n):
        S.assume(not clash(init[:i], init[i]))
    c = KINDS[kind][0](init)
    want = list(init)
    coherent(S, kind, c, want, 'after construction')
    new = [member(S, kind, 'n%d' % i, alpha) for i in range(2)]
    pool = init + new
    for k in range(S.params['ops']):
        want = edit(S, kind, c, want, pool, k)
        coherent(S, kind, c, want, 'after an edit')


def shapes(tier):
    if tier == 'quick':
        return ([dict(kind=k, n=n, ops=1) for k in KINDS for n in (0, 1, 2)]
                + [dict(kind=k, n=3, ops=1) for k in ('tier',)]
                + [dict(kind='tier', n=1, ops=2, brief=True)])
    return ([dict(kind=k, n=n, ops=1) for k in KINDS for n in (0, 1, 2, 3)]
            + [dict(kind=k, n=n, ops=2) for k in KINDS for n in (0, 1, 2)])


def identical_members(S):
    """members that compare equal are still told apart"""
    kind = S.params['kind']
    cls = KINDS[kind][1]
    if cls is MetaChild:
        cls = lambda: MetaChild('x')
    ms = [cls() for _ in range(3)]
    c = KINDS[kind][0](list(ms))
    how = S.choice('how', ['del', 'remove', 'replace'])
    i = S.int('i', -3, 2)
    want = list(ms)
    if how == 'del':
        del c[i]
        del want[i]
    elif how == 'remove':
        o = want[i]
        c.remove(o)
        del want[i]
    else:
        o = cls()
        c[i] = o
        want[i] = o
    coherent(S, kind, c, want, 'among equal members')
    S.reach('equal')


def reach(S):
    """each object names its tier, IGT and corpus, whatever it was put into last"""
    xcs = [XigtCorpus(id='x%d' % i) for i in range(2)]
    igts = [Igt(id='g%d' % i) for i in range(2)]
    tiers = [Tier(id='t%d' % i) for i in range(2)]
    items = [Item(id='i%d' % i) for i in range(2)]
    up = {}

    def put(k, obj, boxes):
        box = S.choice('into%d' % k, boxes)
        S.assume(ident(box, obj) < 0)
        how = S.choice('how%d' % k, ['append', 'insert', 'assign', 'replace']) if k == S.params['steps'] - 1 else 'append'
        if how == 'append':
            box.append(obj)
        elif how == 'insert':
            box.insert(0, obj)
        elif how == 'assign':
            name = {Igt: 'igts', Tier: 'tiers', Item: 'items'}[type(obj)]
            setattr(box, name, [obj])
        else:
            S.assume(len(box) > 0)
            box[-1] = obj
        up[obj.id] = box
    for k in range(S.params['steps']):
        what = S.choice('what%d' % k, ['igt', 'tier', 'item'])
        if what == 'igt':
            put(k, igts[0], xcs)
        elif what == 'tier':
            put(k, S.choice('obj%d' % k, tiers), igts)
        else:
            put(k, S.choice('obj%d' % k, items), tiers)
    for i in items:
        t = up.get(i.id)
        g = up.get(t.id) if t is not None else None
        x = up.get(g.id) if g is not None else None
        S.require(i.tier is t and i.igt is g and i.corpus is x, 'the tier, IGT and corpus of an item')
        if x is not None:
            S.reach('item')
    for t in tiers:
        g = up.get(t.id)
        x = up.get(g.id) if g is not None else None
        S.require(t.igt is g and t.corpus is x, 'the IGT and corpus of a tier')
    for g in igts:
        S.require(g.corpus is up.get(g.id), 'the corpus of an IGT')


def twice(S):
    """a member with an id cannot be added once more, whatever was done before"""
    kind = S.params['kind']
    ms = [KINDS[kind][1](id=x) for x in 'ab']
    c = KINDS[kind][0](list(ms))
    want = list(ms)
    if S.flag('moved'):
        c.remove(ms[0])
        c.append(ms[0])
        want = [ms[1], ms[0]]
    o = S.choice('obj', ms)
    how = S.choice('how', ['append', 'insert', 'extend', 'replace', 'assign'])
    i = S.int('i', -3, 2)
    if how == 'append':
        f = lambda: c.append(o)
    elif how == 'insert':
        f = lambda: c.insert(i, o)
    elif how == 'extend':
        f = lambda: c.extend([o])
    elif how == 'replace':
        S.assume(-2 <= i and i < 2 and want[i] is not o)
        f = lambda: c.__setitem__(i, o)
    else:
        f = lambda: KINDS[kind][4](c, [o, o])
    S.require(raises(f, XigtError) is not None, 'a member is added twice')
    coherent(S, kind, c, want, 'after a member was to be added twice')
    S.reach(how)


HARNESSES = [
    ('twice', lambda t: [dict(kind=k, brief=True) for k in KINDS if k != 'child' and k != 'meta'], ['append', 'insert', 'extend', 'replace', 'assign']),
    ('reach', lambda t: [dict(steps=s) for s in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))], ['item']),
    ('edits', shapes, ['append', 'insert', 'remove', 'delpos', 'delid', 'replace',
                       'clear', 'assign', 'extend', 'refresh', 'rename', 'pop']),
    ('identical_members', lambda t: [dict(kind=k) for k in KINDS], ['equal']),
]
