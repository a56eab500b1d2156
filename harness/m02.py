"""M02: a rejected edit raises and changes nothing."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.errors import XigtError
from harness.common import same, raises
from harness.m01 import KINDS as ALL, member, clash, ident, coherent

PROPERTY = 'M02'
BOUNDS = ('five container kinds; an arbitrary valid state of 1..3 members with arbitrary '
          'one-letter ids or none; one (quick) or two (thorough) arbitrary edits the container must '
          'reject: duplicate id (append, insert, extend, add, replace), object of the wrong kind, '
          'removal or deletion of a non-member, extension or assignment by several objects of which one is bad, position out of [-4, 4] range; every kind of object '
          'added in every way to each of the seven kinds of container')
# (nested elements have no ids: see wrongkind)
KINDS = {k: ALL[k] for k in ('tier', 'igt', 'corpus', 'metadata', 'md')}
ASSUMES = []


def reject(S, kind, c, want, n):
    op = S.choice('op%d' % n, ['append', 'insert', 'extend', 'add', 'replace',
                               'wrongkind', 'remove', 'delid', 'pos', 'several', 'assign'])
    cls = KINDS[kind][1]
    other = Igt(id='x') if kind != 'corpus' else Item(id='x')
    home = {'tier': Tier, 'igt': Igt, 'corpus': XigtCorpus, 'metadata': Metadata, 'md': Igt}[kind](
        id='home', nsmap={'own': 'home'})
    if kind == 'md':
        home = home.metadata
    o = cls(id=S.str('new%d' % n, 1, 1, 'abc'))
    home.append(o)
    if op in ('append', 'insert', 'extend', 'add'):
        S.assume(clash(want, o))
        if op == 'append':
            f = lambda: c.append(o)
        elif op == 'insert':
            i = S.int('pos%d' % n, -4, 4)
            f = lambda: c.insert(i, o)
        elif op == 'add':
            f = lambda: c.add(o)
        else:
            f = lambda: c.extend([o])
        S.require(raises(f, XigtError) is not None, 'a duplicate id is accepted by ' + op)
    elif op == 'replace':
        i = S.int('pos%d' % n, -4, 3)
        S.assume(-len(want) <= i and i < len(want))
        S.assume(clash(want, o, want[i]))

        def f():
            c[i] = o
        S.require(raises(f, XigtError) is not None, 'a duplicate id is accepted by replacement')
    elif op in ('several', 'assign'):
        # some are fine, one is not
        bad = S.choice('bad%d' % n, ['kind', 'dup', 'twice', 'none'])
        fine = cls(id='f')
        if bad == 'kind':
            os = [fine, o, other]
            S.assume(op == 'assign' or not clash(want, o))
        elif bad == 'none':
            os = [fine, o, None]
            S.assume(op == 'assign' or not clash(want, o))
        elif bad == 'twice':
            os = [o, fine, cls(id=o.id)]
            S.assume(op == 'assign' or not clash(want, o))
        else:
            S.assume(op == 'several' and clash(want, o))
            os = [fine, o]
        if S.flag('lazy%d' % n):
            os = iter(os)

        def f():
            if op == 'several':
                c.extend(os)
            else:
                KINDS[kind][4](c, os)
        S.require(raises(f, XigtError) is not None, 'a list with a bad member is accepted')
        S.require(c.get('f') is None and (o.id is None or clash(want, o) or c.get(o.id) is None), 'members of a refused list are found')
        S.require(getattr(fine, '_parent', None) is None, 'members of a refused list are re-parented')
    elif op == 'wrongkind':
        how = S.choice('how%d' % n, ['append', 'insert', 'replace', 'extend'])

        def f():
            if how == 'append':
                c.append(other)
            elif how == 'insert':
                c.insert(0, other)
            elif how == 'extend':
                c.extend([other])
            else:
                c[0] = other
        S.require(raises(f, XigtError) is not None, 'an object of the wrong kind is accepted')
    elif op == 'remove':
        S.assume(not (clash(want, o) and any(o == m for m in want)))
        S.require(raises(lambda: c.remove(o), ValueError, KeyError) is not None,
                  'removing a non-member does not fail')
    elif op == 'delid':
        q = S.str('q%d' % n, 1, 1, 'abcd')
        S.assume(not any(m.id is not None and m.id == q for m in want))

        def f():
            del c[q]
        S.require(raises(f, KeyError) is not None, 'deleting an unknown id does not fail')
    else:
        i = S.int('pos%d' % n, -5, 5)
        S.assume(i >= len(want) or i < -len(want))
        how = S.choice('how%d' % n, ['get', 'del', 'set', 'pop'])

        def f():
            if how == 'get':
                c[i]
            elif how == 'del':
                del c[i]
            elif how == 'pop':
                c.pop(i)
            else:
                c[i] = cls()
        S.require(raises(f, IndexError) is not None, 'a position out of range is accepted')
    S.reach(op)
    S.require(o.nsmap == {'own': 'home'} if kind == 'md' else KINDS[kind][2](o, home), 'a rejected object was re-parented')
    S.require(same(home, [o]), 'the rejected object left its own container')


def rejected(S):
    kind = S.params['kind']
    init = [member(S, kind, 'm%d' % i, 'ab' if i == 0 else 'abc')
            for i in range(S.params['n'])]
    for i in range(len(init)):
        S.assume(not clash(init[:i], init[i]))
    c = KINDS[kind][0](init)
    for k in range(S.params['ops']):
        reject(S, kind, c, init, k)
        coherent(S, kind, c, init, 'after a rejected edit')


def shapes(tier):
    out = [dict(kind=k, n=n, ops=1) for k in KINDS for n in (1, 2, 3)]
    if tier != 'quick':
        out += [dict(kind=k, n=n, ops=2) for k in KINDS for n in (1, 2)]
    return out


BOXES = {'corpus': Igt, 'igt': Tier, 'tier': Item, 'metadata': Meta, 'meta': MetaChild, 'child': MetaChild, 'md': Metadata}


def wrongkind(S):
    """every container refuses every other kind of object, in every way of adding it"""
    kind = S.params['kind']
    cls = BOXES[kind]
    m = MetaChild('m') if cls is MetaChild else cls(id='m')
    owner = {'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier, 'metadata': Metadata, 'meta': Meta, 'md': Igt,
             'child': lambda: MetaChild('o')}[kind]()
    c = owner.metadata if kind == 'md' else owner
    c.append(m)
    what = S.choice('what', [XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild, None, str])
    S.assume(what is not cls)
    if what is None:
        o = None
    elif what is str:
        o = S.str('o', 1, 2, 'ab')
    elif what is MetaChild:
        o = MetaChild('x')
    else:
        o = what(id='x')
    homes = {Igt: XigtCorpus, Tier: Igt, Item: Tier, Meta: Metadata, MetaChild: Meta}
    home = homes[what](nsmap={'h': 'home'}) if what in homes else None
    if home is not None:
        home.append(o)
    how = S.choice('how', ['append', 'insert', 'extend', 'replace', 'add', 'add_list', 'iadd'])

    def f():
        if how == 'append':
            c.append(o)
        elif how == 'insert':
            c.insert(0, o)
        elif how == 'extend':
            c.extend([o])
        elif how == 'add':
            c.add(o)
        elif how == 'add_list':
            c.add_list([o])
        elif how == 'iadd':
            box = c
            box += [o]
        else:
            c[0] = o
    S.require(raises(f, XigtError) is not None, 'an object of the wrong kind is accepted by ' + how)
    S.require(same(c, [m]) and (m.id is None or c.get('m') is m), 'a refused object changed the container')
    S.require(c.get('x') is None, 'a refused object is found')
    if home is not None:
        S.require(o.nsmap == {'h': 'home'} and same(home, [o]), 'a refused object was re-parented')
    S.reach(how)


HARNESSES = [('wrongkind', lambda t: [dict(kind=k) for k in BOXES], ['append', 'insert', 'extend', 'replace', 'add', 'add_list']),
             ('rejected', shapes, ['append', 'insert', 'extend', 'add', 'replace', 'wrongkind', 'remove',
                                   'delid', 'pos', 'several', 'assign'])]
