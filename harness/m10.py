"""M10: item and tier lookup in an igt after its indices are refreshed."""
from xigt import Igt, Tier, Item
from xigt.errors import XigtError, XigtWarning
from harness.common import raises, same

PROPERTY = 'M10'
BOUNDS = ('igts of two tiers holding up to 1+2 (quick) / 2+2 (thorough) items with no id or an arbitrary one-letter '
          'id each (duplicates across tiers included); one arbitrary edit (append, remove, replace or rename an '
          'item, drop or rename a tier, none); any refresh flags; lookup of an arbitrary id')
ASSUMES = ['of several unequal items with one id any may be returned']


def anitem(S, name, texts=True):
    i = S.str(name + '.id', 1, 1, 'abc') if S.flag(name + '.has') else None
    return Item(id=i, text='x')


def lookups(S, igt, when):
    items = [i for t in list.__iter__(igt) for i in list.__iter__(t)]
    q = S.str('q', 1, 1, 'abcd')
    hits = [i for i in items if i.id is not None and i.id == q]
    got = igt.get_item(q)
    if not hits:
        S.require(got is None, 'an item that is not there is found ' + when)
        S.require(igt.get_item(q, 'dflt') == 'dflt', 'default ' + when)
        S.reach('absent')
    else:
        S.require(any(got is h for h in hits), 'item lookup ' + when)
        S.reach('present')
    S.require(igt.get_item(None) is None, 'the missing id finds something ' + when)
    tiers = [t for t in list.__iter__(igt) if t.id is not None and t.id == q]
    any_ = igt.get_any(q)
    if tiers:
        S.require(any_ is tiers[0] and igt.get(q) is tiers[0] and igt[q] is tiers[0], 'tier lookup ' + when)
        S.reach('tier')
    else:
        S.require(any_ is got, 'lookup of any object ' + when)
        S.require(igt.get_any(q, 'dflt') == ('dflt' if got is None else got), 'lookup of any object with a default ' + when)
        S.require(igt.get(q) is None, 'tier lookup finds something else ' + when)
    return items


def conflicts(items):
    """is there an id shared by unequal items"""
    for i in range(len(items)):
        for j in range(i):
            if items[i].id is not None and items[j].id is not None and items[i].id == items[j].id:
                if items[i].text != items[j].text:
                    return True
    return False


def valid(items):
    for i in range(len(items)):
        for j in range(i):
            if items[i].id is not None and items[j].id is not None and items[i].id == items[j].id:
                return False
    return True


def refresh(S):
    na, nb = S.params['n']
    a = [anitem(S, 'a%d' % i) for i in range(na)]
    b = [anitem(S, 'b%d' % i) for i in range(nb)]
    S.assume(valid(a) and valid(b))
    ta = Tier(id=S.str('ta', 1, 1, 'ad') if S.flag('ta.has') else None, items=a)
    tb = Tier(id='t', items=b)
    igt = Igt(tiers=[ta, tb])
    before = len(S.warned())
    S.require(before == 0, 'equal items need no warning')
    lookups(S, igt, 'after creation')
    op = S.params['op']
    new = anitem(S, 'new')
    if op == 'append':
        S.assume(valid(list(ta) + [new]))
        ta.append(new)
    elif op == 'remove':
        S.assume(len(tb) > 0)
        tb.remove(tb[0])
    elif op == 'replace':
        S.assume(len(tb) > 0)
        S.assume(valid(list(tb)[1:] + [new]))
        tb[0] = new
    elif op == 'rename':
        S.assume(len(tb) > 0)
        S.assume(valid(list(tb)[1:] + [new]))
        tb[0].id = new.id
    elif op == 'drop tier':
        igt.remove(ta)
    elif op == 'rename tier':
        ta.id = new.id
    igt.refresh_indices(tiers=(op == 'rename tier'))
    items = lookups(S, igt, 'after ' + op)
    S.require(len(S.warned()) == 0, 'no conflict, no warning')
    S.reach(op)


def conflict(S):
    """ids shared by unequal items are reported, by equal ones are not"""
    items = []
    for i in range(3):
        items.append(Item(id=S.str('id%d' % i, 1, 1, 'ab') if S.flag('has%d' % i) else None,
                          text=S.str('text%d' % i, 0, 1, 'xy')))
    tiers = [Tier(id='t%d' % i, items=[x]) for i, x in enumerate(items)]
    igt = Igt(tiers=tiers)
    ws = [c for c, m in S.warned()]
    if conflicts(items):
        S.require(len(ws) > 0 and all(issubclass(c, XigtWarning) for c in ws), 'unequal items with one id are reported')
        S.reach('conflict')
    else:
        S.require(len(ws) == 0, 'a warning without conflict')
        S.reach('no conflict')
    S.require(same(igt.tiers, tiers), 'tiers')
    for t, x in zip(tiers, items):
        S.require(same(t, [x]), 'items')


def tierindex(S):
    """refresh_index after tiers were renamed in place"""
    ts = [Tier(id='x'), Tier(id='y')]
    igt = Igt(tiers=ts)
    for i, t in enumerate(ts):
        t.id = S.str('id%d' % i, 1, 1, 'xyz') if S.flag('has%d' % i) else None
    dup = ts[0].id is not None and ts[1].id is not None and ts[0].id == ts[1].id
    ex = raises(lambda: igt.refresh_indices(tiers=True), XigtError)
    S.require((ex is not None) == dup, 'shared tier ids are refused, others accepted')
    if not dup:
        for t in ts:
            S.require(t.id is None or igt.get(t.id) is t, 'tier lookup')
        for k in 'xyz':
            if not any(t.id is not None and t.id == k for t in ts):
                S.require(igt.get(k) is None, 'a former id finds a tier')
        S.reach('renamed')


OPS = ['none', 'append', 'remove', 'replace', 'rename', 'drop tier', 'rename tier']
HARNESSES = [('refresh', lambda t: [dict(op=o, n=n) for o in OPS for n in ([(1, 1), (0, 2)] if t == 'quick' else [(1, 2), (2, 1), (2, 2)])],
              OPS + ['absent', 'present', 'tier']),
             ('conflict', lambda t: [{}], ['conflict', 'no conflict']),
             ('tierindex', lambda t: [{}], ['renamed'])]
