"""M03: which identifiers and child names are accepted."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt import ref
from harness.common import raises, PRINT, LETTERS

PROPERTY = 'M03'
BOUNDS = ('every string of up to 4 (quick) / 6 (thorough) characters over printable ASCII, newline, '
          'tab and three non-ASCII letters/digits, as the identifier of each of six kinds of object at '
          'construction and by assignment; the same strings as child-element names')
ASSUMES = []
ALPHA = PRINT + '\n\t\xe9\u0663\u4e2d'
WORD = LETTERS + '0123456789_-.\xe9\u0663\u4e2d'
NSTART = LETTERS + '_\xe9\u4e2d'
KINDS = [XigtCorpus, Igt, Tier, Item, Metadata, Meta]


def wanted(s, start):
    if len(s) == 0 or s[0] not in start:
        return False
    for c in s[1:]:
        if c not in WORD:
            return False
    return True


def ident(S):
    cls = KINDS[S.params['kind']]
    s = S.str('s', 0, S.params['n'], ALPHA)
    ok = wanted(s, LETTERS)
    if S.flag('assign'):
        o = cls(id='old')

        def f():
            o.id = s
        ex = raises(f, ValueError)
        S.require((ex is None) == ok, 'identifier acceptance on assignment')
        S.require(o.id == (s if ok else 'old'), 'identifier after assignment')
    else:
        made = []
        ex = raises(lambda: made.append(cls(id=s)), ValueError)
        S.require((ex is None) == ok, 'identifier acceptance at construction')
        if ok:
            S.require(made[0].id == s, 'identifier kept as given')
    if ok:
        S.reach('ok')
        S.require(ref.ids(s) == [s], 'an accepted identifier is one whole reference')
    else:
        S.reach('rejected')


def childname(S):
    s = S.str('s', 0, S.params['n'], ALPHA)
    made = []
    ex = raises(lambda: made.append(MetaChild(s)), ValueError)
    ok = wanted(s, NSTART)
    S.require((ex is None) == ok, 'child name acceptance')
    S.reach('ok' if ok else 'rejected')
    if ok:
        S.require(made[0].name == s, 'child name kept')


def none(S):
    cls = KINDS[S.params['kind']]
    o = cls()
    S.require(o.id is None, 'no identifier')
    o.id = 'a'
    o.id = None
    S.require(o.id is None, 'identifier removed')
    S.reach('none')


def shapes(t):
    return [dict(kind=k, n=(4 if k == 3 else 3) if t == 'quick' else 6) for k in range(6)]


HARNESSES = [('ident', shapes, ['ok', 'rejected']),
             ('childname', lambda t: [dict(n=3 if t == 'quick' else 5)], ['ok', 'rejected']),
             ('none', lambda t: [dict(kind=k) for k in range(6)], ['none'])]
