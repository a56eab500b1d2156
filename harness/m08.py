"""M08: loading modes of a corpus."""
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.consts import FULL, INCREMENTAL, TRANSIENT
from xigt.errors import XigtError
from harness.common import raises, same, LETTERS

PROPERTY = 'M08'
BOUNDS = ('corpora over sources of up to 3 (quick) / 5 (thorough) igts with no id or arbitrary one-letter ids, the '
          'source being a list, tuple, iterator, generator, another corpus in any mode or absent; histories of up to two iterations each abandoned '
          'after any number of steps, or two iterators stepped in any interleaving of up to 5 / 8 steps, followed '
          'by a complete iteration; and the assignment of other igts at any point')
ASSUMES = ['a source list is not modified meanwhile']


def source(S, n):
    """(igts, iterable, log of produced igts)"""
    igts = []
    for i in range(n):
        igts.append(Igt(id=S.str('id%d' % i, 1, 1, LETTERS) if S.flag('has%d' % i) else None))
    kind = S.choice('source', ['list', 'tuple', 'iter', 'generator', 'corpus'])
    log = []

    def gen():
        for g in igts:
            log.append(g)
            yield g
    if kind == 'list':
        return igts, list(igts), None
    if kind == 'tuple':
        return igts, tuple(igts), None
    if kind == 'iter':
        return igts, iter(igts), None
    if kind == 'corpus':
        S.assume(firstdup(igts) == len(igts))
        return igts, XigtCorpus(igts=gen(), mode=S.choice('mode0', [FULL, INCREMENTAL, TRANSIENT])), None
    return igts, gen(), log


def firstdup(igts):
    """how many igts precede the first duplicate id"""
    for i in range(len(igts)):
        for j in range(i):
            if igts[i].id is not None and igts[j].id is not None and igts[i].id == igts[j].id:
                return i
    return len(igts)


def steps(it, k):
    out = []
    while k > 0:
        try:
            out.append(next(it))
        except StopIteration:
            break
        k -= 1
    return out


def full(S):
    igts, src, log = source(S, S.params['n'])
    ok = firstdup(igts)
    made = []
    ex = raises(lambda: made.append(XigtCorpus(igts=src) if S.flag('implicit') else XigtCorpus(igts=src, mode=FULL)), XigtError)
    S.require((ex is None) == (ok == len(igts)), 'duplicate ids are refused, others accepted')
    if ex is None:
        xc = made[0]
        S.require(log is None or same(log, igts), 'everything is loaded at once')
        S.require(len(xc) == len(igts) and same(xc, igts) and same(xc.igts, igts), 'all igts in order')
        S.require(same(xc, igts), 'iteration is repeatable')
        for g in igts:
            S.require(g.corpus is xc, 'the corpus of each igt')
            S.require(g.id is None or xc[g.id] is g, 'lookup by id')
        S.reach('full')


def incremental(S):
    igts, src, log = source(S, S.params['n'])
    dup = firstdup(igts)
    S.assume(dup == len(igts))
    xc = XigtCorpus(igts=src, mode=INCREMENTAL)
    S.require(len(xc) == 0 and (log is None or len(log) == 0), 'nothing is loaded before it is needed')
    high = 0
    for r in range(S.choice('partial', [0, 1, 2])):
        k = S.choice('steps%d' % r, list(range(len(igts) + 2)))
        got = steps(iter(xc), k)
        S.require(same(got, igts[:k]), 'each iteration starts at the first igt')
        if k > high:
            high = k
        n = high if high < len(igts) else len(igts)
        S.require(len(xc) == n and same([xc[i] for i in range(n)], igts[:n]), 'exactly the igts needed so far are loaded')
        S.require(log is None or same(log, igts[:n]), 'no more is read from the source than needed')
    S.require(same(xc, igts), 'a complete iteration yields every igt in order')
    S.require(len(xc) == len(igts), 'all igts are kept')
    for g in igts:
        S.require(g.corpus is xc, 'the corpus of each igt')
        S.require(g.id is None or xc[g.id] is g, 'lookup by id')
    S.require(same(xc, igts) and same(xc.igts, igts), 'iteration is repeatable')
    S.require(xc == XigtCorpus(igts=igts), 'same as a corpus loaded at once')
    S.reach('incremental')


def interleaved(S):
    n = S.params['n']
    igts = [Igt(id='i%d' % i) for i in range(n)]
    xc = XigtCorpus(igts=iter(igts), mode=INCREMENTAL)
    its = [iter(xc), iter(xc)]
    pos = [0, 0]
    for s in range(S.params['steps']):
        w = S.choice('who%d' % s, [0, 1])
        got = steps(its[w], 1)
        S.require(same(got, igts[pos[w]:pos[w] + 1]), 'each iterator yields every igt in order')
        pos[w] += 1
    S.require(same(xc, igts) and len(xc) == n, 'all igts are kept')
    S.reach('interleaved')


def transient(S):
    igts, src, log = source(S, S.params['n'])
    xc = XigtCorpus(igts=src, mode=TRANSIENT)
    k = S.choice('steps', list(range(len(igts) + 2)))
    it = iter(xc)
    seen = 0
    for j in range(k):
        got = steps(it, 1)
        S.require(same(got, igts[j:j + 1]), 'igts in order')
        for g in got:
            S.require(g.corpus is xc, 'the corpus of a transient igt')
            seen += 1
            S.require(g.id is None or xc.get(g.id) is None, 'nothing can be looked up')
        S.require(len(xc) == 0, 'nothing is kept')
        S.require(log is None or len(log) == seen, 'one igt is read at a time')
    if k > len(igts):
        S.require(same(xc, []) and len(xc) == 0, 'nothing is left after a complete iteration')
        S.reach('exhausted')
    else:
        S.require(same(it, igts[k:]), 'the rest follows')
    S.reach('transient')


def absent(S):
    mode = S.choice('mode', [FULL, INCREMENTAL, TRANSIENT])
    xc = XigtCorpus(mode=mode) if S.flag('omitted') else XigtCorpus(igts=None if S.flag('none') else [], mode=mode)
    S.require(same(xc, []) and len(xc) == 0, 'a corpus without igts is empty')
    g = Igt(id='a')
    xc.append(g)
    S.require(same(xc, [g]) and xc['a'] is g, 'igts can be added after loading')
    S.reach('absent')


def late_duplicate(S):
    igts, src, log = source(S, S.params['n'])
    dup = firstdup(igts)
    S.assume(dup < len(igts))
    xc = XigtCorpus(igts=src, mode=INCREMENTAL)
    it = iter(xc)
    S.require(same(steps(it, dup), igts[:dup]), 'igts before the duplicate')
    S.require(raises(lambda: next(it), XigtError) is not None, 'the duplicate is refused')
    S.require(len(xc) == dup and same([xc[i] for i in range(dup)], igts[:dup]), 'what was loaded is kept')
    S.reach('duplicate')


def assigned(S):
    """assigning the igts of a corpus replaces all of them, loaded or not"""
    n = S.params['n']
    igts = [Igt(id='i%d' % i) for i in range(n)]
    xc = XigtCorpus(igts=iter(igts), mode=S.choice('mode', [FULL, INCREMENTAL]))
    k = S.choice('steps', list(range(n + 2)))
    steps(iter(xc), k)
    new = [Igt(id='n'), Igt(id='i0')]
    how = S.choice('how', ['new', 'nothing', 'some', 'self'])
    if how == 'new':
        xc.igts = new
        want = new
    elif how == 'nothing':
        xc.igts = None
        want = []
    elif how == 'some':
        xc.igts = (g for g in xc if g.id != 'i0')
        want = igts[1:]
    else:
        xc.igts = xc
        want = igts
    S.require(len(xc) == len(want) and same(xc, want) and same(xc.igts, want), 'the igts are those assigned')
    for g in want:
        S.require(xc[g.id] is g and g.corpus is xc, 'each is found by its id')
    S.reach(how)


def shapes(t):
    return [dict(n=n) for n in ((0, 1, 2, 3) if t == 'quick' else (0, 1, 2, 3, 4, 5))]


HARNESSES = [('assigned', shapes, ['new', 'nothing', 'some', 'self']),
             ('full', shapes, ['full']), ('incremental', shapes, ['incremental']),
             ('interleaved', lambda t: [dict(n=n, steps=5 if t == 'quick' else 8) for n in (0, 1, 2, 3)], ['interleaved']),
             ('transient', shapes, ['transient', 'exhausted']), ('absent', lambda t: [{}], ['absent']),
             ('late_duplicate', lambda t: [dict(n=n) for n in ((2, 3) if t == 'quick' else (2, 3, 4))], ['duplicate'])]
