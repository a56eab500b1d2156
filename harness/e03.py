"""E03: export to [incr tsdb()]."""
import os
from xigt import XigtCorpus, Igt, Tier, Item
from harness.common import raises

PROPERTY = 'E03'
BOUNDS = ('up to 3 IGTs; any start and step of the ids from -9 to 99; up to 3 cells out of 6 expressions, in any order, the default '
          'cells included; a configuration used once or twice; relations given, missing or those of LOGON; phrases and words in one or several tiers, present, empty, without text or with arbitrary texts of up to 2 characters')
ASSUMES = ['pyDelphin is a stand-in that records what it is given (it is not installed)', 'the expressions of cells are valid']
CELLS = [('a', 'igt.id'), ('b', 'len(igt)'), ('c', '"x" + (igt[0][0].text or "")'), ('d', 'igt.attributes.get("k")'), ('e', '1'), ('z', '0')]


class Delphin(object):
    given = []

    @staticmethod
    def make_skeleton(path, relations, rows):
        Delphin.given.append((path, relations, [[(k, row[k]) for k in row] for row in rows]))


def exporter(S):
    """the exporter and what the stand-in of make_skeleton was given"""
    Delphin.given = []
    S.stub_module('delphin', itsdb=Delphin)
    from xigt.exporters import itsdb as exporter
    return exporter, Delphin.given


def text(S, name):
    return S.str(name, 1, 2, 'ab ') if S.flag(name + '?') else None


def corpus(S, n, vary):
    igts, inputs = [], []
    for g in range(n):
        tiers = []
        want = ''
        if vary:
            # an empty text counts as none
            kind = S.choice('phrases%d' % g, ['no', 'empty', 'text', 'two', 'late'])
            ph = text(S, 'p%d' % g) if kind in ('text', 'two', 'late') else None
            if kind != 'no':
                tiers.append(Tier(id='p', type='phrases', items=[] if kind == 'empty' else [Item(id='p1', text=ph)]
                                  + ([Item(id='p2', text='other')] if kind == 'two' else [])))
            # (the phrase may be in a later tier)
            if kind == 'late':
                tiers.insert(0, Tier(id='p0', type='phrases'))
            if kind in ('two', 'late'):
                tiers.append(Tier(id='p9', type='phrases', items=[Item(id='p91', text='another')]))
            kind2 = S.choice('words%d' % g, ['no', 'empty', 'text', 'more'])
            ws = [text(S, 'w%d1' % g), 'w2'] if kind2 in ('text', 'more') else []
            if kind2 != 'no':
                tiers.append(Tier(id='w', type='words', items=[Item(id='w%d' % i, text=w) for i, w in enumerate(ws)]))
            # (the words are those of the first tier of words)
            if kind2 in ('more', 'empty'):
                tiers.append(Tier(id='w9', type='words', items=[Item(id='w91', text='w3')]))
            want = ph if ph is not None else ' '.join([w or '' for w in ws])
            S.reach('phrase' if ph is not None else 'words' if ws else 'nothing')
        else:
            want = S.str('t%d' % g, 1, 1, 'xy')
            tiers.append(Tier(id='w', type='words', items=[Item(id='w1', text=want)]))
        igts.append(Igt(id='i%d' % g, attributes={'k': 'v%d' % g}, tiers=tiers))
        inputs.append(want)
    return XigtCorpus(igts=igts), inputs


def rows(S):
    """every igt is a row; its cells are what the expressions give for it"""
    n = S.params['igts']
    xc, inputs = corpus(S, n, False)
    exp, given = exporter(S)
    rel = S.put_file('Relations', 'item:\n')
    cells = [S.choice('cell%d' % i, CELLS) for i in range(S.params['cells'])]
    keys = [k for k, _ in cells]
    S.assume(len(set(keys)) == len(keys))
    config = {'relations': rel, 'cells': list(cells)}
    start, skip = 0, 10
    if S.flag('start?'):
        start = config['i-id_start'] = S.int('start', -9, 99)
    if S.flag('skip?'):
        skip = config['i-id_skip'] = S.int('skip', 0, 9)
    out = S.mkpath('profile')
    before = dict(config, cells=list(cells))
    exp.xigt_export(xc, out, config=config)
    S.require(config == before, 'the configuration is left as it was')
    if S.params.get('again'):
        given.pop()
        exp.xigt_export(xc, out, config=config)
    S.require(len(given) == 1 and given[0][0] == out and given[0][1] == rel, 'the skeleton is made once')
    got = given[0][2]
    S.require(len(got) == n, 'one row for each igt')
    for i, row in enumerate(got):
        want = {'a': 'i%d' % i, 'b': 1, 'c': 'x' + inputs[i], 'd': 'v%d' % i, 'e': 1, 'z': 0}
        S.require(len(row) == 1 + len(cells), 'cells of a row')
        for k, v in row:
            if k == 'i-id':
                S.require(v == start + i * skip, 'the ids of rows')
            else:
                S.require(k in keys, 'no other cells')
                S.require(v == want[k] and isinstance(v, type(want[k])), 'a cell is what its expression gives')
                S.reach(k)


def defaults(S):
    xc, inputs = corpus(S, S.params['igts'], True)
    exp, given = exporter(S)
    rel = S.put_file('Relations', 'item:\n')
    exp.xigt_export(xc, S.mkpath('profile'), config={'relations': rel})
    got = given[0][2]
    S.require(len(got) == len(inputs), 'one row for each igt')
    for i, row in enumerate(got):
        d = dict(row)
        S.require(sorted(d) == ['i-id', 'i-input'] and d['i-id'] == 10 * i, 'the default cells')
        S.require(isinstance(d['i-input'], str) and d['i-input'] == inputs[i], 'i-input is the first phrase or else the words')


def norelations(S):
    """nothing is written without the file of relations"""
    xc, _ = corpus(S, 1, False)
    exp, given = exporter(S)
    kind = S.choice('kind', ['none', 'empty', 'missing'])
    config = {'none': None, 'empty': {'relations': ''}, 'missing': {'relations': S.mkpath('nothing')}}[kind]
    exp.xigt_export(xc, S.mkpath('profile'), config=config)
    S.require(given == [] and S.list_files() == [], 'nothing is exported')
    S.require([x[0] for x in S.logs()] == [40], 'the error is reported')
    S.reach(kind)


def logon(S):
    """the relations of LOGON are used where none are configured"""
    xc, _ = corpus(S, 1, False)
    exp, given = exporter(S)
    root = S.mkpath('logon')
    path = 'logon/lingo/lkb/src/tsdb/skeletons/english/'
    there = S.flag('there')
    default = S.put_file(path + 'Relations', 'item:\n') if there else None
    mine = S.put_file('Mine', 'item:\n')
    kind = S.choice('kind', ['none', 'without', 'empty', 'missing', 'given'])
    config = {'none': None, 'without': {}, 'empty': {'relations': ''}, 'missing': {'relations': S.mkpath('nothing')},
              'given': {'relations': mine}}[kind]
    before = S.list_files()
    os.environ['LOGONROOT'] = root
    try:
        exp.xigt_export(xc, S.mkpath('profile'), config=config)
    finally:
        os.environ.pop('LOGONROOT')
    rel = mine if kind == 'given' else default if kind in ('none', 'without') else None
    S.require([x[1] for x in given] == ([] if rel is None else [rel]), 'the relations that are used')
    if rel is None:
        S.require(S.list_files() == before, 'nothing is exported')
        S.require([x[0] for x in S.logs() if x[0] > 20] == [40], 'the error is reported')
        S.reach('nothing')
    else:
        S.reach(kind)


HARNESSES = [('rows', lambda t: [dict(igts=2, cells=1), dict(igts=1, cells=1, again=True), dict(igts=1, cells=2), dict(igts=2, cells=3)] + ([] if t == 'quick' else [dict(igts=3, cells=3)]),
              ['a', 'b', 'c', 'd', 'e', 'z']),
             ('defaults', lambda t: [dict(igts=1)] + ([] if t == 'quick' else [dict(igts=2)]), ['phrase', 'words', 'nothing']),
             ('norelations', lambda t: [{}], ['none', 'empty', 'missing']),
             ('logon', lambda t: [{}], ['none', 'without', 'given', 'nothing'])]
