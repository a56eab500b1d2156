"""I02: records of Toolbox files."""
from xigt import XigtCorpus, ref

PROPERTY = 'I02'
BOUNDS = ('up to 3 records of up to 2 words with up to 2 morphemes each with up to 2 glosses, translations and lines of other markers, in any '
          'order, any of them absent or without a value; default and custom maps of markers (also such that leave out tiers), tiers and alignments; keys that are fine, '
          'start with digits or other characters, are no ids or empty; records that toolbox rejects; records after one that lacks lines')
ASSUMES = ['toolbox is a stand-in: its records, and its alignments of tokens, are given by the check (it is not installed)',
           'alignments of toolbox are pairs of a token of the target line and the tokens aligned to it']


class Toolbox(object):
    class ToolboxError(Exception):
        pass

    class ToolboxWarning(Warning):
        pass

    recs = []

    @staticmethod
    def read_toolbox_file(lines):
        return lines

    @staticmethod
    def records(tb, markers):
        for context, data in Toolbox.recs:
            yield context, iter(data)

    @staticmethod
    def normalize_record(data, markers, strip=True):
        return list(data)

    @staticmethod
    def align_fields(pairs, alignments=None, errors='strict'):
        """values: tokens by blanks, in groups by bars, one for each token of the line they are aligned to"""
        tokens = {}
        targets = list(alignments.values())
        for mkr, value in pairs:
            if value is None:
                tokens[mkr] = []
                yield mkr, [(None, None)]
            elif mkr in alignments:
                groups = [g.split() for g in value.split('|')]
                if value == 'bad' or alignments[mkr] not in tokens:
                    raise Toolbox.ToolboxError('no alignment')
                tgt = tokens[alignments[mkr]]
                tokens[mkr] = [x for g in groups for x in g]
                yield mkr, list(zip(tgt, groups))
            elif mkr in targets:
                tokens[mkr] = value.split()
                yield mkr, [(value, value.split())]
            else:
                yield mkr, [(value, [value])]


def importer(S):
    S.stub_module('toolbox', ToolboxError=Toolbox.ToolboxError, ToolboxWarning=Toolbox.ToolboxWarning,
                  read_toolbox_file=Toolbox.read_toolbox_file, records=Toolbox.records,
                  normalize_record=Toolbox.normalize_record, align_fields=Toolbox.align_fields)
    from xigt.importers import toolbox
    return toolbox


def tok(S, n):
    return S.str(n, 1, 1, 'ab-') + 'k'


def options(tb, custom):
    o = dict(record_markers=tb.default_record_markers, igt_attribute_map=tb.default_igt_attribute_map, tier_map=tb.default_tier_map,
             make_phrase_tier=tb.default_make_phrase_tier, tier_types=tb.default_tier_types, alignments=tb.default_alignments,
             error_recovery_method=tb.default_error_recovery_method)
    o.update(custom)
    o['tb_alignments'] = tb._make_tb_alignments(o)
    return o


def value_of(igt, item):
    """the texts a reference stands for and the ids of the items it is about"""
    r = item.segmentation if item.segmentation is not None else item.alignment
    return ref.resolve(igt, r), [x for x in ref.ids(r)]


def tiers(S):
    """every tier and item of a record, with its alignment"""
    tb = importer(S)
    p = S.params
    words = [tok(S, 'w%d' % i) for i in range(S.size('words', 1, p['words']))]
    morphs = [[tok(S, 'm%d%d' % (i, j)) for j in range(S.size('n%d' % i, 1, 2))] for i in range(len(words))]
    flat = [x for g in morphs for x in g]
    gl = [['g%d' % i, 'h'][:S.size('g%d' % i, 0, 2)] if p.get('glosses') else ['g%d' % i] for i in range(len(flat))]
    t = tok(S, 't') + ' ' + 'u'
    lines = [('\\t', ' '.join(words)), ('\\m', '|'.join([' '.join(g) for g in morphs])), ('\\g', '|'.join([' '.join(g) for g in gl])),
             ('\\f', t), ('\\x', 'other')]
    phrase = not p.get('nophrase')
    missing = []
    for i, (m, v) in enumerate(lines):
        k = S.choice('line' + m, ['there', 'there', 'no value', 'absent'][:p['kinds']]) if m in p['vary'] else 'there'
        if k != 'there':
            missing.append((m, k))
            S.reach(k)
    lines = [(m, None if (m, 'no value') in missing else v) for m, v in lines if (m, 'absent') not in missing]
    if p.get('order') and S.flag('translation first'):
        lines = [x for x in lines if x[0] == '\\f'] + [x for x in lines if x[0] != '\\f']
    custom = {}
    if not phrase:
        custom['make_phrase_tier'] = None
    if p.get('custom'):
        custom = {'tier_map': {'\\t': 'ww', '\\m': 'mm'}, 'tier_types': {'pp': {'type': 'phrases'}, 'ww': {'type': 'words', 'interlinear': True},
                  'mm': {'type': 'morphemes', 'interlinear': True}}, 'alignments': {'ww': ['segmentation', 'pp'], 'mm': ['alignment', 'ww']},
                  'make_phrase_tier': ['ww', 'pp'], 'igt_attribute_map': {'\\x': 'ex', '\\ref': 'r'}}
    if p.get('fewer'):
        # the defaults for tiers that no marker is mapped to are of no effect
        custom = {'tier_map': {k: v for k, v in tb.default_tier_map.items() if k in p['fewer']}}
        S.reach('fewer')
    W, M, P, G, T = ('ww', 'mm', 'pp', None, None) if p.get('custom') else ('w', 'm', 'p', 'g', 't')
    if p.get('fewer'):
        G, T = 'g' if '\\g' in p['fewer'] else None, 't' if '\\f' in p['fewer'] else None
    Toolbox.recs = [({'\\id': 'the id', '\\ref': 'r1'}, lines)]
    igts = list(tb.toolbox_igts(iter([]), options(tb, custom)))
    have = {m: v for m, v in lines}
    if have.get('\\m') is not None and '\\t' not in have or G is not None and have.get('\\g') is not None and '\\m' not in have:
        # the stand-in rejects them
        S.require(igts == [] and 40 in [x[0] for x in S.logs()], 'a rejected record is reported')
        S.reach('rejected')
        return
    if len(igts) == 0:
        # alignments between lines without values do not fit
        S.require([v for m, v in lines if v is None] != [], 'the record is imported')
        S.require(40 in [x[0] for x in S.logs()], 'a rejected record is reported')
        return
    S.require(len(igts) == 1, 'one igt')
    igt = igts[0]
    XigtCorpus(igts=[igt])
    S.require(igt.id == 'r1', 'the id is the key')
    want = {'corpus-id': 'the id'} if not p.get('custom') else dict([('r', 'r1')] + ([('ex', 'other')] if have.get('\\x') else []))
    S.require(dict(igt.attributes) == want, 'the attributes')
    order = []
    names = {'\\t': W, '\\m': M, '\\g': G, '\\f': T}
    types = {W: 'words', M: 'morphemes', G: 'glosses', T: 'translations', P: 'phrases'}
    for m, v in lines:
        if m == '\\t' and phrase:
            order.append(P)
        if names.get(m) is not None:
            order.append(names[m])
    S.require([x.id for x in igt] == order and [x.type for x in igt] == [types[x] for x in order], 'the tiers, in order')
    texts = {'\\t': words, '\\m': flat, '\\g': [x for g in gl for x in g], '\\f': [t]}
    if phrase and '\\t' in have:
        S.require([x.text for x in igt[P]] == [' '.join(words) if have['\\t'] is not None else ''], 'the phrase')
    whole = all([v is not None for m, v in lines])
    for m in names:
        if names[m] is None or m not in have:
            continue
        tier = igt[names[m]]
        ids = [x.id for x in tier]
        S.require(len(set(ids)) == len(ids), 'ids of items')
        if have[m] is None:
            S.require(len(tier) == 0, 'no items without a value')
        elif whole:
            S.require([x.text for x in tier] == texts[m], 'every token is an item, in order')
    if not whole:
        return
    if phrase and '\\t' in have:
        for x in igt[W]:
            S.require(value_of(igt, x) == (x.text, [P + '1']), 'the segment of a word is the word')
        S.reach('phrase')
    if '\\m' in have:
        tgts = [i for i, g in enumerate(morphs) for _ in g]
        for x, i in zip(igt[M], tgts):
            v, ids = value_of(igt, x)
            S.require(ids == [igt[W][i].id], 'morphemes belong to their word')
            S.require(v in words[i], 'the segment of a morpheme is in the word')
            if len(morphs[i]) == 1:
                S.require(v == words[i], 'a single morpheme is the word')
        S.reach('morphemes')
    if '\\g' in have and G:
        tgts = [i for i, g in enumerate(gl) for _ in g]
        for x, i in zip(igt[G], tgts):
            S.require(value_of(igt, x) == (flat[i], [igt[M][i].id]), 'glosses belong to their morpheme')
        S.reach('glosses')
    if '\\f' in have and T and phrase and [m for m, _ in lines].index('\\f') > 0 and '\\t' in have:
        S.require([value_of(igt, x)[1] for x in igt[T]] == [[P + '1']], 'the translation belongs to the phrase')
        S.reach('translation')


def records(S):
    """every record is imported or reported; none affects the others"""
    tb = importer(S)
    p = S.params
    Toolbox.recs = []
    want = []
    bad = 0
    last = None
    for i in range(p['n']):
        kind = S.choice('kind%d' % i, ['plain', 'digit', 'header', 'nokey', 'badid', 'rejected', 'mismatch', 'part'])
        key = {'plain': 'r%d' % i, 'digit': (S.choice('pre%d' % i, ['%d.x', '-%d', '_%d', '.%d']) if kind == 'digit' else '%d') % i, 'header': None, 'nokey': '', 'badid': S.choice('bad%d' % i, ['r 1', '\xe9 2', '12 3', 'a:b']) if kind == 'badid' else 'b'}.get(kind, 'k%d' % i)
        if S.flag('id%d' % i):
            last = 'c%d' % i
        ctx = {'\\id': last, '\\ref': key}
        t = tok(S, 't%d' % i)
        data = [('\\t', t + ' z'), ('\\m', 'bad' if kind == 'rejected' else 'x|y')]
        if kind == 'mismatch':
            data.append(('\\q', 'one'))
        if kind == 'part':
            data = [('\\f', t)]
        Toolbox.recs.append((ctx, data))
        S.reach(kind)
        if kind in ('plain', 'digit'):
            want.append(('igt' + key if kind == 'digit' else key, last, t + ' z'))
        elif kind == 'part':
            want.append((key, last, None))
        elif kind != 'header':
            bad += 1
    # another tier aligned to the words, but not interlinear
    custom = {'tier_map': dict(list(tb.default_tier_map.items()) + [('\\q', 'q')]),
              'tier_types': dict(list(tb.default_tier_types.items()) + [('q', {'type': 'notes'})]),
              'alignments': dict(list(tb.default_alignments.items()) + [('q', ['alignment', 'w'])])}
    xc = XigtCorpus(igts=list(tb.toolbox_igts(iter([]), options(tb, custom))))
    got = [(g.id, g.attributes.get('corpus-id'), g['p'][0].text if g.get('p') is not None else None) for g in xc]
    for g in xc:
        if g.get('p') is None:
            S.require(len(g) == 1 and dict(g[0].attributes) == {} and len(g[0]) == 1 and dict(g[0][0].attributes) == {}, 'tiers of another record')
    S.require(got == want, 'the other records are imported, in order')
    S.require([x[0] for x in S.logs()] == [40] * bad, 'every rejected record is reported')


TA = ['\\t', '\\m', '\\g', '\\f', '\\x']


def t_shapes(t):
    out = [dict(words=2, kinds=1, vary=[]), dict(words=1, kinds=4, vary=TA), dict(words=1, kinds=2, vary=[], glosses=True, order=True),
           dict(words=2, kinds=4, vary=['\\x', '\\m'], custom=True), dict(words=1, kinds=1, vary=[], nophrase=True),
           dict(words=2, kinds=2, vary=['\\f'], fewer=['\\t', '\\m', '\\f']), dict(words=1, kinds=4, vary=['\\g', '\\m'], fewer=['\\t', '\\m'])]
    if t != 'quick':
        out += [dict(words=2, kinds=1, vary=[], glosses=True), dict(words=2, kinds=4, vary=TA, order=True), dict(words=3, kinds=1, vary=[])]
    return out


HARNESSES = [('tiers', t_shapes, ['no value', 'absent', 'rejected', 'phrase', 'morphemes', 'glosses', 'translation', 'fewer']),
             ('records', lambda t: [dict(n=1), dict(n=2)] + ([] if t == 'quick' else [dict(n=3)]), ['plain', 'digit', 'header', 'nokey', 'badid', 'rejected', 'mismatch', 'part'])]
