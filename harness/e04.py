"""E04: configured tiers and substitutions in LaTeX output."""
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.exporters import latex
from xigt.exporters.util import sub

PROPERTY = 'E04'
BOUNDS = ('examples of words and glosses, one or two items each, with a translation, texts of up to 2 characters out of three letters; up to two '
          'rules for items and one for lines out of a list with plain, pattern, group and function replacements, for one kind of tier, several or all; an export after one with another configuration')
ASSUMES = ['the patterns and functions of substitutions are valid']

#        tiers it is for, what it does, as configured
RULES = {'plain': ([['a', 'b']], lambda s: s.replace('a', 'b')),
         'chain': ([['a', 'b'], ['b', 'cc']], lambda s: s.replace('a', 'b').replace('b', 'cc')),
         'group': ([['(a)(.)', '\\2\\1']], lambda s: swap(s)),
         'func': ([['[ab]', ['m', 'm.group(0).upper()']]], lambda s: s.replace('a', 'A').replace('b', 'B')),
         'mixed': ([['b', ['m', '"<" + m.group() + ">"']], ['<', '']], lambda s: s.replace('b', 'b>')),
         'start': ([['^a', 'x']], lambda s: 'x' + s[1:] if s[:1] == 'a' else s),
         'nothing': ([['z', 'y']], lambda s: s)}
FOR = {'words': ['words'], 'glosses': ['glosses'], '.*': ['words', 'glosses', 'translations'], 'words|translations': ['words', 'translations'],
       'w': ['words'], 'ords': [], 'gloss': ['glosses'], '': ['words', 'glosses', 'translations']}


def swap(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == 'a' and i + 1 < len(s):
            out = out + s[i + 1] + 'a'
            i += 2
        else:
            out = out + s[i]
            i += 1
    return out


def rules(S, name, n):
    conf, fs = [], []
    for i in range(n):
        which, what = S.choice('%s%dfor' % (name, i), sorted(FOR)), S.choice('%s%d' % (name, i), sorted(RULES))
        conf.append([which, RULES[what][0]])
        fs.append((FOR[which], RULES[what][1]))
        S.reach(what)
    return conf, fs


def apply(s, typ, fs):
    for types, f in fs:
        if typ in types:
            s = f(s)
    return s


def text(S, n, k):
    return S.str(n, 1, k, 'abc')


def substitute(S):
    """the substitutions of one text"""
    p = S.params
    conf, fs = rules(S, 'r', p['rules'])
    typ = S.choice('type', ['words', 'glosses'])
    s = S.str('s', 0, p['len'], 'abc ')
    S.require(sub(s, typ, conf) == apply(s, typ, fs), 'substitutions are made in order, for the tiers they are for')


def export(S):
    p = S.params
    n = p['items']
    ws, gs = [text(S, 'w%d' % i, 1) for i in range(n)], [text(S, 'g%d' % i, p['len']) for i in range(n)]
    t = text(S, 't', p['len'])
    iconf, ifs = rules(S, 'i', p['irules'])
    tconf, tfs = rules(S, 'l', p['trules'])
    igt = Igt(id='i', tiers=[
        Tier(id='o', type='other', items=[Item(id='o1', text='oo')]),
        Tier(id='w', type='words', items=[Item(id='w%d' % i, text=x) for i, x in enumerate(ws)]),
        Tier(id='g', type='glosses', alignment='w', items=[Item(id='g%d' % i, alignment='w%d' % i, text=x) for i, x in enumerate(gs)]),
        Tier(id='t', type='translations', items=[Item(id='t1', text=t)])])
    config = {}
    if p['irules']:
        config['item_substitutions'] = iconf
    if p['trules']:
        config['tier_substitutions'] = tconf
    if p.get('before'):
        # another export with a configuration of its own comes first
        other = {'item_substitutions': [['.*', [['.', 'q']]]], 'tier_substitutions': [['.*', [['$', 'r']]]], 'tier_types': ['other', 'words']}
        if S.flag('fresh'):
            igt2 = Igt(id='i', tiers=[Tier(id='o', type='other', items=[Item(id='o1', text='oo')]), Tier(id='w', type='words', items=[Item(id='w1', text='x')])])
            latex.xigt_export(XigtCorpus(igts=[igt2]), S.mkpath('other.tex'), config=other)
        else:
            latex.xigt_export(XigtCorpus(igts=[igt]), S.mkpath('other.tex'), config=other)
    out = S.mkpath('out.tex')
    latex.xigt_export(XigtCorpus(igts=[igt]), out, config=config)
    lines = S.get_file(out).split('\n')
    k = lines.index('\\ex\\gll')
    S.require(lines[k + 1] == apply(' '.join(['{' + apply(x, 'words', ifs) + '}' for x in ws]) + '\\\\', 'words', tfs), 'the words')
    S.require(lines[k + 2] == apply(' '.join(['{' + apply(x, 'glosses', ifs) + '}' for x in gs]) + '\\\\', 'glosses', tfs), 'the glosses')
    S.require(lines[k + 3] == '\\trans ' + apply(t, 'translations', tfs), 'the translation')
    S.reach('exported')


def types(S):
    """the tiers of an example are those of the configured types, in order"""
    names = ['words', 'glosses', 'morphemes', 'x', 'Words']
    igt = Igt(id='i', tiers=[Tier(id='t%d' % i, type=S.choice('type%d' % i, names + [None]), items=[Item(id='i%d' % i, text='abcd'[i])]) for i in range(S.params['tiers'])])
    conf = S.choice('conf', [None, ['words', 'x'], ['glosses', 'words'], []])
    config = latex.prepare_config(None if conf is None else {'tier_types': conf})
    use = conf if conf is not None else ['words', 'morphemes', 'glosses']
    want = [t for t in igt if t.type is not None and t.type.lower() in use]
    out = latex.export_igt(igt, config).split('\n')
    if len(want) < 2:
        S.require(all([l[:1] == '%' for l in out]), 'no example without two tiers')
        S.reach('none')
    else:
        S.require(out[1] == '\\ex\\g' + 'l' * len(want), 'one line for each tier')
        S.require([x.replace('{', '').replace('}', '').replace('\\', '').strip() for x in out[2:2 + len(want)]] == [t[0].text for t in want], 'the tiers, in order')
        S.reach('example')


def e_shapes(t):
    out = [dict(items=1, len=1, irules=0, trules=0, before=True), dict(items=1, len=1, irules=1, trules=0, before=True), dict(items=2, len=1, irules=1, trules=0), dict(items=1, len=1, irules=0, trules=1)]
    if t != 'quick':
        out += [dict(items=1, len=1, irules=1, trules=1), dict(items=1, len=1, irules=2, trules=0)]
    return out


HARNESSES = [('substitute', lambda t: [dict(rules=1, len=3), dict(rules=2, len=1)] + ([] if t == 'quick' else [dict(rules=1, len=5), dict(rules=2, len=2)]), sorted(RULES)),
             ('export', e_shapes, ['exported']), ('types', lambda t: [dict(tiers=2), dict(tiers=3)], ['none', 'example'])]
