"""P05: XigtPath expressions are read token by token, blanks between them do not matter."""
from xigt import xigtpath as xp
from xigt.xigtpath import XigtPathError
from harness.common import raises
from harness.paths import corpus, igt, tier, item, metadata, meta, child, render, evaluate, agree, quote

PROPERTY = 'P05'
BOUNDS = ('sequences of up to two (thorough: three) tokens that may follow each other (axes, brackets, comparisons, | and comma, names of 1..2 '
          'characters, names that begin with the name of a function, prefixed names, functions, quoted strings of 0..2 arbitrary '
          'characters), with no blank or an arbitrary white-space character in between; a dozen whole paths with arbitrary white '
          'space of up to one character at each of the places between their tokens; two paths one after the other')
ASSUMES = ['names have no blanks, quotes, commas or brackets']


def token(S, label, prev):
    """(text, kind)"""
    opts = ['sep', 'name', 'function', 'punct', 'string', 'comma']
    k = S.choice(label, opts)
    if k == 'name':
        # a name cannot follow a name
        S.assume(prev != 'name')
        form = S.choice(label + '.form', ['plain', 'word', 'prefixed', 'dotted', 'star'])
        if form == 'star':
            return '*', 'star'
        if form == 'plain':
            return S.str(label + '.name', 1, 2, 'ab1_-'), 'name'
        if form == 'word':
            return S.choice(label + '.fn', ['text', 'value', 'referent', 'referrer']) + S.str(label + '.rest', 0, 1, 's-'), 'name'
        if form == 'prefixed':
            return 'p:' + S.str(label + '.name', 1, 1, 'ab*'), 'name'
        return 'a.' + S.str(label + '.name', 1, 1, 'b.'), 'name'
    if k == 'function':
        S.assume(prev != 'name')
        return S.choice(label + '.fn', ['text', 'value', 'referent', 'referrer']), 'function'
    if k == 'sep':
        S.assume(prev not in ('/', '.', '//'))
        s = S.choice(label + '.sep', ['/', '//', '.', '..', '@'])
        return s, ('.' if s[0] == '.' else s)
    if k == 'string':
        return quote(S.str(label + '.str', 0, 1, 'a"\\]/|, \n')), 'string'
    if k == 'comma':
        return ',', 'punct'
    s = S.choice(label + '.punct', ['[', ']', '|', '=', '!=', ')'])
    return s, 'punct'


def tokens(S):
    toks, text, prev = [], S.str('lead', 0, 1, ' \t'), None
    for i in range(S.params['k']):
        t, kind = token(S, 't%d' % i, prev)
        gap = '' if i == 0 else S.str('gap%d' % i, 0, 1, ' \t\n') if i == S.params['gap'] else ''
        if kind == '.' and prev == 'name':
            S.assume(False)     # (no path has this)
        if prev in ('name', 'star') and kind == '@':
            S.assume(False)     # (no path has this)
        if prev == 'star' and kind == 'name':
            S.assume(False)
        text += gap + t
        toks.append(t)
        prev = kind
        if kind == 'function':
            text += S.str('call%d' % i, 0, 1, ' ') + '()'
            toks.append('(')
            toks.append(')')
            prev = 'punct'
    got = xp.tokenize(text)
    S.require(got == toks, 'tokens of a path')
    S.reach(prev)
    S.observe(got)


PATHS = ['/ igt / tier [ @ type = "a b" ] / item', '// item [ .. / @ type != "b" ] [ text ( ) = "x" ] / value ( )',
         'igt / ( tier | metadata / meta | . ) / *', '// item / referent ( "alignment" , "segmentation" )',
         '( / igt / tier | // item ) [ @ id ]', '// tier [ item [ text ( ) = "y" ] / @ k ] / .. / @ id',
         'igt // p:x / @ p:k', '/ .', 'igt / .. // meta [ x ] / text ( )', '// item [ referrer ( "alignment" ) ] / @ id',
         '// value / @ text', '// item [ @ k = ab-1.5 ]']


def blanks(S):
    path = S.params['path']
    w1 = item('w1', 'x', attrs={'k': 'ab-1.5'})
    doc = corpus([igt('i', [tier('w', [w1, item('w2', 'y', attrs={'k': '1'})], type='a b'),
                            tier('g', [item('g1', 'z', refs={'alignment': ['w1']})], type='b', refs={'alignment': ['w']})],
                      md=[metadata([meta([child('x', ns='u', attrs={'{u}k': '1'}), child('value', attrs={'text': 'T'})], text='t')])])])
    parts = path.split(' ')
    # (blanks that are part of a string are not between tokens)
    out, open_ = '', False
    n = 0
    for i, x in enumerate(parts):
        if i:
            if open_:
                out += ' '
            else:
                out += S.str('gap%d' % n, 0, 1, ' \n') if n in S.params['at'] else ''
                n += 1
        out += x
        if x.count('"') == 1:
            open_ = not open_
    want = xp.findall(doc.obj, path)
    got = xp.findall(doc.obj, out)
    S.require(len(want) > 0, 'the path has results')
    S.require(len(got) == len(want), 'blanks change the number of results')
    for g, w in zip(got, want):
        S.require(g is w or (isinstance(w, str) and g == w), 'blanks change the results')
    S.reach('blanks')


def following(S):
    """what a path means does not depend on the paths before it"""
    doc = corpus([igt('i', [tier('w', [item('w1', 'ab'), item('w2', 'a b'), item('w3', 'A"b')])])])
    a, b = S.str('a', 1, 3, 'ab A'), S.str('b', 0, 3, 'ab A"')
    for x in (a, b):
        x = quote(x)
        gap = ' ' if S.flag('gap') else ''
        path = '//item' + gap + '[text()=' + gap + x + gap + ']'
        S.require(xp.tokenize(path) == ['//', 'item', '[', 'text', '(', ')', '=', x, ']'], 'tokens of a path after another')
        xp.tokenize(path).append('/')
        hits = xp.findall(doc.obj, path)
        want = [i.obj for t in doc.kids[0].kids for i in t.kids if quote(i.obj.text) == x]
        S.require(len(hits) == len(want) and all([h is o for h, o in zip(hits, want)]), 'results of a path after another')
        xp.findall(doc.obj, path).append(None)
        S.reach('some' if want else 'none')


def endings(S):
    """a path cannot end with a slash; a path of blanks gives nothing"""
    doc = corpus([igt('i', [])])
    text = S.str('text', 0, 3, 'ig/ .')
    if len(text) and text[-1] == '/':
        S.require(raises(lambda: xp.findall(doc.obj, text), XigtPathError) is not None, 'a path that ends with /')
        S.require(raises(lambda: xp.find(doc.obj, text), XigtPathError) is not None, 'a path that ends with /')
        S.reach('slash')
    elif text.strip(' ') == '':
        S.require(xp.findall(doc.obj, text) == [] and xp.find(doc.obj, text) is None, 'an empty path')
        S.reach('empty')


def tshapes(t):
    ks = [(1, 0), (2, 1)] if t == 'quick' else [(1, 0), (2, 1), (3, 1), (3, 2)]
    return [dict(k=k, gap=g) for k, g in ks]


def bshapes(t):
    out = []
    for p in PATHS:
        n = p.count(' ')
        step = 5 if t == 'quick' else 7
        for i in range(0, n, step):
            out.append(dict(path=p, at=list(range(i, i + step))))
    return out


HARNESSES = [('tokens', tshapes, ['name', 'star', 'string', 'punct', '/', '//', '.', '@']),
             ('blanks', bshapes, ['blanks']), ('following', lambda t: [{}], ['some', 'none']), ('endings', lambda t: [{}], ['slash', 'empty'])]
