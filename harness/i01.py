"""I01: segments of words and morphemes in Toolbox records."""
from xigt import Tier, Item
from harness.common import raises

PROPERTY = 'I01'
BOUNDS = ('up to 3 words of up to 3 characters; up to 4 morphemes of 1 to 2 characters (6 in all) with any boundary marks on either '
          'side, in words that do or do not consist of them, with or without hyphens between; words of up to 4 arbitrary characters; small and capital letters, '
          'also ones whose small form is longer (I with a dot)')
ASSUMES = ['no letters but I with a dot have longer lower case forms (there are no others)', 'toolbox is a stand-in (it is not installed)']


class Toolbox(object):
    class ToolboxError(Exception):
        pass

    class ToolboxWarning(Warning):
        pass


def importer(S):
    S.stub_module('toolbox', ToolboxError=Toolbox.ToolboxError, ToolboxWarning=Toolbox.ToolboxWarning)
    from xigt.importers import toolbox
    return toolbox


def bare(m):
    return m.strip('-=~.')


def lower(c):
    for a, b in ('Aa', 'Bb', 'Cc', ('\u0130', 'i')):
        if c == a:
            return b
    return c


def raised(piece, p):
    if p.get('alpha'):      # (I with a dot)
        return ''.join(['\u0130' if c == 'i' else c.upper() for c in piece])
    return piece.upper()


def words(S):
    """the segment of each word is the word"""
    tb = importer(S)
    toks = [S.str('w%d' % i, 0, 3, 'ab-.') for i in range(S.params['n'])]
    text = ' '.join(toks)
    given = S.choice('line', ['text', 'spaced'])
    line = text if given == 'text' else '  '.join(toks) + ' '
    for s in range(len(toks)):
        beg, end, cmt = tb.align_word('words', s, (line, list(toks)))
        S.require(text[beg:end] == toks[s] and end - beg == len(toks[s]) and cmt == 0, 'the segment of a word is the word')
    S.reach('words')


def morphemes(S):
    """morphemes that make up their word"""
    tb = importer(S)
    p = S.params
    pieces, toks = [], []
    word = ''
    spans = []
    for i in range(p['n']):
        piece = S.str('m%d' % i, 1, p['len'], p.get('alpha', 'ab'))
        if i and p.get('hyphens') and S.flag('h%d' % i):
            word = word + '-'
            S.reach('hyphen')
        spans.append((len(word), len(word) + len(piece)))
        upper = p.get('upper') and S.flag('u%d' % i)
        word = word + (raised(piece, p) if upper else piece)
        l, r = S.choice('marks%d' % i, [('', ''), ('-', ''), ('', '='), ('.', '~'), ('--', '-')])
        toks.append(l + piece + r)
    for s in range(len(toks)):
        got = tb.align_word('morphemes', s, (word, list(toks)))
        S.require(got == (spans[s][0], spans[s][1], 0), 'the segment of a morpheme is its part of the word')
    S.reach('parts')


def unmatched(S):
    """any word with any morphemes"""
    tb = importer(S)
    p = S.params
    word = S.str('word', 0, p['word'], p.get('alpha', 'abA-'))
    low = ''.join([lower(c) for c in word])
    toks = [S.str('m%d' % i, 0, 2, 'ib-' if p.get('alpha') else 'ab-') for i in range(p['n'])]
    done = ''
    failed = False
    for s in range(len(toks)):
        beg, end, cmt = tb.align_word('morphemes', s, (word, list(toks)))
        S.require(0 <= beg and beg <= end and end <= len(word), 'segments are in the word')
        S.require(cmt in (0, -1), 'the kind of segmentation')
        if len(toks) == 1:
            S.require((beg, end, cmt) == (0, len(word), 0), 'a single morpheme is the word')
            S.reach('single')
            continue
        last = s == len(toks) - 1
        if cmt == 0 and not last:
            S.require(low[beg:end] == bare(toks[s]), 'a precise segment is the morpheme')
            S.reach('precise')
        if cmt == 0 and last:
            S.require(end == len(word), 'the last morpheme has the rest of the word')
            S.reach('last')
        if cmt == -1:
            S.require(end == len(word), 'an imprecise segment is the rest of the word')
            S.reach('imprecise')
        if s == 0:
            fits = low.startswith(bare(toks[0]))
            S.require((cmt == 0) == fits and beg == 0, 'the first morpheme is precise when the word starts with it')
            failed = not fits
        if failed and bare(toks[0]) != '' and low[:1] != '-':
            S.require((beg, end, cmt) == (0, len(word), -1), 'after a morpheme that does not match the rest is imprecise')
            S.reach('failed')


def m_shapes(t):
    out = [dict(n=1, len=2), dict(n=2, len=2, upper=True, hyphens=True), dict(n=3, len=1, hyphens=True), dict(n=4, len=1), dict(n=2, len=1, upper=True, hyphens=True, alpha='ib')]
    if t != 'quick':
        out += [dict(n=3, len=1, upper=True, hyphens=True, alpha='ib'), dict(n=3, len=2, hyphens=True), dict(n=4, len=1, hyphens=True), dict(n=4, len=2), dict(n=5, len=1)]
    return out


def u_shapes(t):
    out = [dict(n=1, word=3), dict(n=2, word=3), dict(n=3, word=3), dict(n=1, word=2, alpha='\u0130b'), dict(n=2, word=2, alpha='\u0130b')]
    if t != 'quick':
        out += [dict(n=2, word=3, alpha='\u0130bB-'), dict(n=2, word=5), dict(n=3, word=4), dict(n=4, word=4)]
    return out


HARNESSES = [('words', lambda t: [dict(n=n) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4))], ['words']),
             ('morphemes', m_shapes, ['parts', 'hyphen']),
             ('unmatched', u_shapes, ['single', 'precise', 'last', 'imprecise', 'failed'])]
