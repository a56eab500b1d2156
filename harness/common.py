"""Shared builders for harnesses (runs both transformed and native)."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
PRINT = ''.join(chr(c) for c in range(32, 127))


def raises(fn, *excs):
    """the exception of the listed kinds that fn() raises, else None"""
    try:
        fn()
    except excs as ex:
        return ex
    return None


def same(xs, ys):
    """same objects in the same order"""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if x is not y:
            return False
    return True


def one(tier='quick'):
    return [{}]


def count_of(xs, x):
    n = 0
    for y in xs:
        if y == x:
            n += 1
    return n


def number(S, name, signs):
    n = S.str(name, 1, 1, '0123456789')
    if signs and S.flag(name + '.neg'):
        n = '-' + n
    return n


def expression(S, ids, k, nspans, delims=',+', signs=True, name=''):
    """A reference expression of k selections on the given ids.

    Returns (text, [(delimiter, id, [(delimiter, start, end), ...] or None)]),
    start and end as written.
    """
    text = ''
    sels = []
    for i in range(k):
        d = '' if i == 0 else S.str('%sd%d' % (name, i), 1, 1, delims)
        x = ids[i % len(ids)] if not S.params.get('anyid') else S.choice('%sid%d' % (name, i), ids)
        text += d + x
        n = S.choice('%sn%d' % (name, i), list(range(nspans + 1)))
        spans = None
        if n:
            spans = []
            text += '['
            for j in range(n):
                sd = '' if j == 0 else S.str('%ssd%d_%d' % (name, i, j), 1, 1, delims)
                a = number(S, '%ss%d_%d' % (name, i, j), signs)
                b = number(S, '%se%d_%d' % (name, i, j), signs)
                text += sd + a + ':' + b
                spans.append((sd, a, b))
            text += ']'
        sels.append((d, x, spans))
    return text, sels


def glue(d):
    return ' ' if d == ',' else ''


def resolution(sels, values):
    """what an expression stands for, given the items' values"""
    out = ''
    for d, x, spans in sels:
        out += glue(d) if d else ''
        v = values[x]
        if spans is None:
            out += v
        else:
            for sd, a, b in spans:
                out += (glue(sd) if sd else '') + v[int(a):int(b)]
    return out
