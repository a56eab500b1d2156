"""P04: XigtPath groups of alternatives."""
from xigt import xigtpath as xp
from harness.paths import corpus, igt, tier, item, metadata, meta, child, nodes, render, evaluate, agree

PROPERTY = 'P04'
BOUNDS = ('groups of one to three alternatives (relative or absolute, of one or two steps, with predicates on an arbitrary '
          'one-character text, with nested groups) at the start, in the middle or at the end of a path, after steps with no, one '
          'or several results, followed by steps or predicates, and inside predicates')
ASSUMES = ['results of an alternative that is followed by steps are objects']


def document(S):
    ty = S.str('ty', 1, 1, 'ab')
    a1, a2 = item('a1', 'x', attrs={'k': S.str('k', 1, 1, 'ab')}), item('a2', 'y')
    md = metadata([meta([child('x')])])
    i1 = igt('i1', [tier('ta', [a1, a2], type=ty), tier('tb', [item('b1', 'z')], type='b')], md=[md])
    i2 = igt('i2', [tier('tc', [], type='a')])
    return corpus([i1, i2] if not S.params.get('none') else [], id='c')


def name(x, *preds):
    return ('', [('/', ('n', None, x), list(preds))])


def attr(a, v):
    return (('', [('/', ('@', None, a), [])]), '=', v)


def alternative(S, label, kind, depth):
    """an alternative that makes sense below an object of the given kind"""
    lit = S.str('lit', 1, 1, 'ab')
    below = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item'}
    opts = ['missing', 'star', 'absolute', 'self']
    if kind in below:
        opts += ['child', 'childpred']
    if kind == 'igt':
        opts += ['metadata', 'two']
    if depth:
        opts += ['nested', 'group after nothing']
    if S.params.get('first') and label == 'alt0':
        opts = [S.params['first']]
    how = S.choice(label, opts)
    if how == 'missing':
        return name('zz')
    if how == 'star':
        return ('', [('/', ('n', None, '*'), [])])
    if how == 'absolute':
        return ('/', [('/', ('n', None, 'igt'), [])])
    if how == 'self':
        return ('', [('/', ('.',), [attr('type', lit)])])
    if how == 'child':
        return name(below[kind])
    if how == 'childpred':
        return name(below[kind], attr('type', lit))
    if how == 'metadata':
        return name('metadata')
    if how == 'two':
        return ('', [('/', ('n', None, 'tier'), []), ('/', ('n', None, 'item'), [])])
    inner = ('g', [alternative(S, label + '.a', kind, depth - 1), ('', [('/', ('f', 'text', []), [])]), name('zz')])
    if how == 'nested':
        return ('', [('/', inner, [])])
    return ('', [('/', ('n', None, 'zz'), []), ('/', inner, [])])


def group(S):
    p = S.params
    doc = document(S)
    where = p['where']
    kind = {'start': p.get('from', 'corpus'), 'mid': 'igt', 'deep': 'tier', 'pred': 'tier', 'nothing': 'igt'}[where]
    g = ('g', [alternative(S, 'alt%d' % i, kind, p.get('depth', 0)) for i in range(p['n'])])
    if where == 'start':
        steps = [('/', g, [])]
        start = ''
    elif where == 'mid':
        steps, start = [('/', ('n', None, 'igt'), []), ('/', g, [])], '/'
    elif where == 'nothing':
        steps, start = [('/', ('n', None, 'yy'), []), ('/', g, [])], '/'
    elif where == 'deep':
        steps, start = [('/', ('n', None, 'tier'), []), ('/', g, [])], '//'
    else:
        steps, start = [('/', ('n', None, 'tier'), [(('', [('/', g, [])]), None)])], '//'
    tail = S.choice('tail', [None, 'pred', 'step', 'star'])
    if tail == 'pred':
        steps[-1][2].append(attr('type', S.str('tlit', 1, 1, 'ab')))
    elif tail == 'step':
        steps.append(('/', ('..',), []))
    elif tail == 'star':
        steps.append(('/', ('n', None, '*'), []))
    path = (start, steps)
    text = render(path, p.get('gap', ''))
    ctx = [n for n in nodes(doc) if n.name == {'corpus': 'xigtcorpus'}.get(kind, kind)] if where == 'start' else [doc]
    for n in ctx:
        want = evaluate(n, path)
        got = xp.findall(n.obj, text)
        S.require(agree(got, want), 'results of a path with a group')
        S.require(agree([xp.find(n.obj, text)], [want[0] if want else None]), 'find gives the first result')
        S.reach('some' if want else 'none')
        S.observe(len(got))
    S.reach(where)
    S.reach(tail or 'end')


def shapes(t):
    out = [dict(where='start', n=1, depth=1), dict(where='start', n=2, gap=' '), dict(where='start', n=2, **{'from': 'igt'}),
           dict(where='mid', n=2), dict(where='mid', n=1, depth=1), dict(where='deep', n=2), dict(where='pred', n=2),
           dict(where='nothing', n=1, depth=1), dict(where='mid', n=2, none=True),
           dict(where='mid', n=2, depth=1, first='group after nothing')]
    if t != 'quick':
        out += [dict(where=w, n=3) for w in ('start', 'mid', 'deep')]
        out += [dict(where=w, n=2, depth=1) for w in ('start', 'mid', 'deep', 'pred', 'nothing')]
        out += [dict(where=w, n=1, depth=2) for w in ('start', 'mid', 'deep')]
    return out


HARNESSES = [('group', shapes, ['some', 'none', 'start', 'mid', 'deep', 'pred', 'nothing', 'end', 'step', 'star'])]
