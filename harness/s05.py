"""S05: what xigt validate prints and how it ends."""
from xigt.scripts import xigt_validate
from harness.scripts import outcome
from harness.s04 import xml, ERROR, WARNING, INFO

PROPERTY = 'S05'
BOUNDS = ('up to four files in any order, each fine or with problems of every level in every place, or cut off, or not loadable '
          'because of equal ids, early or late in the file; every verbosity; with and without colors; ids of one or two arbitrary letters')
ASSUMES = ['logging is not configured before the command']
LEVEL = {'-q': 60, '': 40, '-v': 30, '-vv': 20}


def document(S, f, kinds, seen):
    """(text, loads, [(path, level, id)] of problems, {path: id})"""
    has = {k: S.flag('%s%d' % (k, f)) if k in kinds else False for k in ('nocorpus', 'noigt', 'notype', 'noitem', 'dupitem', 'dupigt')}
    bad = S.choice('bad%d' % f, ['', 'cut', 'end', 'duptier']) if 'bad' in kinds else ''
    cid = None if has['nocorpus'] else S.str('cid%d' % f, 1, 1, 'cdef' if S.params['files'] > 3 else 'cd')
    iid = S.str('iid%d' % f, 1, 2, 'ij') if 'iid' in kinds else 'i'
    names, problems = {}, []
    names[()] = cid
    if cid is None:
        problems.append(((), INFO))
    elif cid in seen:
        problems.append(((), ERROR))
    doc = ''
    for g in range(2):
        names[g,] = None if has['noigt'] and g == 1 else iid if g == 0 or has['dupigt'] else iid + 'x'
        if names[g,] is None:
            problems.append(((1,), WARNING))
        elif g == 1 and has['dupigt']:
            problems.append(((1,), ERROR))
        body = ''
        for t in range(2):
            names[g, t] = 't%d' % t
            typ = None if has['notype'] and (g, t) == (0, 1) else 'x'
            if typ is None:
                problems.append(((g, t), WARNING))
            xid = None if has['noitem'] and (g, t) == (0, 0) else 'x' if has['dupitem'] and g == 0 else 'x%d' % t
            names[g, t, 0] = xid
            if xid is None:
                problems.append(((g, t, 0), WARNING))
            elif has['dupitem'] and (g, t) == (0, 1) and not has['noitem']:
                problems.append(((g, t, 0), ERROR))
            body += xml('tier', [('id', 't%d' % t), ('type', typ)], xml('item', [('id', xid)], 'y'))
        if g == 1 and bad == 'duptier':
            body += xml('tier', [('id', 't0'), ('type', 'x')])
        if g == 1 and bad == 'cut':
            body += '<tier><item>'
            doc += '<igt>' + body
        else:
            doc += xml('igt', [('id', names[g,])], body)
    doc = xml('xigt-corpus', [('id', cid)], doc)
    if bad == 'cut':
        doc = doc[:doc.index('<tier><item>')]
    elif bad == 'end':
        doc = doc[:-1]
    return doc, bad == '', problems, names


def uncolored(text):
    """without the escape sequences of colors"""
    parts = text.split('\033[')
    return parts[0] + ''.join([x[x.find('m') + 1:] for x in parts[1:]])


def verdict(S):
    p = S.params
    verb = S.choice('verbosity', p['verb'])
    level = LEVEL[verb]
    color = bool(p.get('color')) and S.flag('color')
    seen, files = [], []
    for f in range(p['files']):
        doc, loads, problems, names = document(S, f, p['kinds'][f], seen)
        files.append((S.put_file('f%d.xml' % f, doc), loads, problems, names))
        if loads and names[()] is not None:
            seen.append(names[()])
    how = outcome(xigt_validate.main, ([verb] if verb else []) + (['--color'] if color else []) + [x[0] for x in files])
    lines = (uncolored(S.stdout()) if color else S.stdout()).split('\n')
    good, headings, levels = True, [], []
    for i, (path, loads, problems, names) in enumerate(files):
        if not loads:
            good = False
            headings.append(None)
            S.reach('broken')
            continue
        kept = [x for x in problems if x[1] >= level]
        if kept:
            good = False
        else:
            S.reach('fine')
        order = sorted(set(x[0][:k] for x in kept for k in range(len(x[0]) + 1)))
        for node in order:
            idx = i if node == () else node[-1]
            name = names[node]
            headings.append(' ' * len(node) + ['corpus', 'igt', 'tier', 'item'][len(node)] + ' %d ' % idx
                            + ('' if name is None else '(id: "' + name + '")'))
            levels += sorted([x[1] for x in kept if x[0] == node])
    S.require(how == ('exit', 0 if good else 1), 'the exit status')
    S.reach('passed' if good else 'failed')
    S.require(lines[-1] == '', 'the last line')
    lines = lines[:-1]
    S.require(len(lines) == len(headings), 'one line for each part with problems and each file that does not load')
    n = 0
    for line, h in zip(lines, headings):
        if h is None:
            while files[n][1]:
                n += 1
            S.require(files[n][0] in line, 'the file that does not load is named')
            n += 1
        else:
            S.require(line.rstrip(' ') == h.rstrip(' '), 'the parts that have problems')
    # (problems of one part may come in any order)
    S.require([x[0] for x in S.logs()] == levels if len(p['kinds'][0]) < 3 else sorted([x[0] for x in S.logs()]) == sorted(levels),
              'the problems reported')


def shapes(t):
    al = ['nocorpus', 'noigt', 'notype', 'noitem', 'dupitem', 'dupigt']
    out = [dict(files=1, kinds=[al], verb=['-q', '', '-v', '-vv']),
           dict(files=2, kinds=[['bad', 'dupitem'], ['bad', 'notype']], verb=['', '-v']),
           dict(files=2, kinds=[['nocorpus', 'bad'], ['nocorpus', 'noigt', 'iid']], verb=['-vv', ''])]
    out.append(dict(files=4, kinds=[['notype', 'bad'], ['noigt'], [], ['noitem']], verb=['', '-v']))
    out.append(dict(files=2, kinds=[['notype', 'dupitem'], ['noitem', 'bad']], verb=['', '-vv'], color=True))
    out.append(dict(files=3, kinds=[['nocorpus'], ['bad'], ['nocorpus']], verb=['-q', '', '-vv']))
    if t != 'quick':
        out += [dict(files=3, kinds=[['bad', 'noigt'], ['bad', 'notype'], ['bad', 'dupitem']], verb=['-q', '', '-v']),
                dict(files=2, kinds=[al, al], verb=['', '-v', '-vv'])]
    return out


HARNESSES = [('verdict', shapes, ['fine', 'broken', 'passed', 'failed'])]
