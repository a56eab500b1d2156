"""E01: texts in LaTeX output."""
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.exporters import latex

PROPERTY = 'E01'
BOUNDS = ('texts of up to 4 arbitrary characters out of the special characters of TeX, a letter, a blank and others; examples of two or three '
          'tiers with two columns each (the last with fewer items or none), texts of up to 2 characters or none, with no translation, one or two; one or two examples in a document')
ASSUMES = ['texts have no line breaks', 'a TeX reader: commands end at the first character that is not a letter, blanks after them are skipped']
COMMANDS = {'textbackslash': '\\', 'textasciitilde': '~', 'textasciicircum': '^'}
ALPHA = 'aZ0 \\{}&%$#_~^-\xe9\u4e2d'


def letter(c):
    return ('a' <= c and c <= 'z') or ('A' <= c and c <= 'Z')


def read(S, s):
    """the text that TeX sets for s; braces that do not match and active characters fail"""
    out = ''
    i, n, depth = 0, len(s), 0
    while i < n:
        c = s[i]
        if c == '\\':
            i += 1
            S.require(i < n, 'a backslash is followed by something')
            if letter(s[i]):
                j = i
                while j < n and letter(s[j]):
                    j += 1
                name = s[i:j]
                S.require(name in COMMANDS, 'the command exists')
                out = out + COMMANDS[name]
                i = j
                while i < n and s[i] == ' ':
                    i += 1
            else:
                S.require(s[i] in '{}&%$#_', 'the command exists')
                out = out + s[i]
                i += 1
        elif c == '{':
            depth += 1
            i += 1
        elif c == '}':
            depth -= 1
            S.require(depth >= 0, 'braces match')
            i += 1
        else:
            S.require(c not in '&%$#_~^', 'special characters are escaped')
            out = out + c
            i += 1
    S.require(depth == 0, 'braces match')
    return out


def escape(S):
    s = S.str('s', 0, S.params['n'], S.params.get('alpha', ALPHA))
    S.require(read(S, latex.escape(s)) == s, 'the text reads as it was')
    S.reach('special' if read_special(s) else 'plain')


def read_special(s):
    for c in s:
        if c in '\\{}&%$#_~^':
            return True
    return False


def columns(S, line):
    """the groups of a line of a gloss"""
    out = []
    i, n = 0, len(line)
    while i < n:
        if line[i] == ' ':
            i += 1
            continue
        S.require(line[i] == '{', 'columns are in braces')
        depth, j = 1, i + 1
        while depth > 0:
            S.require(j < n, 'braces match')
            if line[j] == '\\':
                j += 1
            elif line[j] == '{':
                depth += 1
            elif line[j] == '}':
                depth -= 1
            j += 1
        out.append(line[i + 1:j - 1])
        i = j
    return out


def text(S, name):
    return S.str(name, 1, S.params['n'], S.params['alpha']) if S.flag(name + '?') else None


def example(S, name):
    n = S.params['tiers']
    types = ['words', 'morphemes', 'glosses'][:n]
    texts = [[text(S, '%s%d%d' % (name, t, i)) if t in S.params['vary'] else 'x%d' % i for i in range(2)] for t in range(n)]
    # (a tier below may have fewer items, or none)
    few = S.choice(name + 'few', [2, 1, 0]) if S.params.get('few') else 2
    trans = S.choice(name + 'trans', [None, 'empty', 'text', 'two'])
    tiers = [Tier(id='t%d' % t, type=types[t].upper() if t == 1 else types[t], alignment='t%d' % (t - 1) if t else None, items=[
        Item(id='i%d%d' % (t, i), text=texts[t][i], alignment='i%d%d' % (t - 1, i) if t else None) for i in range(2 if t < n - 1 else few)]) for t in range(n)]
    for i in range(few, 2):
        texts[n - 1][i] = None
        S.reach('fewer')
    tiers.insert(1, Tier(id='n', type='notes', items=[Item(id='n1', text='no % note')]))
    tr = None
    if trans is not None:
        tr = text(S, name + 'tr') if trans in ('text', 'two') else None
        tiers.append(Tier(id='tr', type='translations', items=[Item(id='tr1', text=tr), Item(id='tr2', text='second')] if trans in ('text', 'two') else []))
    if trans == 'two':
        tiers.append(Tier(id='tr0', type='translations', items=[Item(id='tr3', text='fr\xe9 & co')]))
    return Igt(id=name, tiers=tiers), texts, {'text': 1, 'two': 2}.get(trans, 0), tr


def check_example(S, out, texts, has_trans, tr):
    n = len(texts)
    lines = out.split('\n')
    S.require(lines[0][:11] == '\\begin{exe}' and lines[-1] == '\\end{exe}', 'the frame of an example')
    S.require(lines[1] == '\\ex\\g' + 'l' * n, 'one line for each tier')
    S.require(len(lines) == 3 + n + has_trans, 'lines of an example')
    for t in range(n):
        line = lines[2 + t]
        S.require(line[-2:] == '\\\\', 'the end of a line')
        cols = columns(S, line[:-2])
        S.require(len(cols) == len(texts[t]), 'one group for each column')
        for c, want in zip(cols, texts[t]):
            S.require(read(S, c) == (want or ''), 'the text of a column')
            S.reach('text' if want is not None else 'none')
    if has_trans:
        line = lines[2 + n]
        S.require(line[:7] == '\\trans ', 'the translation')
        S.require(read(S, line[7:]) == (tr or ''), 'the text of the translation')
        S.reach('translation')
    if has_trans > 1:
        line = lines[3 + n]
        S.require(line[:7] == '\\trans ' and read(S, line[7:]) == 'fr\xe9 & co', 'the text of another translation')


def igt(S):
    g, texts, has, tr = example(S, 'g')
    check_example(S, latex.export_igt(g, latex.prepare_config(None)), texts, has, tr)


def document(S):
    """a document has every example, in order"""
    igts, wants = [], []
    for i in range(S.params['igts']):
        if S.flag('bad%d' % i):
            bad = S.choice('kind%d' % i, ['no', 'one', 'empty', 'untyped'])
            tiers = {'no': [], 'one': [Tier(id='t', type='words', items=[Item(text='x')]), Tier(id='u', type='notes')],
                     'empty': [Tier(id='t', type='words'), Tier(id='u', type='glosses', items=[Item(text='x')])],
                     'untyped': [Tier(id='t', type='words', items=[Item(text='x')]), Tier(id='u', items=[Item(text='x')])]}[bad]
            igts.append(Igt(id='bad%d' % i, tiers=tiers))
            wants.append(None)
        else:
            g, texts, has, tr = example(S, 'g%d' % i)
            igts.append(g)
            wants.append((texts, has, tr))
    path = S.mkpath('out.tex')
    latex.xigt_export(XigtCorpus(igts=igts), path)
    out = S.get_file(path)
    a, b = '\\begin{document}', '\\end{document}'
    S.require(out.count(a) == 1 and out.count(b) == 1, 'one document')
    body = out[out.index(a) + len(a):out.index(b)]
    parts = body.split('\\begin{exe}')
    S.require(len(parts) == 1 + len([w for w in wants if w is not None]), 'one example for each igt that can be shown')
    k = 0
    for w in wants:
        if w is None:
            S.reach('bad')
            continue
        k += 1
        p = parts[k]
        check_example(S, '\\begin{exe}' + p[:p.index('\\end{exe}')] + '\\end{exe}', *w)
    for line in ''.join([p if i == 0 else p[p.index('\\end{exe}') + 9:] for i, p in enumerate(parts)]).split('\n'):
        S.require(line == '' or line[0] == '%', 'nothing else is set')


def eshapes(t):
    return [dict(n=2)] + ([dict(n=3, alpha='a {~\\')] if t == 'quick' else [dict(n=3), dict(n=4, alpha='a {~\\')])


def ishapes(t):
    out = [dict(tiers=2, vary=[0], n=1, alpha='a~{ '), dict(tiers=2, vary=[1], n=2, alpha='a\\}'), dict(tiers=2, vary=[0], n=1, alpha='a~', few=True), dict(tiers=3, vary=[2], n=1, alpha='b%^')]
    if t != 'quick':
        out += [dict(tiers=3, vary=[1], n=1, alpha='a~', few=True), dict(tiers=3, vary=[0, 2], n=1, alpha='a~}&'), dict(tiers=2, vary=[0, 1], n=1, alpha='a\\{ _')]
    return out


HARNESSES = [('escape', eshapes, ['special', 'plain']), ('igt', ishapes, ['text', 'none', 'translation', 'fewer']),
             ('document', lambda t: [dict(igts=2, tiers=2, vary=[1], n=1, alpha='a~')] + ([] if t == 'quick' else [dict(igts=2, tiers=2, vary=[0], n=1, alpha='a%')]),
              ['bad', 'text'])]
