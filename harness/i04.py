"""I04: columns of Toolbox lines."""
from xigt.codecs import xigtxml
from harness.i02 import Toolbox, importer, tok

PROPERTY = 'I04'
BOUNDS = ('lines of up to 4 characters (thorough: 5), each white space of any kind, or a character of one to four bytes; files of up to 3 such lines')
ASSUMES = ['files are in UTF-8', 'toolbox is a stand-in (it is not installed)']
CHARS = 'ab \t\r\x0b\x1c\x85\xa0\xe9\u3000\u4e2d\U00010000'
SPACE = ' \t\n\r\x0b\x0c'


def tokens(S, line):
    """the tokens of a line and the bytes they start at"""
    out, at, now = [], 0, None
    for c in line:
        if c in SPACE:
            now = None
        elif now is None:
            now = [at, c]
            out.append(now)
        else:
            now[1] = now[1] + c
        at += 1 if c < '\x80' else 2 if c < '\u0800' else 3 if c < '\U00010000' else 4
    return out, at


def respaced(S, line, got):
    toks, width = tokens(S, line)
    end = 0
    for at, t in toks:
        S.require(all([c in SPACE for c in got[end:at]]), 'only white space between tokens')
        S.require(got[at:at + len(t)] == t, 'tokens start at the columns they had in the file')
        S.reach('token')
        if at > len(t) and end:
            S.reach('several')
        end = at + len(t)
    S.require(all([c in SPACE for c in got[end:]]), 'nothing after the last token')
    if toks:
        S.require(len(got) == width, 'lines keep their width')


def columns(S):
    tb = importer(S)
    line = S.str('line', 0, S.params['n'], CHARS)
    nl = S.choice('nl', ['', '\n'])
    got = tb._respace_decode((line + nl).encode('utf-8'), 'utf-8')
    respaced(S, line, got)
    if all([c < '\x80' for c in line]) and line.strip() != '':
        S.require(got == line, 'lines of ASCII stay as they are')
        S.reach('ascii')


def lines(S):
    """toolbox is given the lines of the file, and its records are written"""
    tb = importer(S)
    p = S.params
    given = []

    def read_toolbox_file(ls):
        given.extend(ls)
        return given
    S.stub_module('toolbox', ToolboxError=Toolbox.ToolboxError, ToolboxWarning=Toolbox.ToolboxWarning, read_toolbox_file=read_toolbox_file,
                  records=Toolbox.records, normalize_record=Toolbox.normalize_record, align_fields=Toolbox.align_fields)
    tb.toolbox.read_toolbox_file = read_toolbox_file
    text = [S.str('l%d' % i, 0, p['len'], 'a \xe9\u4e2d') for i in range(S.size('lines', 0, p['n']))]
    src = S.put_file('in.txt', '\n'.join(text) + ('\n' if S.flag('last newline') else ''))
    out = S.mkpath('out.xml')
    ws = [tok(S, 'w%d' % i) for i in range(S.size('records', 0, 2))]
    Toolbox.recs = [({'\\ref': None}, [('\\t', 'header')])] + [({'\\ref': 'r%d' % i}, [('\\t', w), ('\\f', 'free')]) for i, w in enumerate(ws)]
    tb.xigt_import(src, out, None)
    want = [x for x in text]
    # the last line may be empty
    while want and want[-1] == '':
        want.pop()
    while given and given[-1] == '':
        given.pop()
    S.require(len(given) <= len(text), 'no other lines')
    for i, l in enumerate(want):
        respaced(S, l, given[i] if i < len(given) else '')
    with open(out, 'r') as f:
        xc = xigtxml.load(f)
    S.require([(g.id, g['w'][0].text, g['t'][0].text) for g in xc] == [('r%d' % i, w, 'free') for i, w in enumerate(ws)], 'the records are written')
    S.reach('written')


HARNESSES = [('columns', lambda t: [dict(n=4)] if t == 'quick' else [dict(n=5)], ['token', 'several', 'ascii']),
             ('lines', lambda t: [dict(n=2, len=2)] + ([] if t == 'quick' else [dict(n=3, len=2)]), ['written', 'token'])]
