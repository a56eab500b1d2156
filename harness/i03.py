"""I03: ODIN files."""
import fnmatch
import glob
import os
from xigt import XigtCorpus
from xigt.codecs import xigtxml
from xigt.errors import XigtImportError
from harness.common import raises

PROPERTY = 'I03'
BOUNDS = ('up to 2 blocks of up to 2 lines; texts of lines, headers, languages and attributes of up to 3 characters out of letters, markup, '
          'control characters, surrogates, noncharacters and characters of every plane; any replacement character; files and directories of any name')
ASSUMES = ['odintxt is a stand-in that gives the blocks of the check (it is not installed)', 'texts have no carriage returns', 'there is no backslash in the suffix of files']
CHARS = 'a< \t\x01\x1f\x7f\xe9\u4e2d\ud7ff\ud800\udfff\ue000\ufffd\ufffe\uffff\U00010000\U0001f600\U0010ffff'
DC = '{http://purl.org/dc/elements/1.1/}'


class Odin(object):
    blocks = {}

    @staticmethod
    def odin_blocks(fh):
        for b in Odin.blocks[fh.read()]:
            yield b


class Glob(object):
    files = []

    @staticmethod
    def glob(pattern):
        return [f for f in Glob.files if f.count('/') == pattern.count('/') and fnmatch.fnmatchcase(f, pattern)]

    @staticmethod
    def iglob(pattern):
        return iter(Glob.glob(pattern))


def importer(S):
    S.stub_module('odintxt', odin_blocks=Odin.odin_blocks)
    S.stub_module('glob', glob=Glob.glob, iglob=Glob.iglob, escape=glob.escape)
    from xigt.importers import odin
    return odin


def ok(c):
    return c == '\t' or c == '\n' or ' ' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or '\U00010000' <= c


def expected(s, rep):
    return ''.join([c if ok(c) else rep for c in s])


def read(S, path):
    with open(path, 'r') as f:
        return xigtxml.load(f)


def text(S, n, k=2):
    return S.str(n, 1, k, CHARS)


def chars(S):
    """characters are replaced when they are not valid in XML, and only then"""
    odin = importer(S)
    t = text(S, 't', 3)
    rep = S.choice('rep', ['\ufffd', '', '?', '\\', '\\1', '\\g<0>', 'xx'])
    S.require(odin.replace_invalid_xml_chars(t, rep) == expected(t, rep), 'invalid characters are replaced, valid ones are not')
    S.reach('invalid' if expected(t, rep) != t else 'valid')


def block(S, b, p):
    v = p['vary']
    d = {'igt_id': S.choice('id%d' % b, ['i%d' % b, None]), 'doc_id': '12', 'line_range': S.choice('range%d' % b, ['3 3', '2 11']) if v == 'attrs' else '%d %d' % (b, b + 2), 'line_types': 'L G'}
    lines = []
    for i in range(S.size('lines%d' % b, 0, p['lines'])):
        ln = {'line': '%d' % i}
        if v == 'text':
            if not S.flag('no content%d%d' % (b, i)):
                ln['content'] = text(S, 'c%d%d' % (b, i), p['len'])
        else:
            ln['content'] = 'x'
        ln['tag'] = text(S, 'tag%d%d' % (b, i), 1) if v == 'attrs' else 'L'
        lines.append(ln)
    if lines != [] or S.flag('no lines%d' % b):
        d['lines'] = lines
    if v == 'headers':
        h = S.choice('headers%d' % b, ['none', 'empty', 'one', 'two'])
        if h != 'none':
            d['header_lines'] = {'empty': [], 'one': [text(S, 'h%d' % b)], 'two': ['x', text(S, 'h%d' % b)]}[h]
        S.reach(h)
    if v == 'language':
        l = S.choice('language%d' % b, ['none', 'null', 'text', 'words'][:1 if p.get('few') else 4])
        if l != 'none':
            d['language'] = {'null': None, 'text': text(S, 'l%d' % b, 1) if l == 'text' else '',
                             'words': S.choice('w%d' % b, ['tok', 'TOK', "n'"]) + ' ' + S.str('l%d' % b, 1, 2, "pP-'\xe9\xdf") if l == 'words' else ''}[l]
        if S.flag('code?%d' % b):
            d['iso-639-3'] = S.choice('code%d' % b, ['abc', '', 'a\x01', '\ud800\uffff', '<\U00010000']) + S.choice('pad%d' % b, ['', ' ', '\n'])
    if v == 'attrs':
        d['doc_id'] = text(S, 'doc%d' % b, 1)
    return d


def convert(S):
    """reading the file that was written gives all that the blocks have"""
    odin = importer(S)
    p = S.params
    blocks = [block(S, b, p) for b in range(p['blocks'])]
    Odin.blocks = {'in': blocks}
    src, out = S.put_file('in.txt', 'in'), S.mkpath('out.xml')
    opts = {}
    if S.flag('rep'):
        opts['replacement_char'] = '?'
    keep = p['vary'] == 'headers' and S.flag('keep')
    if keep:
        opts['keep_headers'] = True
    before = [dict(x) for b in blocks for x in b.get('lines', [])]
    odin.xigt_import(src, out, opts)
    S.require([dict(x) for b in blocks for x in b.get('lines', [])] == before, 'blocks are not changed')
    rep = opts['replacement_char'] if 'replacement_char' in opts else '\ufffd'
    xc = read(S, out)
    S.require(len(xc) == len(blocks), 'an igt for each block')
    for igt, b in zip(xc, blocks):
        S.require(igt.id == b['igt_id'], 'ids')
        a, z = b['line_range'].split()
        S.require(dict(igt.attributes) == {'doc-id': expected(b['doc_id'], rep).replace('\t', ' ') if p['vary'] != 'attrs' else igt.attributes['doc-id'],
                                           'line-range': a + '-' + z, 'tag-types': 'L G'}, 'attributes')
        if p['vary'] == 'attrs':
            S.require(same(igt.attributes['doc-id'], expected(b['doc_id'], rep)), 'attributes')
        S.require(len(igt) == 1 and igt[0].id == 'r' and igt[0].type == 'odin' and igt[0].attributes['state'] == 'raw', 'the raw tier')
        lines = b.get('lines', [])
        S.require([x.id for x in igt['r']] == ['r%d' % (i + 1) for i in range(len(lines))], 'a line is an item')
        for x, ln in zip(igt['r'], lines):
            S.require((x.text or '') == expected(ln.get('content', ''), rep), 'texts of lines')
            S.require(sorted(x.attributes) == ['line', 'tag'] and x.attributes['line'] == ln['line'] and same(x.attributes['tag'], expected(ln['tag'], rep)), 'attributes of lines')
            S.reach('line')
        metas = [m for md in igt.metadata for m in md]
        S.require(len(igt.metadata) == 1, 'metadata')
        if keep and b.get('header_lines'):
            want = expected('\n'.join(b['header_lines']), rep)
            S.require(len(metas) == 2 and metas[0].type == 'odin-header', 'headers are kept')
            # white space alone is no text in a file
            S.require(metas[0].text == want or metas[0].text is None and want.strip() == '', 'headers are kept')
            S.reach('kept')
        else:
            S.require(len(metas) == 1, 'no headers')
        lang = metas[-1]
        S.require([(c.name, c.namespace) for c in lang.children] == [('subject', DC[1:-1]), ('language', DC[1:-1])], 'languages')
        S.require(metas[0] is not lang or lang.id == 'meta1', 'ids of metadata')
        code = [v for k, v in lang.children[0].attributes.items() if k[-4:] == 'code']
        S.require(code == [expected(b['iso-639-3'].strip(), rep) if 'iso-639-3' in b else 'und'], 'the code of the language')
        want = expected((b.get('language') or '').strip().title(), rep)
        S.require((lang.children[0].text or '') == want, 'the name of the language')
        S.reach('language')


def same(a, b):
    """attribute values: white space is normalised by XML"""
    return a.replace('\t', ' ') == b.replace('\t', ' ')


def places(S):
    """which files are converted to which"""
    odin = importer(S)
    kind = S.choice('input', ['file', 'dir', 'missing'])
    to = S.choice('output', ['file', 'dir', 'new'])
    suffix = S.choice('suffix', [None, '.txt', '.odin', '.t+', '.[t]'])
    Odin.blocks = {'A': [dict(igt_id='a', doc_id='1', line_range='1 2', line_types='')], 'B': [dict(igt_id='b', doc_id='1', line_range='1 2', line_types='')]}
    sf = suffix or '.txt'
    name = S.choice('name', ['in', 'in[1]', 'in*'])
    src, out = S.mkpath(name), S.mkpath('out')
    # (only the end is the suffix)
    names = ['x' + sf, 'y' + sf + '.z' + sf, 'other']
    if kind == 'file':
        S.put_file(name, 'A')
    if kind == 'dir':
        os.mkdir(src)
        Glob.files = []
        for n, t in zip(names, ['A', 'B', 'A']):
            with open(src + '/' + n, 'w') as f:
                f.write(t)
            Glob.files.append(src + '/' + n)
    if to == 'file':
        S.put_file('out', 'old')
    if to == 'dir':
        os.mkdir(out)
    opts = {} if suffix is None else {'input_file_suffix': suffix}
    good = kind == 'file' and to != 'dir' or kind == 'dir' and to != 'file'
    if not good:
        S.require(raises(lambda: odin.xigt_import(src, out, opts), XigtImportError), 'the combination is refused')
        if to == 'file':
            S.require(S.get_file(out) == 'old', 'nothing is overwritten')
        S.reach('refused')
        return
    odin.xigt_import(src, out, opts)
    if kind == 'file':
        S.require([g.id for g in read(S, out)] == ['a'], 'the file is converted')
        S.reach('file')
    else:
        S.require([g.id for g in read(S, out + '/x.xml')] == ['a'] and [g.id for g in read(S, out + '/y' + sf + '.z.xml')] == ['b'], 'the files are converted')
        S.require(sorted(os.listdir(out)) == ['x.xml', 'y' + sf + '.z.xml'], 'no other files')
        S.reach('directory')


def c_shapes(t):
    out = [dict(blocks=1, lines=2, vary='text', len=1), dict(blocks=1, lines=1, vary='text', len=2), dict(blocks=1, lines=1, vary='attrs', len=1),
           dict(blocks=1, lines=0, vary='headers'), dict(blocks=1, lines=0, vary='language'), dict(blocks=2, lines=1, vary='none'), dict(blocks=2, lines=0, vary='language', few=True)]
    if t != 'quick':
        out += [dict(blocks=2, lines=1, vary='text', len=1), dict(blocks=2, lines=2, vary='none'), dict(blocks=2, lines=0, vary='language')]
    return out


HARNESSES = [('chars', lambda t: [{}], ['valid', 'invalid']),
             ('convert', c_shapes, ['line', 'kept', 'language', 'none', 'empty', 'one', 'two']),
             ('places', lambda t: [{}], ['refused', 'file', 'directory'])]
