"""S02: xigt partition."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta
from xigt.codecs import xigtxml
from xigt.scripts import xigt_partition
from harness.corpora import describe, difference
from harness.scripts import outcome

PROPERTY = 'S02'
BOUNDS = ('up to 3 IGTs in one or two files (thorough: 4), each with a key (attribute, attribute in a namespace, text of a meta) that is missing or has up to 2 '
          'characters, including :, /, - and the dots of file names; any default key; the output directory new or existing')
ASSUMES = ['ids of IGTs are unique over the input files', 'an existing output directory is refused', 'keys are no longer than file names may be']


def make(S, files, keys):
    """the input files and what they hold: [[(name, igt, key)]]"""
    out = []
    n = 0
    for f, size in enumerate(files):
        igts = []
        for i in range(size):
            k = keys[n]
            kw = {}
            if S.params.get('where') == 'meta':
                kw['metadata'] = [Metadata(metas=[Meta(id='m', text=k)] if k is not None else [])]
            elif k is not None:
                kw['attributes'] = {'{u:1}k' if S.params.get('where') == 'ns' else 'k': k}
            igts.append(Igt(id='i%d' % n, tiers=[Tier(id='t', type='w', items=[Item(id='x1', text='t%d' % n)])], **kw))
            n += 1
        xc = XigtCorpus(igts=igts, nsmap={'p': 'u:1'} if S.params.get('where') == 'ns' else None)
        out.append((S.put_file('in%d.xml' % (9 - f), xigtxml.dumps(xc)), igts))
    return out


def partition(S):
    files = S.params['files']
    total = sum(files)
    alpha = S.params['alpha']
    lo = 1 if S.params.get('where') == 'meta' else 0
    keys = [S.str('key%d' % i, lo, S.params['hi'], alpha) if S.flag('key%d?' % i) else None for i in range(total)]
    default = S.choice('default', S.params['defaults'])
    corpora = make(S, files, keys)
    outdir = S.mkpath('out')
    before = [S.get_file(p) for p, _ in corpora]
    path = {'meta': 'metadata/meta/text()', 'ns': '@p:k'}.get(S.params.get('where'), '@k')
    args = ['--key-path', path] + (['--default-key=' + default] if default is not None else []) + [outdir] + [p for p, _ in corpora]
    how = outcome(xigt_partition.main, args)
    S.require(how == ('done', None), 'the command succeeds')
    S.require([S.get_file(p) for p, _ in corpora] == before, 'the inputs stay')
    written = [f for f in S.list_files() if f not in [p for p, _ in corpora]]
    for f in written:
        S.require(f[:len(outdir) + 1] == outdir + '/' and '/' not in f[len(outdir) + 1:], 'everything is written to the output directory')
        S.require(f[-4:] == '.xml', 'names of the output files')
    where = {}
    for f in written:
        xc = xigtxml.loads(S.get_file(f))
        if S.params.get('where') == 'ns':
            S.require(xc.nsmap == {'p': 'u:1'}, 'the namespaces of the corpus')
        S.require(len(xc) > 0, 'no empty output files')
        prev = -1
        for igt in xc:
            i = int(igt.id[1:])
            S.require(i not in where, 'no igt is written twice')
            S.require(i > prev, 'the order of igts within a file')
            prev = i
            where[i] = f
            src = [g for _, igts in corpora for g in igts][i]
            d = difference(describe(src), describe(igt))
            S.require(d is None, 'igts are written as they were: %s' % d)
            if S.params.get('where') == 'ns':
                S.require(igt.get_attribute('p:k') == keys[i] and igt.nsmap.get('p') == 'u:1', 'namespace prefixes are kept')
    S.require(len(where) == total, 'every igt is written')

    def effective(k):
        return k if k is not None else ('---' if default is None else default)

    def plain(k):
        return all((c not in ':/' for c in k))
    for i in range(total):
        for j in range(i):
            a, b = effective(keys[i]), effective(keys[j])
            if a == b:
                S.require(where[i] == where[j], 'igts with the same key are in the same file')
                S.reach('same')
            elif plain(a) and plain(b):
                S.require(where[i] != where[j], 'igts with different keys are in different files')
                S.reach('different')
        if plain(effective(keys[i])):
            S.require(where[i] == outdir + '/' + effective(keys[i]) + '.xml', 'the file is named after the key')
        elif '/' not in effective(keys[i]):
            S.require(where[i] == outdir + '/' + effective(keys[i]).replace(':', '-') + '.xml', 'the file is named after the key')
            S.reach('colon')
        else:
            S.reach('slash')


def existing(S):
    """an existing output directory is not touched"""
    corpora = make(S, [1], [S.str('key', 1, 1, 'a')])
    outdir = S.mkpath('out')
    how = outcome(xigt_partition.main, ['--key-path', '@k', outdir, corpora[0][0]])
    S.require(how == ('done', None), 'the command succeeds')
    files = S.list_files()
    texts = [S.get_file(f) for f in files]
    how = outcome(xigt_partition.main, ['--key-path', '@k', '--default-key', 'x', outdir, corpora[0][0]])
    S.require(how[0] == 'exit' and how[1] not in (0, None), 'the command fails')
    S.require(S.list_files() == files and [S.get_file(f) for f in files] == texts, 'the output directory is untouched')
    S.reach('existing')


def refused(S):
    """an output path that cannot become a directory"""
    corpora = make(S, [1, 1], [S.str('key%d' % i, 1, 1, 'ab') for i in range(2)])
    kind = S.choice('kind', ['file', 'input', 'dir'])
    if kind == 'input':
        outdir = corpora[0][0]
    elif kind == 'file':
        outdir = S.put_file('out', S.str('text', 0, 2, 'x<'))
    else:
        outdir = S.mkpath('out')
        outcome(xigt_partition.main, ['--key-path', '@k', outdir, corpora[1][0]])
    files = S.list_files()
    texts = [S.get_file(f) for f in files]
    how = outcome(xigt_partition.main, ['--key-path', '@k', outdir] + [p for p, _ in corpora])
    S.require(how[0] == 'exit' and how[1] not in (0, None), 'the command fails')
    S.require(S.list_files() == files and [S.get_file(f) for f in files] == texts, 'nothing is touched')
    S.reach(kind)


def shapes(t):
    d = [None, 'a', '-']
    out = [dict(files=[2, 1], hi=1, alpha='ab:-', defaults=[None, 'a', '-']), dict(files=[1, 1], hi=2, alpha='a:./', defaults=[None]),
           dict(files=[2], hi=1, alpha='ab', defaults=[None], where='meta'), dict(files=[1, 1], hi=1, alpha='ab', defaults=[None], where='ns'),
           dict(files=[1, 1], hi=2, alpha='-:', defaults=[':-', '---'])]
    if t != 'quick':
        out += [dict(files=[2, 2], hi=1, alpha='a:-', defaults=d), dict(files=[1, 2], hi=2, alpha='a:/', defaults=[None, '..']),
                dict(files=[1, 1], hi=3, alpha='-:', defaults=[None])]
    return out


HARNESSES = [('partition', shapes, ['same', 'different', 'colon', 'slash']), ('existing', lambda t: [{}], ['existing']),
             ('refused', lambda t: [{}], ['file', 'input', 'dir'])]
