"""S06: the xigt command and its export and import subcommands."""
import sys
from xigt import XigtCorpus, Igt, Tier, Item, main
from xigt.codecs import xigtxml
from xigt.exporters import latex
from xigt.scripts import xigt_export, xigt_import, xigt_query, xigt_sort, xigt_partition, xigt_validate
from harness.scripts import outcome
from harness.e03 import Delphin
from harness.i02 import Toolbox, tok
from harness.i03 import Odin

PROPERTY = 'S06'
BOUNDS = ('corpora of up to 2 IGTs with words and glosses of up to 2 characters; both formats of export and of import, given or by default, with '
          'and without a configuration; every subcommand, directly and through xigt; options before and after files')
ASSUMES = ['delphin, toolbox and odintxt are stand-ins (they are not installed)']


def corpus(S, n):
    return XigtCorpus(id='c', igts=[Igt(id='i%d' % g, tiers=[
        Tier(id='p', type='phrases', items=[Item(id='p1', text=S.str('p%d' % g, 1, 2, 'ab&'))]),
        Tier(id='w', type='words', items=[Item(id='w1', text=S.str('w%d' % g, 1, 1, 'ab\\'))]),
        Tier(id='g', type='glosses', alignment='w', items=[Item(id='g1', alignment='w1', text='g')])]) for g in range(n)])


def export(S):
    """the exporter of the format is given the whole corpus and the configuration"""
    Delphin.given = []
    S.stub_module('delphin', itsdb=Delphin)
    xc = corpus(S, S.params['n'])
    path = S.put_file('in.xml', xigtxml.dumps(xc))
    fmt = S.choice('format', ['default', 'latex', 'itsdb'])
    conf = S.flag('config')
    rel = S.put_file('Relations', 'item:\n')
    import json
    out = S.mkpath('out')
    args = ['-i', path, '-o', out] + ([] if fmt == 'default' else ['-f', fmt])
    if conf or fmt == 'itsdb':
        cfg = {'latex': {'tier_types': ['words', 'phrases']}, 'itsdb': {'relations': rel}}['itsdb' if fmt == 'itsdb' else 'latex']
        if conf and fmt == 'itsdb':
            cfg['i-id_start'] = 5
            cfg['cells'] = [['x', 'igt.id'], ['y', 'igt["w"][0].text']]
        args += ['-c', S.put_file('conf.json', json.dumps(cfg))]
    S.require(outcome(xigt_export.main, args) == ('done', None), 'the command succeeds')
    if fmt == 'itsdb':
        S.require([(p, r) for p, r, _ in Delphin.given] == [(out, rel)], 'the profile is made once')
        rows = [dict(r) for r in Delphin.given[0][2]]
        if conf:
            want = [{'i-id': 5 + 10 * i, 'x': g.id, 'y': g['w'][0].text} for i, g in enumerate(xc)]
        else:
            want = [{'i-id': 10 * i, 'i-input': g['p'][0].text} for i, g in enumerate(xc)]
        S.require(rows == want, 'the rows')
        S.reach('itsdb')
    else:
        direct = S.mkpath('direct')
        latex.xigt_export(xc, direct, config=cfg if conf else None)
        S.require(S.get_file(out) == S.get_file(direct), 'the document')
        S.reach('latex')


def imports(S):
    """the importer of the format is given the file and the configuration"""
    S.stub_module('odintxt', odin_blocks=Odin.odin_blocks)
    S.stub_module('toolbox', ToolboxError=Toolbox.ToolboxError, ToolboxWarning=Toolbox.ToolboxWarning,
                  read_toolbox_file=Toolbox.read_toolbox_file, records=Toolbox.records,
                  normalize_record=Toolbox.normalize_record, align_fields=Toolbox.align_fields)
    fmt = S.choice('format', ['default', 'toolbox', 'odin'])
    conf = S.flag('config')
    w = tok(S, 'w')
    src, out = S.put_file('in.txt', 'in'), S.mkpath('out.xml')
    Toolbox.recs = [({'\\ref': 'r'}, [('\\t', w)])]
    Odin.blocks = {'in': [dict(igt_id='r', doc_id='1', line_range='1 2', line_types='', lines=[dict(content=w + '\x01')])]}
    args = ['-i', src, '-o', out] + ([] if fmt == 'default' else ['-f', fmt])
    if conf:
        cfg = '{"replacement_char": "!"}' if fmt == 'odin' else '{"make_phrase_tier": null, "tier_types": {"w": {"type": "wd"}}, "alignments": {}}'
        args += ['-c', S.put_file('conf.json', cfg)]
    S.require(outcome(xigt_import.main, args) == ('done', None), 'the command succeeds')
    with open(out, 'r') as f:
        igt = xigtxml.load(f)[0]
    if fmt == 'odin':
        S.require([(t.id, [x.text for x in t]) for t in igt] == [('r', [w + ('!' if conf else '\ufffd')])], 'the igt')
        S.reach('odin')
    elif conf:
        S.require([(t.id, t.type, [x.text for x in t]) for t in igt] == [('w', 'wd', [w])], 'the igt')
        S.reach('toolbox')
    else:
        S.require([(t.id, t.type, [x.text for x in t]) for t in igt] == [('p', 'phrases', [w]), ('w', 'words', [w])], 'the igt')
        S.reach('toolbox')


def dispatch(S):
    """xigt NAME ARGUMENTS does what the subcommand does with the arguments"""
    S.stub_module('odintxt', odin_blocks=Odin.odin_blocks)
    Odin.blocks = {'odin': [dict(igt_id='r', doc_id='1', line_range='1 2', line_types='')]}
    name = S.choice('command', ['export', 'import', 'partition', 'query', 'sort', 'validate', 'process'])
    script = {'export': xigt_export, 'import': xigt_import, 'partition': xigt_partition, 'query': xigt_query, 'sort': xigt_sort, 'validate': xigt_validate}.get(name)
    path, odin = S.put_file('in.xml', xigtxml.dumps(corpus(S, 2))), S.put_file('in.txt', 'odin')

    def args(out):
        return {'export': ['-v', '-i', path, '--output=' + out], 'partition': ['--key-path', '@id', out, path, '-v'],
                'import': ['--format=odin', '-i', odin, '-o', out], 'query': ['--find', '//@id', '-v', path],
                'sort': ['--igt-key', 'tier[@id="p"]/item/text()', path], 'validate': ['-v', path, path]}[name]
    if name == 'process':
        sys.argv = ['xigt', name]
        how = outcome(lambda x: main.main(), None)
        S.require(how[0] == 'exit' and how[1] not in (0, None), 'the command is no more')
        S.reach(name)
        return
    one, two = S.mkpath('one'), S.mkpath('two')
    how = outcome(script.main, args(one))
    text = S.stdout()
    sys.argv = ['xigt', name] + args(two)
    S.require(outcome(lambda x: main.main(), None) == how, 'the same outcome')
    S.require(S.stdout() == text + text, 'the same output')
    made = {'export': [''], 'import': [''], 'partition': ['/i0.xml', '/i1.xml']}.get(name, [])
    for x in made:
        S.require(S.get_file(one + x) is not None and S.get_file(two + x) == S.get_file(one + x), 'the same files')
    S.require(made != [] or text != '', 'there is output')
    S.reach(name)


HARNESSES = [('export', lambda t: [dict(n=1), dict(n=2)], ['latex', 'itsdb']), ('imports', lambda t: [{}], ['toolbox', 'odin']),
             ('dispatch', lambda t: [{}], ['export', 'import', 'partition', 'query', 'sort', 'validate', 'process'])]
