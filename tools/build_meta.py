"""Writes properties.jsonl and MANIFEST.json from tools/spec.py.

A property whose harness module exists is claimed; the others are listed as
not applicable with the reason given in the spec.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec

RUN = 'python3-vt -B -m symx.run %s --tier %s'


def main():
    props, checks, na = [], [], []
    for p in spec.PROPS:
        props.append(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['forall']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None)))
        assert len(p['title']) <= 80, p['title']
        mod = p['id'].lower()
        if os.path.exists(os.path.join(ROOT, 'harness', mod + '.py')):
            checks.append(dict(
                property=p['id'], quick_cmd=RUN % (mod, 'quick'),
                thorough_cmd=RUN % (mod, 'thorough'),
                technique='path-wise symbolic execution of the real Python '
                          'source with z3 (symx)',
                level='model_checking',
                level_note=spec.NOTE + p.get('note', '')))
        else:
            na.append(dict(property=p['id'], reason=p['na']))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in props:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -B -m symx.selftest',
               checks=checks, not_applicable=na, notes=spec.MANIFEST_NOTES)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(props), 'properties', len(checks), 'checks', len(na), 'n/a')


main()
