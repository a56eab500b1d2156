"""Writes section 5 and 6 of DESIGN.md (tables) from the harnesses, evidence/ and seeded/.

design.py [CATCHES]     CATCHES: output of 'plant.py run' (kept as tools/catches.txt)
"""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
MARK = '<!-- generated by tools/design.py from here on -->'


def main():
    props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
    out = [MARK, '', '## 5. The properties one by one', '',
           'For each: what the harness runs symbolically, the oracle\'s bounds, what is outside, and what a quick run '
           'costs on the unchanged tree (8 cores; a thorough run has the larger shapes of the same harness).', '']
    for p in props:
        i = p['id']
        m = importlib.import_module('harness.' + i.lower())
        ev = json.load(open('%s/%s.json' % (sys.argv[1] if len(sys.argv) > 1 else ROOT + '/evidence', i)))
        c = ev['coverage']
        assert ev['tier'] == 'quick' and not ev.get('violations'), i
        out.append('**%s %s.** Harness `harness/%s.py`: %s.' % (
            i, p['title'], i.lower(), '; '.join('`%s`%s' % (f, (' - ' + ' '.join((getattr(m, f).__doc__ or '').split()).rstrip('.'))
                                                         if getattr(m, f).__doc__ else '') for f, _, _ in m.HARNESSES)))
        out.append('Bounds: %s.' % m.BOUNDS)
        if m.ASSUMES:
            out.append('Outside: %s.' % '; '.join(m.ASSUMES))
        out.append('Cost: about %d s, %s paths, %s solver queries, %s obligations, %d functions of xigt encoded.' % (
            round(ev['wall_s']), format(c['states'], ','), format(c['solver_queries'], ','),
            format(c['obligations_discharged'], ','), c['functions_count']))
        out.append('')
    out += ['## 6. Planted bugs and the checks that catch them', '']
    out += ['Caught: by the quick check of the property; "?": not run again for this table (the last run of these '
            'was before the check was strengthened for them, see git log).  The costs in section 5 are from runs '
            'before the last parts were added to some harnesses.', '']
    out += ['| bug | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
    res = {}
    f = ROOT + '/tools/catches.txt'
    if os.path.exists(f):
        for l in open(f):
            w = l.split()
            if len(w) > 1 and w[1] in ('VALID', 'INVALID'):
                g = re.search(r"\('(\w+)', (\d)", l)
                res[w[0]] = g and g.group(2) == '1'
    for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        k = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        out.append('| %s | %s | %s | %s | %s |' % (k, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                                  {True: 'yes', False: 'no', None: '?'}[res.get(k)]))
    s = open(ROOT + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + '\n'.join(out) + '\n'
    open(ROOT + '/DESIGN.md', 'w').write(s)


main()
