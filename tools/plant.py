"""Makes and evaluates planted bugs (never used by a check).

plant.py make DEFS.py      writes seeded/<id>/ for each entry of BUGS in DEFS.py, a
                           dict(id, property, needs, breaks, edits=[(file, old, new)], demo)
plant.py run [ID...]       in a scratch copy of /repo: tests, demo on both trees, check
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run with cwd at the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def make(defs):
    ns = {}
    exec(open(defs).read(), ns)
    for b in ns['BUGS']:
        d = os.path.join(SEED, b['id'])
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            sh(['git', '-C', '/repo', 'worktree', 'prune'])
            shutil.copytree('/repo', tmp + '/r', symlinks=True)
            for f, old, new in b['edits']:
                p = os.path.join(tmp, 'r', f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', '-C', tmp + '/r', 'diff']).stdout
        finally:
            shutil.rmtree(tmp)
        os.makedirs(d, exist_ok=True)
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        with open(d + '/demo.py', 'w') as f:
            f.write(b['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/meta.json', 'w') as f:
            json.dump(dict(property=b['property'], needs=b['needs'],
                           what_it_breaks=b['breaks']), f, indent=1)
            f.write('\n')
        print('made', b['id'])


BASE = json.load(open('/opt/vp/BASELINE.json'))


def tests(r):
    p = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules',
            '--doctest-glob=*.md', '--continue-on-collection-errors',
            '--ignore=xigt/exporters/itsdb.py', '--ignore=xigt/importers/odin.py',
            '--ignore=xigt/importers/toolbox.py', 'tests', 'xigt'],
           cwd=r, timeout=120, env=dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=r))
    m = re.search(r'(\d+) passed', p.stdout)
    return int(m.group(1)) if m else 0


def run(ids, props=None):
    bad = 0
    for i in ids or sorted(os.listdir(SEED)):
        d = os.path.join(SEED, i)
        meta = json.load(open(d + '/meta.json'))
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            r = tmp + '/r'
            shutil.copytree('/repo', r, symlinks=True)
            shutil.copytree(d, tmp + '/d')
            d0 = sh(['bash', tmp + '/d/demo.sh'], cwd=r)
            a = sh(['git', '-C', r, 'apply', d + '/patch.diff'])
            d1 = sh(['bash', tmp + '/d/demo.sh'], cwd=r)
            n = tests(r)
            p = props or [meta['property']]
            out = []
            for q in p:
                c = sh(['python3-vt', '-B', '-m', 'symx.run', q.lower(), '--tier', 'quick'],
                       cwd=ROOT, env=dict(os.environ, XIGT_REPO=r, VERIF_SEED='1'))
                why = [l for l in c.stdout.splitlines() if l.startswith(('ERROR', 'counter'))]
                out.append((q, c.returncode, (why or [''])[0][:150]))
            ok = a.returncode == 0 and d0.returncode == 0 and d1.returncode != 0 and n >= 132
            print('%-14s %s apply=%d demo=%d/%d tests=%d %s' % (
                i, 'VALID' if ok else 'INVALID', a.returncode, d0.returncode,
                d1.returncode, n, out), flush=True)
            if not ok:
                print(a.stderr[-300:], d0.stderr[-400:], d1.stdout[-200:])
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        run(sys.argv[2:])
