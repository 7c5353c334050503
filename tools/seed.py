"""Try out planted bugs:  python3 tools/seed.py DEFS.py [id...]
DEFS.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)...], needs, breaks, demo=python source).
Each is confirmed in a scratch copy (tests pass, demo passes without and fails with the change), stored in /verif/seeded and
run against its check (VERIF_REPO points the check to the scratch copy)."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: does not
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig OMP_NUM_THREADS=1
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(work):
    x = work + '.xml'
    os.makedirs(work + '/examples/output', exist_ok=True)
    sh('/opt/venv/bin/pytest -q --rootdir={w} --confcutdir={w} -p no:cacheprovider -n 4 --show_plot=False --timeout=300 '
       '--continue-on-collection-errors --tb=short -W ignore --ignore={w}/examples/modelling/test_pcp.py -o junit_family=xunit2 '
       '--junitxml={x} {w}'.format(w=work, x=x), cwd=work + '/examples/modelling', env=dict(ENV, PYTHONPATH=work))
    out = work + '.json'
    sh('python3 /opt/vp/results.py %s junit:%s' % (out, x))
    r = json.load(open(out))
    os.remove(x)
    os.remove(out)
    return sorted(stable() - set(r.get('passed') or r.get('pass')))


def one(s):
    work = '/tmp/seedwork_' + s['id']
    if os.path.exists(work):
        shutil.rmtree(work)
    demo = '/tmp/seeddemo_' + s['id']
    if os.path.exists(demo):
        shutil.rmtree(demo)
    try:
        sh('cp -a /repo %s' % work)
        for f, old, new in s['edits']:
            t = open(os.path.join(work, f)).read()
            if t.count(old) != 1:
                return s['id'], 'EDIT: %d matches of %r in %s' % (t.count(old), old, f)
            open(os.path.join(work, f), 'w').write(t.replace(old, new))
        os.makedirs(demo)
        with open(demo + '/demo.py', 'w') as fh:
            fh.write(HEAD + s['demo'])
        with open(demo + '/demo.sh', 'w') as fh:
            fh.write(DEMO)
        os.chmod(demo + '/demo.sh', 0o755)
        diff = sh('git diff', cwd=work).stdout
        with open(demo + '/patch.diff', 'w') as fh:
            fh.write(diff)
        with open(demo + '/meta.json', 'w') as fh:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, fh, indent=1)
        a = sh('bash %s/demo.sh' % demo, cwd='/repo')
        if a.returncode:
            return s['id'], 'DEMO fails on the unchanged tree:\n' + a.stdout[-800:]
        b = sh('bash %s/demo.sh' % demo, cwd=work)
        if not b.returncode:
            return s['id'], 'DEMO passes with the change'
        if '--notest' not in sys.argv:
            missing = tests(work)
            if missing:
                return s['id'], 'TESTS fail: %s' % missing[:5]
        dst = os.path.join(HERE, 'seeded', s['id'])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(demo, dst)
        c = sh('timeout 880 ./run %s quick' % s['property'], cwd=HERE, env=dict(os.environ, VERIF_REPO=work, VERIF_EVIDENCE='/tmp/seedev_' + s['id'], VERIF_SEED='1'))
        tail = c.stdout.strip().splitlines()[-2:]
        return s['id'], '%s (%s) %s | demo: %s' % ({0: 'MISSED', 1: 'caught'}.get(c.returncode, 'ERROR %d' % c.returncode), s['property'], ' / '.join(q[:160] for q in tail),
                                                   b.stdout.strip().splitlines()[-1:][0][:120] if b.stdout.strip() else '')
    finally:
        for p in (work, demo, '/tmp/seedev_' + s['id']):
            if os.path.exists(p):
                shutil.rmtree(p)


if __name__ == '__main__':
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    seeds = [s for s in ns['SEEDS'] if not ids or s['id'] in ids]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, seeds):
            print(i, r, flush=True)
