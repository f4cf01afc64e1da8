"""Try planted bugs: plant.py SPEC.py [id ...]

SPEC.py defines BUGS: id -> dict(property, file, edits=[(old, new)], demo, needs, breaks).  Each is applied to a scratch copy
of /repo; it is kept under seeded/ if the stable tests pass with it and its demonstration passes without it and fails
with it.  Then the property's quick check runs against the copy.  Without a spec: plant.py - re-runs the kept ones.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
DEMO_SH = '''#!/bin/bash
# exit 0 where the property holds
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           PYTHONHASHSEED='0')


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    subprocess.call(['git', '-C', d, 'update-index', '-q', '--refresh'])
    return d


def check(prop, d, procs):
    out = sh([PY, 'run.py', 'check', prop, '--tier', 'quick', '--procs', str(procs)], HOME, VERIF_REPO=d, VERIF_SEED='1')
    lines = [x for x in out.stdout.splitlines() if 'KNOWN' not in x]
    return {0: 'MISSED', 1: 'caught'}.get(out.returncode, 'ERROR'), (lines or [out.stderr[-300:]])[0][:170]


def fresh(item):
    name, b, procs = item
    d = copy()
    try:
        for f, old, new in [(b['file'],) + tuple(e) if len(e) == 2 else e for e in b['edits']]:
            p = os.path.join(d, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != b.get('count', 1):
                return name, 'BAD EDIT: %d matches in %s' % (s.count(old), f)
            open(p, 'w', newline='').write(s.replace(old, new))
        t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300', 'filterpy'], d,
               PYTHONPATH=d)
        tail = [x for x in t.stdout.splitlines() if 'passed' in x or 'failed' in x or x.startswith('FAILED')]
        if t.returncode:
            return name, 'TESTS FAIL: %s' % (tail or t.stdout[-300:])
        out = os.path.join(HOME, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(b['demo'].lstrip('\n'))
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        good = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        bad = sh(['bash', os.path.join(out, 'demo.sh')], d)
        if good.returncode or not bad.returncode:
            shutil.rmtree(out)
            return name, 'DEMO: unchanged %d %s, planted %d %s' % (good.returncode, good.stderr[-300:], bad.returncode,
                                                                  bad.stderr[-300:])
        diff = sh(['git', 'diff', '--', 'filterpy'], d).stdout
        with open(os.path.join(out, 'patch.diff'), 'w', newline='') as f:
            f.write(subprocess.run(['git', 'diff', '--', 'filterpy'], cwd=d, capture_output=True).stdout.decode())
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return (name, b['property'], 'kept', tail[-1:], bad.stderr.strip().splitlines()[-1:]) + check(b['property'], d, procs)
    finally:
        shutil.rmtree(d)


def again(item):
    name, _, procs = item
    d = copy()
    src = os.path.join(HOME, 'seeded', name)
    try:
        prop = json.load(open(os.path.join(src, 'meta.json')))['property']
        if sh(['git', 'apply', os.path.join(src, 'patch.diff')], d).returncode:
            return name, prop, 'PATCH DOES NOT APPLY'
        return (name, prop) + check(prop, d, procs)
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    if a and a[0] != '-':
        ns = {}
        exec(open(a[0]).read(), ns)
        items = [(k, b, 4) for k, b in ns['BUGS'].items() if len(a) < 2 or k in a[1:]]
        fn = fresh
    else:
        items = [(k, None, 4) for k in sorted(os.listdir(os.path.join(HOME, 'seeded'))) if len(a) < 2 or k in a[1:]]
        fn = again
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(fn, items):
            print(*r, flush=True)


main()
