"""Undo each repair listed in KNOWN_FINDINGS in a scratch copy; its property's check must report it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def one(item):
    prop, h, what = item
    d = tempfile.mkdtemp(prefix='revert-')
    try:
        subprocess.check_call(['cp', '-a', REPO + '/.', d])
        p = subprocess.run('git -C %s update-index -q --refresh; git -C %s show %s -- filterpy | git -C %s apply -R --3way' % (d, REPO, h, d), shell=True,
                           capture_output=True)
        if p.returncode:
            return h, prop, 'CONFLICT', p.stderr.decode()[:300]
        env = dict(os.environ, VERIF_REPO=d)
        env['VERIF_SEED'] = '1'
        out = subprocess.run([sys.executable, 'run.py', 'check', prop, '--tier', 'quick', '--procs', '4'], cwd=HOME, env=env,
                             capture_output=True, text=True)
        lines = [x for x in out.stdout.splitlines() if 'KNOWN' not in x]
        return h, prop, {0: 'MISSED', 1: 'caught'}.get(out.returncode, 'ERROR'), lines[0][:150] if lines else out.stderr[-200:]
    finally:
        shutil.rmtree(d)


def main():
    items = []
    for line in open(os.path.join(HOME, 'KNOWN_FINDINGS')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m and (len(sys.argv) < 2 or m.group(2) in sys.argv[1:]):
            items.append(m.groups())
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, items):
            print(*r, flush=True)


main()
