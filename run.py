#!/usr/bin/env python
"""run.py check <property> [--runs N] [--seconds S] [--procs P] | replay <file> | log <property>"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from sim import runner
    a = sys.argv[1:]
    opt = {}
    pos = []
    while a:
        k = a.pop(0)
        if k.startswith('--'):
            opt[k[2:]] = a.pop(0)
        else:
            pos.append(k)
    seed = int(opt.get('seed', os.environ.get('VERIF_SEED', '1')))
    tier = opt.get('tier', os.environ.get('VERIF_TIER', 'quick'))
    num = {k: float(opt[k]) if k == 'seconds' else int(opt[k]) for k in ('runs', 'seconds') if k in opt}
    if pos[0] == 'check':
        return runner.check(pos[1], tier, seed, int(opt.get('procs', 0)) or None, **num)
    if pos[0] == 'replay':
        return runner.replay(pos[1])
    if pos[0] == 'log':
        world = runner.load(pos[1])
        res = runner.search(world, seed, tier, int(opt.get('procs', 4)), int(opt.get('runs', 100)), 600)
        for i, h in sorted(res['logs']):
            print(i, h)
        return 0
    raise SystemExit(__doc__)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print('ERROR: the check could not decide')
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
