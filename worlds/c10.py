"""C10: a fixed bank of models weighs its filters by Bayes' rule."""
from worlds.c09 import LISTS, MINLEN, STATES, FAULTS, run, simplify   # noqa: F401
from worlds import c09
from sim import gen as G
from sim.world import events_of

RUNS = 24000
RULE = c09.RULE.replace('chain and initial probabilities', 'initial probabilities, per-call noise and measurement '
                        'matrices, bank-wide measurement matrix')
REAL = ['MMAEFilterBank over KalmanFilter / UnscentedKalmanFilter members']
STUB = c09.STUB
PROBES = [p for p in c09.PROBES if p not in ('unreachable', 'chain-changed')] + ['overridden']


def gen(rng, tier):
    cfg = G.gen_cfg(rng, 'mmae')
    ops = c09.gen_ops(rng, cfg, tier)
    return dict(cfg=cfg, events=events_of(rng, ops))
