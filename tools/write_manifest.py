"""Write MANIFEST.json."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
T = 'deterministic simulation: seeded search over '
TECH = {
    'C01': T + 'delivered measurement logs, against a reference posterior',
    'C02': T + 'loss patterns, missing measurement against skipped step',
    'C03': T + 'faults injected at every call inside a step, against a fault-free twin',
    'C04': T + 'read/print/query schedules, against reference diagnostics and an unread twin',
    'C05': T + 'chunkings and missing measurements, batch against streaming',
    'C06': T + 'crash points and checkpoints, restored replica against uninterrupted run',
    'C07': T + 'thread interleavings down to opcodes, shared data against isolated twins',
    'C08': T + 'save/step/mutate/fail schedules of the recorder, against an independent log',
    'C09': T + 'delivered logs of a filter bank, against the Markov-mixing recursion',
    'C10': T + "delivered logs of a filter bank, against Bayes' rule and stand-alone filters",
    'C11': T + 'delivered logs, gaps and crashes, streaming against batch smoothing',
    'C12': T + 'delivered logs and failing inverses, smoothers against the joint Gaussian',
    'C13': T + 'delivered logs and controlled random draws, against the ensemble recursion',
    'C14': T + 'the random source the resamplers read, adversarial draws included',
    'C15': T + 'arrival order and grouping of simultaneous measurements',
    'C16': T + 'long loss-ridden badly conditioned histories, invariants at every step',
    'C17': T + 'sample streams and resets, against the defining recursions',
    'C18': T + 'delivered move/sense logs, against exact hidden-Markov inference',
    'C19': T + 'delivered logs of nonlinear models, against the published recursions',
    'C20': T + 'overrides, parameter changes, interruptions and failures, model snapshots compared',
}
NOTE = {}
for line in open(os.path.join(HOME, 'properties.jsonl')):
    d = json.loads(line)
    NOTE[d['id']] = d['title']
COMMON = ('Seeded search, not exhaustive; small dimensions, well-conditioned models unless the property is about '
          'conditioning; sensors, network, clocks, callbacks and the random source are simulated, all filterpy code '
          'is real.')
NA = {
    'C21': 'pure functions of their arguments: no schedule, clock, I/O, randomness, fault or history for the matrices '
           'to depend on, so simulation would only be input sampling',
    'C22': 'pure functions of their arguments: nothing a simulated schedule or fault could influence',
    'C23': 'closed-form formulas evaluated once per call: no state, time, ordering or failure behaviour to simulate',
}


def main():
    checks = []
    for p in sorted(TECH):
        checks.append(dict(property=p, quick_cmd='%s run.py check %s --tier quick' % (PY, p),
                           thorough_cmd='%s run.py check %s --tier thorough' % (PY, p),
                           evidence_file='evidence/%s.json' % p, technique=TECH[p], level='exploration',
                           level_note=COMMON))
    m = dict(version=1, setup_cmd='%s tools/setup.py' % PY, checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
