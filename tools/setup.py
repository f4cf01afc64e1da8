"""Nothing to build: check that the interpreter and the code under test are there."""
import os
import sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HOME)
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HOME, d), exist_ok=True)
from sim import boot, runner          # noqa: E402
for i in range(1, 21):
    runner.load('C%02d' % i)
print('filterpy at', boot.SUT_DIR)
