"""A simulated process: a function run in a process of its own."""
import signal
from .core import Hang, Violation
from .runner import describe, in_child


def sub(fn):
    """fn in its own process; its violations are this run's"""
    def go():
        signal.signal(signal.SIGVTALRM, boom)
        signal.setitimer(signal.ITIMER_VIRTUAL, 15)
        try:
            return 'ok', fn()
        except Violation as e:
            return 'viol', (e.kind, e.msg)
        except Hang:
            return 'viol', ('no-progress', 'a process used more than 15 s of CPU')
        except Exception as e:
            return 'viol', describe(e)
    r = in_child(go)
    if r is None:
        raise Violation('died', 'the simulated process died')
    if r[0] == 'ok':
        return r[1]
    raise Violation(*r[1])


def boom(*a):
    raise Hang()
