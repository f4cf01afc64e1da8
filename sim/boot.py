"""Process set-up: environment, import path and seams.  Import this first.

Every source of nondeterminism the repository touches is replaced here,
before filterpy is imported, because its modules bind names at import time
(`from numpy.random import multivariate_normal`, `from scipy.linalg import
cholesky`).  With nothing armed the seams call straight through.
"""
import os
import sys
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

import warnings                                        # noqa: E402
warnings.simplefilter('ignore')
import numpy as np                                     # noqa: E402
import scipy.linalg                                    # noqa: E402
import scipy.stats                                     # noqa: E402,F401
np.seterr(all='ignore')


class InjectedFault(Exception):
    """raised by a simulated user callback"""


class Plane(object):
    """The fault plane and simulated random source, owned by the simulator."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.rs = np.random.RandomState(seed % (2**32))
        self.sites = None        # list collecting site names, or None
        self.fail_at = None      # index of the site call to fail
        self.n = 0
        self.fired = []
        self.random_script = None
        self.normal_script = None
        self.draws = []          # (name, args, kwargs, value) while recording
        self.record_draws = False

    # -- fault points ---------------------------------------------------
    def arm(self, fail_at):
        self.n = 0
        self.fail_at = fail_at
        self.sites = []
        self.fired = []

    def disarm(self):
        sites, fired = self.sites, self.fired
        self.sites = None
        self.fail_at = None
        return sites, fired

    def hit(self, site, exc):
        if self.sites is None:
            return
        i = self.n
        self.n += 1
        self.sites.append(site)
        if self.fail_at is not None and i == self.fail_at:
            self.fired.append(site)
            raise exc

    # -- random source --------------------------------------------------
    def draw(self, name, args, kwargs):
        if self.sites is not None:
            self.hit('random', ValueError('simulated: ' + name + ' failed'))
        if self.random_script is not None and name in (
                'random', 'random_sample', 'ranf', 'sample', 'rand', 'uniform'):
            if name == 'rand':
                size = args if args else None
            elif name == 'uniform':
                size = args[2] if len(args) > 2 else kwargs.get('size')
            else:
                size = args[0] if args else kwargs.get('size')
            v = self.random_script(size)
            if name == 'uniform':
                lo = args[0] if args else kwargs.get('low', 0.)
                hi = args[1] if len(args) > 1 else kwargs.get('high', 1.)
                v = lo + (hi - lo) * v
        else:
            v = getattr(self.rs, 'random_sample' if name in ('random', 'ranf', 'sample')
                        else name)(*args, **kwargs)
        if self.normal_script is not None and name == 'multivariate_normal':
            v = self.normal_script(np.array(v))
        if self.record_draws:
            self.draws.append((name, args, kwargs, np.copy(v)))
        return v


PLANE = Plane()


class Seam(object):
    """stands in for a library function; pickles and copies by name, as one"""

    def __init__(self, mod, name, call):
        self.__name__ = self.__qualname__ = name
        self.__module__ = mod.__name__
        self.__doc__ = getattr(mod, name).__doc__
        self.call = call
        setattr(mod, name, self)

    def __call__(self, *args, **kwargs):
        return self.call(*args, **kwargs)

    def __reduce__(self):
        return self.__name__

    def __repr__(self):
        return '<function %s.%s>' % (self.__module__, self.__name__)


ORIG = {}


def _wrap_linalg(mod, name):
    orig = getattr(mod, name)
    site = mod.__name__ + '.' + name
    ORIG[site] = orig

    def call(*args, **kwargs):
        if PLANE.sites is not None:
            PLANE.hit(site, np.linalg.LinAlgError('simulated: ' + name + ' failed'))
        return orig(*args, **kwargs)
    Seam(mod, name, call)


for _n in ('inv', 'cholesky', 'pinv', 'solve', 'qr', 'svd', 'eigh', 'lstsq'):
    _wrap_linalg(np.linalg, _n)
for _n in ('inv', 'cholesky', 'pinv', 'solve', 'qr', 'svd', 'lstsq',
           'cho_factor', 'cho_solve', 'sqrtm', 'solve_triangular', 'ldl'):
    _wrap_linalg(scipy.linalg, _n)


def _wrap_random(name):
    Seam(np.random, name, lambda *args, **kwargs: PLANE.draw(name, args, kwargs))


for _n in ('random', 'random_sample', 'ranf', 'sample', 'rand', 'randn', 'normal',
           'uniform', 'standard_normal', 'multivariate_normal', 'randint', 'choice',
           'permutation', 'shuffle', 'multinomial'):
    _wrap_random(_n)
_default_rng = np.random.default_rng
Seam(np.random, 'default_rng', lambda seed=None: _default_rng(
    PLANE.rs.randint(2**31) if seed is None else seed))

import filterpy                                        # noqa: E402
if not os.path.abspath(filterpy.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError('filterpy was imported from %s, not %s' % (filterpy.__file__, REPO))
import filterpy.kalman                                 # noqa: E402,F401
import filterpy.common                                 # noqa: E402,F401
import filterpy.gh                                     # noqa: E402,F401
import filterpy.leastsq                                # noqa: E402,F401
import filterpy.memory                                 # noqa: E402,F401
import filterpy.monte_carlo                            # noqa: E402,F401
import filterpy.discrete_bayes                         # noqa: E402,F401
import filterpy.hinfinity                              # noqa: E402,F401
import filterpy.stats                                  # noqa: E402,F401
warnings.simplefilter('ignore')
SUT_DIR = os.path.dirname(os.path.abspath(filterpy.__file__)) + os.sep
