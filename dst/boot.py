"""Boot the system under test inside the simulator.

Import this before anything imports simcats.  It takes over numpy.random.default_rng, so that every generator the
library creates for itself (default arguments at import time, samplers without a generator, the config sampler) is
created by the simulator, is registered, and can be reseeded at the start of each run.
"""
import os
import sys
import random as _random

REPO = os.environ.get("VERIF_REPO", "/repo")

for _k, _v in (("MPLBACKEND", "Agg"), ("OPENBLAS_NUM_THREADS", "1"), ("OMP_NUM_THREADS", "1")):
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

_REAL_DEFAULT_RNG = np.random.default_rng


class Ambient:
    """Generators the library made for itself through np.random.default_rng()."""

    def __init__(self):
        self.seed = 0
        self.count = 0
        self.created = []       # [(generator, number)] created at import
        self.factory = None     # optional replacement used by C13
        self.requests = 0

    def default_rng(self, seed=None):
        if seed is not None:
            return _REAL_DEFAULT_RNG(seed)
        self.requests += 1
        self.count += 1
        if self.factory is not None:
            return self.factory(self.count)
        g = _REAL_DEFAULT_RNG([self.seed, self.count])
        self.created.append((g, self.count))
        return g

    def reset(self, seed):
        """Put all ambient entropy into a state decided by seed."""
        self.seed = seed & 0x7FFFFFFF
        for g, n in self.created[: self.import_count]:
            g.bit_generator.state = _REAL_DEFAULT_RNG([self.seed, n]).bit_generator.state
        del self.created[self.import_count:]
        self.count = self.import_count
        self.factory = None
        self.requests = 0
        np.random.seed(self.seed)
        _random.seed(self.seed)

    def disturb(self, rnd):
        """Consume or reseed everything global: a legal thing for other code in the process to do."""
        what = rnd.randrange(4)
        if what == 0:
            np.random.seed(rnd.randrange(2 ** 31))
            _random.seed(rnd.randrange(2 ** 31))
        elif what == 1:
            np.random.random(rnd.randrange(1, 7))
            _random.random()
        for g, _ in self.created:
            if rnd.random() < 0.7:
                g.random(rnd.randrange(1, 5))
        return what


AMBIENT = Ambient()


def real_rng(seed):
    return _REAL_DEFAULT_RNG(seed)


def boot():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    np.random.default_rng = AMBIENT.default_rng
    import simcats
    import simcats.config_samplers  # noqa: F401
    import simcats.sensor.barrier_function  # noqa: F401
    import simcats.sensor.deformation  # noqa: F401
    import simcats.ideal_csd.geometric  # noqa: F401
    if not os.path.realpath(simcats.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"simcats imported from {simcats.__file__}, not from {REPO}")
    AMBIENT.import_count = len(AMBIENT.created)
    AMBIENT.reset(0)
    return simcats


simcats = boot()
SIMCATS_DIR = os.path.dirname(os.path.realpath(simcats.__file__)) + os.sep
