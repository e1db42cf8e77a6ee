"""The randomness seam: a numpy Generator owned by the simulator.

SimRng draws exactly what a plain generator with the same seed would draw, and on top of that
* counts its calls against the step budget of the run,
* can be told to force rare but legal outcomes (buggify), decided by its own private stream,
* can fail at a chosen call (an allocation failure inside a draw),
* can be shared across the deep copies SimCATS makes ("share" mode), so that the simulator keeps a handle on the stream
  the simulation really uses; or be copied like any generator ("copy" mode).
"""
import numpy as np

from dst.boot import real_rng
from dst.core import NoProgress, Rnd, derive


class Budget:
    left = 10 ** 9

    @classmethod
    def reset(cls, n=400_000):
        cls.left = n

    @classmethod
    def spend(cls, n=1):
        cls.left -= n
        if cls.left < 0:
            raise NoProgress("random draws")


class RngFault(MemoryError):
    pass


STATS = {}


def stat(k, n=1):
    STATS[k] = STATS.get(k, 0) + n


def _bitgen(seed, kind):
    bg = {"pcg": np.random.PCG64, "philox": np.random.Philox, "mt": np.random.MT19937, "sfc": np.random.SFC64}[kind]
    return bg(seed)


class SimRng(np.random.Generator):
    def __init__(self, bit_generator, seed=0, share=True, bug=None):
        super().__init__(bit_generator)
        self.seed_, self.share, self.bug = seed, share, bug
        self.calls = 0
        self.kinds = {}
        self.fail_at = None
        self.fail_exc = RngFault
        self.on_call = None
        self._bugrnd = Rnd(derive("bug", seed)) if bug else None

    # -- copying
    def __deepcopy__(self, memo):
        if self.share:
            return self
        new = SimRng(_clone_bitgen(self.bit_generator), self.seed_, False, self.bug)
        memo[id(self)] = new
        new.calls = self.calls
        if self._bugrnd:
            new._bugrnd.setstate(self._bugrnd.getstate())
        return new

    def __reduce__(self):
        return (_rebuild, (type(self.bit_generator).__name__, self.bit_generator.state, self.seed_, self.share, self.bug,
                           self._bugrnd.getstate() if self._bugrnd else None))

    __reduce_ex__ = lambda self, proto: self.__reduce__()  # noqa: E731

    def reseed(self, seed):
        self.bit_generator.state = type(self.bit_generator)(seed).state
        if self.bug:
            self._bugrnd = Rnd(derive("bug", seed))
        self.calls = 0

    def state(self):
        return repr(self.bit_generator.state) + (str(hash(self._bugrnd.getstate())) if self._bugrnd else "")

    # -- draws
    def _draw(self, kind, real, force):
        Budget.spend()
        self.calls += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.on_call is not None:
            self.on_call(kind)
        if self.fail_at is not None and self.calls >= self.fail_at:
            self.fail_at = None
            stat("fault:draw-fails")
            raise self.fail_exc("injected: draw failed")
        value = real()
        p = self.bug.get(kind, 0) if self.bug else 0
        if p and self.bug.get("each") and isinstance(value, np.ndarray):
            # every element on its own
            for i in range(value.size):
                if self._bugrnd.random() < p:
                    stat(f"fault:forced-{kind}")
                    value.flat[i] = force(self._bugrnd.random())
        elif p:
            r = self._bugrnd.random()
            which = self._bugrnd.random()
            if r < p:
                stat(f"fault:forced-{kind}")
                forced = force(which)
                if isinstance(value, np.ndarray) and "all" in self.bug and self._bugrnd.random() < self.bug["all"]:
                    # the same rare outcome throughout
                    stat(f"fault:forced-all-{kind}")
                    value = np.full_like(value, forced if np.ndim(forced) == 0 else np.ravel(forced)[0])
                elif isinstance(value, np.ndarray):
                    i = int(which * 1e6) % value.size if value.size else 0
                    if value.size:
                        value.flat[i] = forced if np.ndim(forced) == 0 else np.ravel(forced)[0]
                else:
                    value = type(value)(forced) if not isinstance(value, (int, np.integer)) else type(value)(int(forced))
        return value

    def binomial(self, n, p, size=None):
        def force(w):
            pp = float(np.max(p))
            if pp <= 0:
                return 0
            if pp >= 1:
                return n
            return n if w < 0.6 else 0
        return self._draw("binomial", lambda: super(SimRng, self).binomial(n, p, size), force)

    def geometric(self, p, size=None):
        def force(w):
            if np.ndim(p) or not p > 0:
                return 1
            return 1 if (w < 0.5 or p >= 1) else int(min(8 / p, 1e5)) + 1
        return self._draw("geometric", lambda: super(SimRng, self).geometric(p, size), force)

    def poisson(self, lam=1.0, size=None):
        def force(w):
            l_ = float(np.max(lam))
            return 0 if (w < 0.4 or l_ <= 0) else int(l_ + 5 * np.sqrt(l_) + 3 * w)
        return self._draw("poisson", lambda: super(SimRng, self).poisson(lam, size), force)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw("normal", lambda: super(SimRng, self).normal(loc, scale, size),
                          lambda w: loc + scale * (6 if w < 0.4 else -6 if w < 0.8 else 0))

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self._draw("lognormal", lambda: super(SimRng, self).lognormal(mean, sigma, size),
                          lambda w: np.exp(mean + sigma * (6 if w < 0.5 else -6)))

    def uniform(self, low=0.0, high=1.0, size=None):
        def force(w):
            lo, hi = low, high
            spots = self.bug.get("spots")
            if spots:       # a few places drawn again and again
                return lo + (hi - lo) * spots[min(int(w * len(spots)), len(spots) - 1)]
            if w < 0.5 or np.any(np.asarray(lo) == np.asarray(hi)):
                return lo
            return np.nextafter(hi, lo)
        return self._draw("uniform", lambda: super(SimRng, self).uniform(low, high, size), force)

    def exponential(self, scale=1.0, size=None):
        return self._draw("exponential", lambda: super(SimRng, self).exponential(scale, size),
                          lambda w: 0.0 if w < 0.4 else scale * (8 if w < 0.8 else 1e-12))


def _plain(name):
    def f(self, *a, **k):
        return self._draw(name, lambda: getattr(np.random.Generator, name)(self, *a, **k), lambda w: 0)
    f.__name__ = name
    return f


for _n in ("standard_normal", "random", "integers", "choice", "standard_exponential", "beta", "gamma", "permutation",
           "negative_binomial", "logistic", "laplace", "triangular", "multinomial", "rayleigh", "standard_gamma"):
    setattr(SimRng, _n, _plain(_n))


def _clone_bitgen(bg):
    new = type(bg)(0)
    new.state = bg.state
    return new


def _rebuild(name, state, seed, share, bug, bugstate):
    bg = getattr(np.random, name)(0)
    bg.state = state
    g = SimRng(bg, seed, share, bug)
    if bugstate is not None:
        g._bugrnd.setstate(bugstate)
    return g


def sim_rng(seed, share=True, bug=None, kind="pcg"):
    return SimRng(_bitgen(seed, kind), seed, share, bug)


def plain_rng(seed, kind="pcg"):
    return np.random.Generator(_bitgen(seed, kind))


__all__ = ["SimRng", "sim_rng", "plain_rng", "real_rng", "Budget", "STATS", "stat", "RngFault"]
