"""Deterministic basics: seeds, digests, snapshots, violations."""
import hashlib
import json
import random
import sys
import traceback

import numpy as np

from dst.boot import SIMCATS_DIR


def derive(*parts) -> int:
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Rnd(random.Random):
    """The one source of choices of the simulator (never the library's)."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def wpick(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x <= 0:
                return v
        return pairs[-1][0]

    def u(self, a, b, digits=6):
        return round(self.uniform(a, b), digits)

    def logu(self, a, b):
        import math
        return float("%.4g" % math.exp(self.uniform(math.log(a), math.log(b))))


class Violation(Exception):
    def __init__(self, cls, detail="", key=""):
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail, self.key = cls, str(detail)[:600], key


class HarnessError(Exception):
    """Something is wrong with the machinery, not with SimCATS."""


class NoProgress(BaseException):
    """The step budget of a run is used up."""


def in_simcats(tb):
    """Does the traceback end inside (or pass through) simcats frames?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SIMCATS_DIR):
            return True
        tb = tb.tb_next
    return False


# ---------------------------------------------------------------- digests
def _feed(h, x, depth=0):
    if depth > 12:
        h.update(b"<deep>")
        return
    if x is None or isinstance(x, (bool, int, str)):
        h.update(repr(x).encode())
    elif isinstance(x, float):
        h.update(float(x).hex().encode())
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(repr(x.tolist()).encode())
        else:
            h.update(f"A{x.dtype.str}{x.shape}".encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.generic):
        h.update(f"G{x.dtype.str}".encode() + x.tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(f"L{len(x)}".encode())
        for y in x:
            _feed(h, y, depth + 1)
    elif isinstance(x, dict):
        h.update(f"D{len(x)}".encode())
        for k in x:
            _feed(h, k, depth + 1)
            _feed(h, x[k], depth + 1)
    else:
        h.update(type(x).__name__.encode())


def digest(x) -> str:
    h = hashlib.sha256()
    _feed(h, x)
    return h.hexdigest()[:24]


def same(a, b) -> bool:
    """Bit equality of results (arrays: dtype, shape, bytes; NaN equals NaN)."""
    return digest(a) == digest(b)


# ---------------------------------------------------------------- public state
RUNTIME = {"activated", "latest_sigma", "sensor", "fully_conductive", "pinch_off"}


def pubsnap(obj, rng=False, depth=0):
    """Public parameters of an object graph as plain data; hidden runtime state (last samples, caches) is left out."""
    from simcats.support_functions import ParameterSamplingInterface
    if depth > 10:
        return "<deep>"
    if obj is None or isinstance(obj, (bool, int, str, float)):
        return (type(obj).__name__, float(obj).hex() if isinstance(obj, float) else obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("arr", repr(obj.tolist()))
        return ("arr", obj.dtype.str, obj.shape, hashlib.sha256(np.ascontiguousarray(obj).tobytes()).hexdigest()[:16])
    if isinstance(obj, np.generic):
        return ("num", obj.dtype.str, obj.tobytes().hex())
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [pubsnap(x, rng, depth + 1) for x in obj]
    if isinstance(obj, dict):
        return ["dict"] + [(repr(k), pubsnap(v, rng, depth + 1)) for k, v in obj.items()]
    if isinstance(obj, np.random.Generator):
        if not rng:
            return ("rng",)
        return ("rng", hashlib.sha256(repr(obj.bit_generator.state).encode()).hexdigest()[:16])
    if isinstance(obj, ParameterSamplingInterface):
        return ("sampler", type(obj).__name__)
    if callable(obj) and not hasattr(obj, "__dict__"):
        return ("callable",)
    names = set()
    for t in type(obj).__mro__:
        for n, v in vars(t).items():
            if isinstance(v, property) and not n.startswith("_"):
                names.add(n)
    names |= {n for n in getattr(obj, "__dict__", {}) if not n.startswith("_")}
    out = [type(obj).__name__]
    for n in sorted(names - RUNTIME):
        try:
            v = getattr(obj, n)
        except Exception as e:  # a property that cannot be read now
            out.append((n, "raises", type(e).__name__))
            continue
        if callable(v) and not isinstance(v, (np.random.Generator,)) and not hasattr(v, "__dict__"):
            continue
        out.append((n, pubsnap(v, rng, depth + 1)))
    return out


def snap_diff(a, b, path=""):
    """First difference of two snapshots, for messages."""
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                label = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else str(i)
                return snap_diff(x, y, f"{path}/{label}")
        return ""
    return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in tb:
        if fr.filename.startswith(SIMCATS_DIR):
            where = f"{fr.filename[len(SIMCATS_DIR):]}:{fr.name}"
    return f"{type(e).__name__}: {str(e)[:160]} @ {where}"


def jdump(x):
    return json.dumps(x, sort_keys=True)


def maxdiff(a, b):
    try:
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        if a.shape != b.shape:
            return f"shapes {a.shape} vs {b.shape}"
        if a.size == 0:
            return "empty"
        d = np.abs(a - b)
        i = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
        return f"max |diff| {np.nanmax(d):.3g} at {tuple(int(k) for k in np.unravel_index(i, a.shape))}, {int((d != 0).sum())} of {a.size} pixels"
    except Exception as e:
        return f"not comparable ({type(e).__name__})"
