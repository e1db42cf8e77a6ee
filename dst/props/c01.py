"""C01 Seeded sessions replay exactly."""
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from dst import boot, world
from dst.core import Rnd, derive, digest
from dst.fault import Tracer
from dst.isolate import isolated
from dst.session import Session, gen_session
from dst.world import Rngs, gen_spec, rng_namer

RUNS = {"quick": 1100, "thorough": 30000}
LEVEL = "exploration"
NONDETERMINISM_IS_VIOLATION = True
RULE = ("A run performs a seeded session once in a pristine process and again in another process after unrelated simulations ran, with the clock stepped, the global random state, numpy's "
        "global state and the library's default generators reseeded and consumed at random source lines and between operations; part of the runs repeats it in a separately started "
        "interpreter with another hash seed. All results must be bit-identical. Non-trivial: at least one measurement in which a random component was active, and at least one disturbance; "
        "distinct by the sequence of operations, distortion types and sampler kinds.")
DISTINCT = "operation kinds, distortion types, sampler kinds of the run"
REAL = "Simulation, all distortions, samplers, both sensors, geometric ideal CSD, colorednoise"
STUBS = "clock (time.time & co. return simulated values); generators without seed come from the simulator; ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["fault:global-reseed", "fault:clock-jump", "fault:other-process", "fault:other-simulation", "fault:default-generator-consumed", "op:measure", "op:scan", "op:set"]
ASSUMPTIONS = ["generators are numpy Generators of any bit generator kind", "all generators are supplied, the configuration sampler is not used"]

CLOCKS = ("time", "monotonic", "perf_counter", "process_time")


class Clock:
    """Simulated time: advances by a seeded step on each reading."""

    def __init__(self, seed):
        self.r = Rnd(seed)
        self.t = self.r.u(1e8, 2e9)
        self.old = {}

    def read(self):
        self.t += self.r.u(0, 10)
        return self.t

    def __enter__(self):
        for n in CLOCKS:
            self.old[n] = getattr(time, n)
            setattr(time, n, self.read)
            self.old[n + "_ns"] = getattr(time, n + "_ns")
            setattr(time, n + "_ns", lambda: int(self.read() * 1e9))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(time, n, f)


def generate(r, tier, i):
    nm = rng_namer(r)
    spec = gen_spec(r, csd=(("geom", 2), ("steps", 4)), sensor=(("generic", 3), ("scan", 2)), samplers=0.6, nmax=3, none_lists=0.08)
    ops, cur = gen_session(r, spec, rng_namer(r, start=1000), n=(2, 7), muts=0.25, rejects=0.06, aborts=0.08, retune=0.08, direct=0.06, samplers=0.6)
    ops.append(world.gen_large(r, cur) if r.chance(0.3) else world.gen_measure(r, (cur["sensor"] or {"t": "generic"})["t"]))
    return {"spec": spec, "ops": ops, "rng": r.randrange(10 ** 9), "kind": r.wpick([("pcg", 3), ("mixed", 2)]), "plain": r.chance(0.3),
            "disturb": [[r.pick(["line", "line", "op"]), int(r.logu(1, 3000)), r.randrange(4), r.randrange(10 ** 6)] for _ in range(r.randrange(1, 12))],
            "others": [[r.randrange(10 ** 6), r.randrange(2)] for _ in range(r.randrange(0, 3))],
            "process": i % 24 == 0, "hash": r.randrange(1, 4 * 10 ** 9)}


def play(sc, disturbed):
    """The history of the session as digests per operation."""
    rngs = Rngs(sc["rng"], mode="plain" if sc["plain"] else "share", kind=sc["kind"])
    s = Session(sc["spec"], rngs)
    out = []
    lines = sorted([d for d in sc["disturb"] if d[0] == "line"], key=lambda d: d[1]) if disturbed else []
    count = [0]

    def disturb(d):
        r = Rnd(d[3])
        if d[2] == 0:
            random.seed(r.randrange(10 ** 9))
            np.random.seed(r.randrange(10 ** 9))
            stat("fault:global-reseed")
        elif d[2] == 1:
            random.random(), np.random.random(3), np.random.standard_normal()
            stat("fault:global-consumed")
        elif d[2] == 2:
            boot.AMBIENT.disturb(r)
            stat("fault:default-generator-consumed")
        else:
            clock[0].t += r.u(-1e6, 1e6)
            stat("fault:clock-jump")

    def hook(frame):
        count[0] += 1
        while lines and lines[0][1] <= count[0]:
            disturb(lines.pop(0))
    clock = [Clock(derive("clock", disturbed, sc["rng"]))]
    with clock[0]:
        for n, op in enumerate(sc["ops"]):
            if disturbed:
                for d in sc["disturb"]:
                    if d[0] == "op" and d[1] % max(1, len(sc["ops"])) == n:
                        disturb(d)
                res = Tracer(hook=hook).run(lambda: s.step(op)) if lines and op["op"] != "abort" else s.step(op)
            else:
                res = s.step(op)
            out.append([op["op"], res[0], digest(res), [x for x in res[4]] if res[0] == "ok" else res[1:]])
    return [json.dumps(o, default=str) for o in out]


def stat(k):
    from dst.rng import stat as s
    s(k)


def other_simulations(sc):
    for seed, kind in sc["others"]:
        r = Rnd(seed)
        spec = gen_spec(r, csd=(("geom", 1), ("steps", 3)), nmax=2) if kind else sc["spec"]
        s = Session(spec, Rngs(seed))
        ops, cur = gen_session(r, spec, rng_namer(r, start=5000), n=(1, 4))
        for op in ops + [o for o in sc["ops"] if o["op"] in ("measure", "scan") and kind == 0][:2]:
            try:
                s.step(op)
            except Exception:
                pass
        stat("fault:other-simulation")


def execute(sc, ctx):
    first = isolated(lambda: play(sc, False))

    def second():
        boot.AMBIENT.reset(derive("second", sc["rng"]) % 2 ** 31)
        other_simulations(sc)
        return play(sc, True)
    again = isolated(second)
    compare(ctx, sc, first, again, "a disturbed process in which other simulations ran")
    if sc["process"]:
        env = dict(os.environ, PYTHONHASHSEED=str(sc["hash"]))
        p = subprocess.run([sys.executable, "-c", "import sys,json; sys.path.insert(0, sys.argv[1])\nfrom dst.props import c01\nfrom dst import boot\n"
                            "import warnings; warnings.simplefilter('ignore')\nsc = json.load(sys.stdin); boot.AMBIENT.reset(sc['hash'] % 2 ** 31)\n"
                            "print(json.dumps(c01.play(sc, False)))", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))],
                           input=json.dumps(sc), capture_output=True, text=True, env=env, timeout=100)
        if p.returncode:
            raise RuntimeError(p.stderr[-1500:])
        ctx.stat("fault:other-process")
        compare(ctx, sc, first, json.loads(p.stdout), "another interpreter with another hash seed")
    kinds = sorted({d["t"] for k in ("occ", "pot", "resp") for d in sc["spec"].get(k) or []})
    samplers = sorted({v["s"] for k in ("occ", "pot", "resp") for d in sc["spec"].get(k) or [] for v in d.values() if isinstance(v, dict)})
    ctx.reach([o["op"] + (("1" if isinstance(o["res"], int) else "2") if "res" in o else o["mut"]["m"] if "mut" in o else "") for o in sc["ops"]], kinds, samplers, sc["kind"])
    ctx.nontrivial = bool(kinds) and bool(sc["disturb"])


def compare(ctx, sc, a, b, where):
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            ctx.violate("replay-differs", f"operation {n} ({sc['ops'][n]['op']}) repeated in {where}: {x[:200]} vs {y[:200]}")
    if len(a) != len(b):
        ctx.violate("replay-differs", f"{len(a)} vs {len(b)} operations")
