"""C15 Process-wide state is left alone."""
import copy
import ctypes
import decimal
import gc
import hashlib
import json
import locale
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import threading
import warnings

import numpy as np

from dst import boot, world
from dst.boot import AMBIENT
from dst.core import describe_exc, in_simcats
from dst.fault import EXC, Tracer, protected
from dst.isolate import isolated
from dst.props.c02 import private_snap
from dst.rng import Budget, RngFault, stat
from dst.sched import Scheduler, gen_switches
from dst.session import Session, first_difference, gen_session
from dst.world import Rngs, do_request, gen_default, gen_spec, rng_namer
from simcats import default_configs
from simcats.config_samplers import sample_random_variations_v3_config

RUNS = {"quick": 900, "thorough": 25000}
LEVEL = "exploration"
DRAW_BUDGET = 3_000_000
RULE = ("Each run first puts the process into a state of the user's own choice (warning filters, showwarning and formatwarning hooks, numpy error handling and print options, seeded global generators), including the legal choices "
        "that turn warnings or floating point events into exceptions. seq: one session of measurements, scans, parameter changes, retunings, copies, rejected calls, faulty constructor arguments and configuration samplings with "
        "aborts at random lines, aborts exactly while process-wide state is seen to be different, and failing draws; the state is compared after every operation. threads: two or three threads with simulations of their own "
        "under a scheduler that switches at random source lines and, additionally, right after every line that changed process-wide state; the state is compared at the end and every result with the thread's session run alone. "
        "import: a fresh interpreter that has imported the dependencies imports simcats. Non-trivial: at least one measurement or sampling ran; distinct by mode, schedule, the chosen user state and the operations.")
DISTINCT = "mode, schedule, user state, operation kinds, abort places"
REAL = "Simulation, all distortions, samplers, both sensors, geometric ideal CSD, reset_offset_mu_sens, sample_random_variations_v3_config, default_configs"
STUBS = "random generators; thread scheduler; ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["probe:seq", "probe:threads", "probe:import", "probe:sampled", "probe:sample-aborted", "probe:warned", "probe:default-config", "probe:bad-argument", "probe:copied", "fault:thread-switch",
          "fault:warning-as-error", "fault:fp-event-as-error", "fault:abort-while-different", "fault:draw-fails", "fault:abort-interrupt", "fault:abort-memory", "op:measure", "op:scan", "op:set", "op:retune", "op:reject"]
ASSUMPTIONS = ["the record of already shown warnings (__warningregistry__) and module imports are not state of the user", "threads use simulations and generators of their own"]
LIBM = ctypes.CDLL("libm.so.6")


# ---------------------------------------------------------------- what is looked at
def hooks():
    return [warnings.showwarning, warnings.formatwarning, warnings._showwarnmsg_impl, warnings.warn, sys.excepthook, threading.excepthook, sys.displayhook,
            np.geterrcall(), np.geterrobj if hasattr(np, "geterrobj") else None, random.random, np.random.random, np.random.seed, np.random.default_rng, np.seterr]


# memory of the two global Mersenne twisters: position and first words (reading them through the API copies 2.5 kB each time)
_PY = (ctypes.c_uint32 * 4).from_address(id(random._inst) + object.__basicsize__)
_MT = np.random.mtrand._rand._bit_generator
_NP = (ctypes.c_uint32 * 625).from_address(_MT.ctypes.state_address)


def cheap():
    """Process-wide (not thread-local) state, fast enough to be read at every source line."""
    return (tuple(warnings.filters), id(warnings.showwarning), id(warnings._showwarnmsg_impl), _NP[624], _NP[0], bytes(_PY))


def cheap_local():
    e = np.geterr()
    return cheap() + (e["divide"], e["over"], e["under"], e["invalid"], id(np.geterrcall()), np.get_printoptions()["precision"])


def denormals():
    with np.errstate(all="ignore"):
        return [float(np.float64(2.3e-308) / 4), float(np.float64(5e-324)), 1.0 + 2.0 ** -53, np.add(np.full(4, 1.0), 2.0 ** -53).tolist(), (np.full(8, 3e-308) / 7).tolist()]


def full():
    """Everything, as plain data by name."""
    return {
        "warnings.filters": [repr(f) for f in warnings.filters],
        "hooks": [id(h) for h in hooks()],
        "numpy error handling": sorted(np.geterr().items()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=lambda t: t[0])),
        "numpy.random state": hashlib.sha256(repr(np.random.get_state(legacy=False)["bit_generator"]).encode() + np.random.get_state(legacy=False)["state"]["key"].tobytes()
                                             + repr((np.random.get_state(legacy=False)["state"]["pos"], np.random.get_state(legacy=False)["has_gauss"])).encode()).hexdigest(),
        "random state": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        "floating point environment": [LIBM.fegetround()] + denormals(),
        "decimal context": repr(decimal.getcontext()),
        "recursion limit, gc, switch interval": [sys.getrecursionlimit(), gc.isenabled(), gc.get_threshold(), sys.getswitchinterval()],
        "environment": sorted(os.environ.items()), "directory": os.getcwd(), "umask": _umask(), "sys.path": list(sys.path),
        "locale": locale.setlocale(locale.LC_ALL), "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGFPE, signal.SIGALRM, signal.SIGTERM)],
        "logging": [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable],
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        "threads": threading.active_count(),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def differing(a, b):
    for k in a:
        if a[k] != b[k]:
            return f"{k}: {str(a[k])[:200]} -> {str(b[k])[:200]}"
    return None


# ---------------------------------------------------------------- the user's own state
def _mine(*a, **k):
    stat("probe:warned")


def _errcall(*a):
    pass


def gen_user(r):
    f = []
    for _ in range(r.randrange(4)):
        f.append([r.pick(["ignore", "always", "default", "once", "error", "module"]), r.pick(["Warning", "UserWarning", "RuntimeWarning", "DeprecationWarning"]), r.pick(["", "foo"])])
    u = {"filters": f, "hook": r.chance(0.5), "base": r.pick(["always", "default", "ignore"]), "print": r.pick([None, 3, 12]), "seed": r.randrange(2 ** 31)}
    u["err"] = {k: r.wpick([("warn", 4), ("ignore", 3), ("call", 1), ("raise", 0.4)]) for k in ("divide", "over", "under", "invalid")}
    if u["err"]["under"] == "raise" and r.chance(0.8):
        u["err"]["under"] = "ignore"
    return u


def enter_process(u):
    warnings.resetwarnings()
    warnings.simplefilter(u["base"])
    for action, cat, msg in u["filters"]:
        warnings.filterwarnings(action, category={"Warning": Warning, "UserWarning": UserWarning, "RuntimeWarning": RuntimeWarning, "DeprecationWarning": DeprecationWarning}[cat], message=msg)
    warnings.showwarning = _mine if u["hook"] else (lambda *a, **k: stat("probe:warned"))
    random.seed(u["seed"])
    random.gauss(0, 1)
    np.random.seed(u["seed"])
    np.random.normal()
    if u["print"]:
        np.set_printoptions(precision=u["print"])


def enter_thread(u):
    """The part of the state that numpy keeps per thread."""
    np.seterr(**u["err"])
    np.seterrcall(_errcall)
    if u["print"]:
        np.set_printoptions(precision=u["print"])


# ---------------------------------------------------------------- generation
def gen_kw(r):
    return dict(sensor_type=r.pick(["SensorGeneric", "SensorScanSensorGeneric"]), quality_multiplier=r.pick([1.0, 0.3, 1e-3]), compensated_sensor=r.chance(0.4), set_sensor_potential_offset_to_steepest_point=r.chance(0.2))


def gen_one(r, default=0.15, start=100, threads=False):
    if r.chance(default):
        spec = gen_default(r)
    else:
        spec = gen_spec(r, csd=(("geom", 3), ("steps", 3)), sensor=(("generic", 2), ("scan", 3)), samplers=0.4, nmax=2, deform=0.5)
        for lst in ("occ", "pot", "resp"):
            for d in spec[lst] or []:
                if "ratio" in d and r.chance(0.5):
                    d["ratio"] = 1
                if d["t"] in ("prtn", "rrtn") and r.chance(0.15):
                    d["height"] = 0.5       # large enough to make responses negative: the library warns
        if not threads and r.chance(0.3):
            for lst in ("occ", "pot", "resp"):
                for d in spec[lst] or []:
                    if "rng" in d and r.chance(0.5):
                        d["rng"] = None     # the library's default generator
    ops, cur = gen_session(r, spec, rng_namer(r, start=start), n=(2, 6), muts=0.2, rejects=0.1, aborts=0.15, direct=0.12, samplers=0.3)
    return spec, ops, cur


def generate(r, tier, i):
    if i % 150 == 7:
        return {"mode": "import", "user": gen_user(r)}
    mode = "seq" if i % 2 else "threads"
    sc = {"mode": mode, "user": gen_user(r), "rng": r.randrange(10 ** 9)}
    if mode == "threads":
        sc["specs"], sc["sessions"] = [], []
        for k in range(r.wpick([(2, 4), (3, 1)])):
            spec, ops, cur = gen_one(r, start=1000 + 500 * k, threads=True)
            ops = ops[:4] + [world.gen_request(r, cur)]
            sc["specs"].append(spec)
            sc["sessions"].append(ops)
        sc["switches"] = gen_switches(r)
        return sc
    spec, ops, cur = gen_one(r)
    extra = []
    for _ in range(r.randrange(2, 5)):
        k = r.wpick([("different", 4), ("drawfail", 2), ("copy", 1), ("bad", 1), ("sample", 0.7), ("request", 2)])
        o = {"op": k}
        if k in ("different", "drawfail"):
            o.update(base=world.gen_request(r, cur), skip=r.pick([0, 1, 1, 2, 3, 5]), exc=r.pick(["interrupt", "memory", "runtime"]), nth=r.randrange(1, 5), which=r.randrange(100))
        elif k == "bad":
            o["what"] = r.randrange(7)
        elif k == "sample":
            o.update(kw=gen_kw(r), seed=r.randrange(10 ** 6), how=r.pick(["plain", "line", "different", "draw"]), at=r.random(), skip=r.randrange(3), nth=r.randrange(1, 4), exc=r.pick(["interrupt", "memory"]))
        elif k == "copy":
            o["how"] = r.pick(["deep", "pickle"])
        elif k == "request":
            o = world.gen_request(r, cur)
        extra.append(o)
    ops = ops + extra
    if r.chance(0.5):
        ops.append(world.gen_request(r, cur))
    return dict(sc, spec=spec, ops=ops)


# ---------------------------------------------------------------- execution
class Different:
    """Raises while the process-wide state is not the user's: in the skip-th such stretch of the call, at its line-th source line."""

    def __init__(self, skip, line, exc):
        self.base, self.skip, self.left, self.exc, self.where, self.last = cheap_local(), skip, line, exc, None, True

    def __call__(self, frame):
        same = cheap_local() == self.base
        if not same and self.where is None:
            if self.last:
                self.skip -= 1
            if self.skip < 0:
                if self.left <= 0 and not protected(frame):
                    self.where = (frame.f_code.co_name, frame.f_lineno)
                    stat("fault:abort-while-different")
                    raise self.exc
                self.left -= 1
        self.last = same


def run_sample(op, ctx):
    from dst.props.c13 import Streams
    st = Streams(op["seed"], None)
    if op["how"] == "draw":
        st.fail_at = 1 + int(op["at"] * 60)
    AMBIENT.factory = st
    place = None
    exc = EXC[op["exc"]]("injected by the simulator")
    try:
        if op["how"] == "line":
            t = Tracer(raise_at=1 + int(op["at"] ** 2 * 6000), exc=exc)
            t.run(lambda: sample_random_variations_v3_config(**op["kw"]))
        elif op["how"] == "different":
            h = Different(op["skip"], op["nth"] - 1, exc)
            Tracer(hook=h).run(lambda: sample_random_variations_v3_config(**op["kw"]))
        else:
            sample_random_variations_v3_config(**op["kw"])
        ctx.stat("probe:sampled")
    except BaseException as e:
        if e is exc or isinstance(e, RngFault):
            ctx.stat("probe:sample-aborted")
            place = "aborted"
        elif not (isinstance(e, Exception) and in_simcats(e.__traceback__)):
            raise
    finally:
        AMBIENT.factory = None
    return place


def bad_argument(what, ctx):
    from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
    from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, UniformSamplingRange
    g = np.random.Generator(np.random.PCG64(5))
    try:
        [lambda: UniformSamplingRange((0, 1), 3.0, rng=g), lambda: NormalSamplingRange((0, 1), 0.1, 5.0, rng=g), lambda: SensorPotentialPinkNoise(sigma=1e-4, fmin=0.9, rng=g),
         lambda: ExponentialSamplingRange((1, 0), 0.1, 2.0, rng=g), lambda: LogNormalSamplingRange((0, 1), 7.0, rng=g), lambda: OccupationDotJumps(scale=-1, lam=None, axis=7, ratio=3, rng=g),
         lambda: (SensorPotentialRTN(scale=-1, std="x", height=None, ratio=-1, rng=g), OccupationTransitionBlurringGaussian(None), SensorGeneric(alpha_dot=[1], alpha_gate=None), SensorScanSensorGeneric(None, None, None))][what % 7]()
    except Exception as e:
        if not in_simcats(e.__traceback__) and not isinstance(e, TypeError):
            raise
    ctx.stat("probe:bad-argument")


def step(ses, op):
    try:
        return ses.step(op)
    except Exception as e:      # parameter changes and direct calls raise if the user turned warnings into errors
        if not in_simcats(e.__traceback__):
            raise
        return ["raised", describe_exc(e)]


def judge(ctx, base, what):
    d = differing(base, full())
    if d:
        ctx.violate("state-changed", f"after {what}: {d}")


def run_seq(sc, ctx):
    ctx.stat("probe:seq")
    dflt = private_snap(default_configs)
    enter_process(sc["user"])
    enter_thread(sc["user"])
    base = full()
    rngs = Rngs(sc["rng"])
    try:
        ses = Session(sc["spec"], rngs)
    except Exception as e:      # e.g. a warning turned into an error
        if not in_simcats(e.__traceback__):
            raise
        judge(ctx, base, "a failed construction")
        return
    judge(ctx, base, "constructing the simulation")
    if sc["spec"].get("default"):
        ctx.stat("probe:default-config")
    kinds = []
    for n, op in enumerate(sc["ops"]):
        k = op["op"]
        what = f"operation {n} ({k})"
        if k in ("different", "drawfail"):
            exc = EXC[op["exc"]]("injected by the simulator")
            h = None
            if k == "different":
                h = Different(op["skip"], op["nth"] - 1, exc)
                call = lambda: Tracer(hook=h).run(lambda: do_request(ses.sim, op["base"]))  # noqa: E731
            else:
                used = sorted(rngs.all)
                if used:
                    g = rngs.all[used[op["which"] % len(used)]]
                    g.fail_at, g.fail_exc = g.calls + op["nth"], (lambda msg, e=exc: e)
                call = lambda: do_request(ses.sim, op["base"])  # noqa: E731
            try:
                call()
                kinds.append((k, "finished"))
            except BaseException as e:
                if e is not exc and not (isinstance(e, Exception) and in_simcats(e.__traceback__)):
                    raise
                kinds.append((k, type(e).__name__, h and h.where))
                what += f" aborted at {h and h.where}"
            for g in rngs.all.values():
                g.fail_at = None
        elif k == "copy":
            ctx.stat("probe:copied")
            ses.sim = copy.deepcopy(ses.sim) if op["how"] == "deep" else pickle.loads(pickle.dumps(ses.sim))
            kinds.append(k)
        elif k == "bad":
            bad_argument(op["what"], ctx)
            kinds.append((k, op["what"]))
        elif k == "sample":
            kinds.append((k, op["how"], run_sample(op, ctx)))
        else:
            Budget.spend(100)
            res = step(ses, op)
            kinds.append((k, res[0]))
            if res[0] == "raised":
                what += f" that raised {res[1][:80]}"
                if "Warning" in res[1]:
                    ctx.stat("fault:warning-as-error")
                elif "FloatingPoint" in res[1]:
                    ctx.stat("fault:fp-event-as-error")
        if k == "abort" and kinds[-1][1] != "aborted":
            pass
        judge(ctx, base, what)
    if private_snap(default_configs) != dflt:
        ctx.violate("default-config-changed", "default_configs changed")
    ctx.nontrivial = any(len(k) > 1 and k[1] in ("ok", "finished", "aborted") or k[0] == "sample" for k in kinds if isinstance(k, tuple))
    ctx.reach("seq", sc["user"]["filters"], sc["user"]["err"], kinds, sc["spec"].get("default", ""))


class Adaptive(Scheduler):
    """Additionally hands over right after a line that changed process-wide state."""

    def __init__(self, switches):
        super().__init__(switches)
        self.seen = cheap()
        self.forced = 0

    def _tick(self, me, where):
        now = cheap()
        if now != self.seen:
            self.seen = now
            others = [i for i in range(len(self.alive)) if self.alive[i] and i != me]
            if others and self.forced < 300:
                self.forced += 1
                self.done_switches += 1
                self._hand(me, others[self.forced % len(others)])
                self.seen = cheap() if self.forced >= 300 else self.seen
        super()._tick(me, where)


def thread_body(sc, k, out, local):
    def body():
        np.seterr(**sc["user"]["err"])
        np.seterrcall(_errcall)
        before = (np.geterr(), repr(np.get_printoptions()))
        ses = None
        try:
            ses = Session(sc["specs"][k], Rngs((sc["rng"], k), mode="copy"))
        except Exception as e:
            if not in_simcats(e.__traceback__):
                raise
            out.append(["raised", describe_exc(e)])
        for op in sc["sessions"][k] if ses else []:
            out.append(step(ses, op))
        after = (np.geterr(), repr(np.get_printoptions()))
        if before != after or np.geterrcall() is not _errcall:
            local.append(f"thread {k}: {before[0]} -> {after[0]}, print options {'changed' if before[1] != after[1] else 'same'}")
    return body


def run_threads(sc, ctx):
    ctx.stat("probe:threads")
    n = len(sc["sessions"])

    def alone(k):
        enter_process(sc["user"])
        out = []
        t = Scheduler([])
        t.run([thread_body(sc, k, out, [])])
        return out
    want = [isolated(lambda k=k: alone(k)) for k in range(n)]
    dflt = private_snap(default_configs)
    enter_process(sc["user"])
    base = full()
    out, local = [[] for _ in range(n)], []
    Adaptive(sc["switches"]).run([thread_body(sc, k, out[k], local) for k in range(n)])
    judge(ctx, base, f"{n} threads used simulations of their own")
    if local:
        ctx.violate("state-changed", "numpy state of a thread: " + local[0])
    if private_snap(default_configs) != dflt:
        ctx.violate("default-config-changed", "default_configs changed by threads")
    kinds = []
    for k in range(n):
        if sc["specs"][k].get("default"):
            ctx.stat("probe:default-config")
        for j, (a, b) in enumerate(zip(want[k], out[k])):
            d = None if sc["specs"][k].get("default") else first_difference(b, a)     # default configurations draw from the library's own shared generators
            if d:
                ctx.violate("threads-interfere", f"thread {k}, operation {j} ({sc['sessions'][k][j]['op']}) differs from the same session run alone: {d}")
        if len(want[k]) != len(out[k]):
            ctx.violate("threads-interfere", f"thread {k} stopped early")
        kinds.append([(o["op"], x[0]) for o, x in zip(sc["sessions"][k], out[k])])
    ctx.nontrivial = sum(any(x[0] == "ok" for x in o) for o in out) >= 2
    ctx.reach("threads", kinds, sc["switches"][:20], sc["user"]["err"])


IMPORT = """
import json, sys
sys.path.insert(0, {verif!r})
mods = json.loads(sys.argv[1]); user = json.loads(sys.argv[2])
import importlib
for m in mods:
    try:
        importlib.import_module(m)
    except Exception:
        pass
import types
# the checks' own module, without its simcats imports
src = open({here!r}).read()
keep = src.split("# ---------------------------------------------------------------- generation")[0]
keep = "\\n".join(l for l in keep.split("\\n") if not l.startswith(("from dst", "from simcats")))
ns = {{"stat": lambda *a: None}}
exec(compile(keep, "c15", "exec"), ns)
sys.path.insert(0, {repo!r})
sys.dont_write_bytecode = True
ns["enter_process"](user); ns["enter_thread"](user)
user["filters"] = []
base = ns["full"]()
import warnings
import simcats, simcats.config_samplers, simcats.sensor.deformation, simcats.sensor.barrier_function, simcats.ideal_csd.geometric, simcats.support_functions, simcats.distortions
print("RESULT", json.dumps(ns["differing"](base, ns["full"]())))
"""


def run_import(sc, ctx):
    ctx.stat("probe:import")
    mods = sorted(m for m in sys.modules if not m.startswith(("simcats", "dst", "__main__")) and "." not in m)
    mods += [m for m in sorted(sys.modules) if m.startswith(("scipy.", "numpy.", "matplotlib.", "colorednoise", "sympy.")) and "._" not in m and not m.startswith("numpy.distutils")]
    u = json.loads(json.dumps(sc["user"]))
    u["filters"] = [f for f in u["filters"] if f[0] != "error"]
    u["err"] = {k: ("warn" if v == "raise" else v) for k, v in u["err"].items()}
    src = IMPORT.format(verif=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), here=os.path.abspath(__file__), repo=boot.REPO)
    p = subprocess.run([sys.executable, "-c", src, json.dumps(mods), json.dumps(u)], capture_output=True, text=True, timeout=100)
    line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
    if p.returncode or not line:
        from dst.core import HarnessError
        raise HarnessError(f"import run failed: {p.stderr[-1500:]}")
    d = json.loads(line[0][7:])
    if d:
        ctx.violate("import-changes-state", f"importing simcats: {d}")
    ctx.nontrivial = True
    ctx.reach("import", sc["user"]["filters"], sc["user"]["err"])


def execute(sc, ctx):
    {"seq": run_seq, "threads": run_threads, "import": run_import}[sc["mode"]](sc, ctx)
