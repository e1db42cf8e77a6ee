"""C12 Parameter samplers stay in range and report truthfully."""
import copy
import math
import pickle

import numpy as np
from scipy import stats as st

from dst import fault, world
from dst.boot import AMBIENT
from dst.core import Rnd, describe_exc
from dst.rng import Budget, RngFault, sim_rng, plain_rng
from dst.world import Rngs, build_distortion, build_param, build_sim, rng_namer
from simcats.support_functions import ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange, ParameterSamplingInterface, UniformSamplingRange

RUNS = {"quick": 4000, "thorough": 80000}
LEVEL = "exploration"
DRAW_BUDGET = 3_000_000
RULE = ("Four kinds of runs. history: samplers of all types, with and without a reduced sampling range, go through random sequences of draws, queries, copies (copy, deepcopy, pickle), disturbances of all global randomness and "
        "aborted draws (a failing generator call, also within the rejection loop, or an exception at any line), with rare outcomes forced; every value is compared with a model (range, one window shared with all copies, "
        "last_sample) and with an undisturbed twin on a generator in the same state. windows: many samplers are built, with forced extreme window positions. law: many values against the documented distribution truncated to "
        "the range (Kolmogorov bound with tail 1e-11, also for windows forced to the ends of the range and for ranges that reject most draws). distortions: sampled parameters of all distortions over a sequence of measurements and aborted measurements: fresh value each time, last_sample is the value the noise has. "
        "Non-trivial: values were drawn; distinct by kind, sampler type, range kinds, operations.")
DISTINCT = "kind of run, sampler type, window, operation sequence"
REAL = "NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange, ExponentialSamplingRange; all distortions and Simulation in the distortion runs"
STUBS = "random generators (SimRng, same streams as numpy, with forced outcomes and failing draws); cheap ideal CSD"
PROBES = ["probe:" + t for t in ("uniform", "normal", "lognormal", "exp", "window", "wide-window", "copied", "pickled", "no-rng", "reversed-range", "zero-width", "negative-range", "rejected-draw", "law", "windows",
                                 "abort-in-loop", "fresh-jumps", "fresh-gauss", "fresh-fermi", "fresh-pink", "fresh-prtn", "fresh-rrtn", "fresh-white", "value-white", "value-pink", "value-prtn", "value-rrtn", "aborted-measurement")] + [
    "fault:draw-fails", "fault:abort-memory", "fault:abort-interrupt", "fault:forced-uniform", "fault:forced-normal", "fault:forced-lognormal", "fault:forced-exponential", "probe:disturbed", "probe:window-law", "probe:rejects-most"]
ASSUMPTIONS = ["window edges may exceed the total range by rounding (1e-12 of the voltages involved)", "total_range is ascending except for exponential samplers"]
BUG = {"uniform": 0.35, "normal": 0.3, "lognormal": 0.3, "exponential": 0.3}
CLS = {"uniform": UniformSamplingRange, "normal": NormalSamplingRange, "lognormal": LogNormalSamplingRange, "exp": ExponentialSamplingRange}


def gen_sampler(r, width=0.5, t=None):
    t = t or r.pick(sorted(CLS))
    mag = r.pick([1.0, 1e-3, 1e-6, 50.0])
    lo, hi = sorted((r.u(-1, 1, 4), r.u(-1, 1, 4)))
    if t == "lognormal":
        lo, hi = r.u(0.05, 1, 3), r.u(1.2, 5, 3)
    elif r.chance(0.3):
        lo, hi = abs(lo), abs(lo) + hi - lo
    if hi - lo < 0.02:
        hi = lo + 0.5
    lo, hi = lo * mag, hi * mag
    span = hi - lo
    p = {"s": t, "range": [lo, hi]}
    if r.chance(width):
        p["width"] = span * r.wpick([(r.u(0.2, 0.95, 3), 6), (1.0, 1), (r.u(1.0, 3, 3), 1), (0.05, 0.7)])
    if t == "normal":
        p["std"] = span * r.u(0.4, 2, 3)
        if r.chance(0.5):
            p["mean"] = lo + span * r.u(0, 1, 3)
    elif t == "lognormal":
        p["mean"] = round(math.log((lo + hi) / 2), 5)
        p["sigma"] = r.u(1.0 if "width" in p else 0.4, 1.5, 3)      # a window at the end of the range must be hit in reasonable time
    elif t == "exp":
        p["scale"] = r.u(0.05, 2, 3)
        if r.chance(0.4):
            p["range"] = [hi, lo]
    elif r.chance(0.06):
        if r.chance(0.5):
            p["range"] = [lo, lo]
        else:
            p["width"] = 0.0
    return p


def gen_tail(r):
    """Ranges of which the distribution hits only little: most draws are rejected."""
    t = r.pick(["normal", "lognormal", "exp"])
    lo = r.u(0.1, 2, 3)
    w = r.u(0.2, 2, 3)
    p = {"s": t, "range": [lo, lo + w]}
    q = r.logu(2e-3, 5e-2)
    if t == "normal":
        p["std"] = w * r.u(0.5, 3, 3)
        p["mean"] = lo - p["std"] * float(st.norm.isf(q)) if r.chance(0.5) else lo + w + p["std"] * float(st.norm.isf(q))
        if r.chance(0.3):
            p.update(mean=lo + w * r.u(0, 1, 2), std=w * 0.4 / q)
    elif t == "lognormal":
        p["sigma"] = r.u(0.3, 1.5, 2)
        p["mean"] = round(math.log(lo) - p["sigma"] * float(st.norm.isf(q)), 5)
    else:
        p["scale"] = 1 / q
        if r.chance(0.5):
            p["range"].reverse()
    return p


def generate(r, tier, i):
    kind = ("history", "history", "distortions", "law", "history", "windows")[i % 6]
    sc = {"kind": kind, "seed": r.randrange(10 ** 9), "bit": r.pick(["pcg", "pcg", "philox", "mt"])}
    if kind == "history":
        sc["p"] = gen_sampler(r)
        sc["bug"] = BUG if r.chance(0.5) else None
        sc["share"] = r.chance(0.5)
        sc["norng"] = r.chance(0.12)
        ops = []
        for _ in range(r.randrange(3, 40)):
            o = r.wpick([("draw", 8), ("last", 1.5), ("copy", 1.2), ("disturb", 1), ("fail", 0.8), ("abort", 0.6), ("repr", 0.3)])
            op = {"o": o, "on": r.randrange(1000)}
            if o == "copy":
                op["how"] = r.pick(["copy", "deepcopy", "pickle"])
            elif o == "fail":
                op.update(k=r.randrange(1, 4), exc=r.pick(["rng", "interrupt"]))
            elif o == "abort":
                op.update(k=r.randrange(1, 7), exc=r.pick(["memory", "interrupt"]))
            elif o == "disturb":
                op["rnd"] = r.randrange(10 ** 6)
            ops.append(op)
        sc["ops"] = ops
    elif kind == "law":
        sc["p"] = gen_sampler(r, width=0.45)
        sc["n"] = r.pick([300, 600, 1500])
        if r.chance(0.2):
            sc["p"], sc["n"], sc["tail"] = gen_tail(r), 200, True
        # windows at the very ends of the range
        sc["bug"] = {"uniform": 0.6} if sc["p"]["s"] != "uniform" and r.chance(0.6) else None
    elif kind == "windows":
        sc["p"] = gen_sampler(r, width=1)
        while sc["p"]["range"][0] == sc["p"]["range"][1]:
            sc["p"] = gen_sampler(r, width=1)
        sc["p"]["width"] = abs(np.subtract(*sc["p"]["range"])) * r.u(0.1, 0.95, 3)
        sc["n"] = r.randrange(20, 60)
        sc["bug"] = BUG if r.chance(0.5) else None
    else:
        namer = rng_namer(r, shared=False)
        t = r.pick(["jumps", "gauss", "fermi", "pink", "prtn", "rrtn", "white"])
        s = lambda lo, hi: gen_abs(r, lo, hi, namer)    # noqa: E731
        if t == "jumps":
            d = {"t": t, "axis": r.randrange(2), "scale": s(0.001, 0.02), "lam": s(0.0005, 0.005), "ratio": r.pick([1, 1, 0.5]), "rng": namer()}
        elif t in ("gauss", "fermi"):
            d = {"t": t, "sigma": s(0.0002, 0.002)}
        elif t in ("pink", "white"):
            d = {"t": t, "sigma": s(0.01, 0.1), "rng": namer()}
            if t == "pink":
                d["fmin"] = 0
        else:
            d = {"t": t, "scale": s(0.002, 0.02), "std": s(0.001, 0.01), "height": s(0.1, 1), "ratio": r.pick([1, 1, 0.5]), "rng": namer()}
        sc["d"] = d
        scan = r.chance(0.35)
        sc["spec"] = {"csd": {"t": "steps"}, "sensor": world.gen_scan_sensor(r, deform=0) if scan else world.gen_generic(r), "occ": [], "pot": [], "resp": [], "limits": {}}
        sc["spec"]["occ" if t in ("jumps", "gauss", "fermi") else "pot" if t in ("pink", "prtn") else "resp"] = [d]
        sc["ops"] = []
        for _ in range(r.randrange(3, 8)):
            op = world.gen_request(r, sc["spec"], 0.4 if t not in ("jumps", "gauss", "fermi") else 0)
            if r.chance(0.25):
                op["abort"] = r.randrange(1, 900)
                op["exc"] = r.pick(["memory", "interrupt"])
            sc["ops"].append(op)
        sc["direct"] = [r.randrange(10 ** 6), r.randrange(10 ** 6)]
        sc["shape"] = r.pick([[40], [5, 9], [6, 6]])
    return sc


def gen_abs(r, lo, hi, namer):
    t = r.pick(sorted(CLS))
    p = {"s": t, "range": [lo, hi], "rng": namer.private()}
    if r.chance(0.4):
        p["width"] = (hi - lo) * r.u(0.3, 0.9, 3)
    if t == "normal":
        p["std"] = (hi - lo) * r.u(0.3, 1, 3)
    elif t == "lognormal":
        p.update(mean=round(math.log((lo + hi) / 2), 5), sigma=r.u(0.3, 1, 2))
    elif t == "exp":
        p["scale"] = r.u(0.1, 1, 2)
        if r.chance(0.3):
            p["range"] = [hi, lo]
    return p


def make(p, rng):
    class One:
        def get(self, k):
            return rng
    return build_param(p, One())


def bounds(p):
    return min(p["range"]), max(p["range"])


def tol(p):
    return 1e-12 * max(abs(x) for x in p["range"]) + 1e-300


def windowed(p):
    lo, hi = bounds(p)
    return p.get("width") is not None and p["width"] < hi - lo


def check_value(ctx, p, v, what):
    lo, hi = bounds(p)
    if isinstance(v, (bool, str)) or np.ndim(v) != 0 or not np.isfinite(float(v)):
        ctx.violate("not-a-number", f"{what}: {v!r}")
    if not lo - tol(p) <= v <= hi + tol(p):
        ctx.violate("out-of-range", f"{what}: {v!r} outside the total range {p['range']} of a {p['s']} sampler (sampling range {p.get('width')})")


def check_window(ctx, p, vals, what):
    if windowed(p) and vals and max(vals) - min(vals) > p["width"] * (1 + 1e-9) + 4 * tol(p):
        ctx.violate("window", f"{what}: values {min(vals)!r} to {max(vals)!r} of one {p['s']} sampler do not fit into a window of {p['width']!r}")


def note(ctx, p):
    ctx.stat("probe:" + p["s"])
    if p.get("width") is not None:
        ctx.stat("probe:window" if windowed(p) else "probe:wide-window")
    if p["range"][0] > p["range"][1]:
        ctx.stat("probe:reversed-range")
    if p["range"][0] == p["range"][1] or p.get("width") == 0:
        ctx.stat("probe:zero-width")
    if min(p["range"]) < 0:
        ctx.stat("probe:negative-range")


def run_history(sc, ctx):
    p = sc["p"]
    note(ctx, p)
    gen = lambda: sim_rng(sc["seed"], sc["share"], sc["bug"], sc["bit"])  # noqa: E731
    if sc["norng"]:
        ctx.stat("probe:no-rng")
        AMBIENT.factory = lambda n: sim_rng(sc["seed"] + n, sc["share"], sc["bug"], sc["bit"])
        s, rng, twin = make(p, None), None, None
        AMBIENT.factory = None
    else:
        rng = gen()
        s = make(p, rng)
        twin = make(p, gen())
    req = AMBIENT.requests
    group = [{"s": s, "last": None, "clean": not sc["norng"], "rng": rng}]
    vals, done = [], []
    for i, op in enumerate(sc["ops"]):
        g = group[op["on"] % len(group)]
        what = f"operation {i} ({op['o']})"
        if op["o"] == "draw":
            before = g["rng"].calls if g["rng"] is not None else 0
            v = g["s"].sample_parameter()
            check_value(ctx, p, v, what)
            vals.append(float(v))
            check_window(ctx, p, vals, what)
            g["last"] = v
            g.setdefault("seq", []).append(v)
            ctx.nontrivial = True
            if g["rng"] is not None and g["rng"].calls - before > 1:
                ctx.stat("probe:rejected-draw")
        elif op["o"] == "repr":
            repr(g["s"])
        elif op["o"] == "disturb":
            ctx.stat("probe:disturbed")
            AMBIENT.disturb(Rnd(op["rnd"]))
        elif op["o"] == "copy" and len(group) < 6:
            how = op["how"]
            if sc["norng"] and how == "copy":
                how = "deepcopy"
            n = copy.copy(g["s"]) if how == "copy" else copy.deepcopy(g["s"]) if how == "deepcopy" else pickle.loads(pickle.dumps(g["s"]))
            ctx.stat("probe:pickled" if how == "pickle" else "probe:copied")
            alone = how == "pickle" or how == "deepcopy" and not sc["share"]
            if alone:
                # a checkpoint: continues exactly like the original would
                a, b = copy.deepcopy(n) if not sc["share"] else pickle.loads(pickle.dumps(n)), pickle.loads(pickle.dumps(g["s"]))
                va, vb = [a.sample_parameter() for _ in range(4)], [b.sample_parameter() for _ in range(4)]
                if va != vb:
                    ctx.violate("copy-differs", f"{what}: a copy ({how}) continues with {va}, the original with {vb}")
                for v in va:
                    check_value(ctx, p, v, what)
                check_window(ctx, p, vals + [float(v) for v in va], what + f" by {how}")
            group.append({"s": n, "last": g["last"], "clean": False, "rng": None if alone or sc["norng"] else rng})
            if not alone:
                for x in group:
                    x["clean"] = x["clean"] and False       # they take turns on one stream
        elif op["o"] == "fail" and g["rng"] is not None:
            g["rng"].fail_at = g["rng"].calls + op["k"]
            g["rng"].fail_exc = RngFault if op["exc"] == "rng" else fault.Interrupt
            before = g["rng"].calls
            try:
                v = g["s"].sample_parameter()
            except (RngFault, fault.Interrupt):
                g["clean"] = False
                if g["rng"].calls - before > 1:
                    ctx.stat("probe:abort-in-loop")
            else:
                check_value(ctx, p, v, what)
                vals.append(float(v))
                g["last"] = v
                g.setdefault("seq", []).append(v)
            g["rng"].fail_at = None
        elif op["o"] == "abort":
            before = g["last"]
            res, v, exc, fired = fault.abort_at(g["s"].sample_parameter, op["k"], op["exc"])
            if res == "finished":
                check_value(ctx, p, v, what)
                vals.append(float(v))
                g["last"] = v
                g.setdefault("seq", []).append(v)
            else:
                g["clean"] = False
                if res == "other":
                    ctx.violate("abort-replaced", f"{what}: {describe_exc(exc)} became {describe_exc(v)}")
                now = g["s"].last_sample()
                if now is not before and now != before:
                    # interrupted between storing and returning a finished draw
                    check_value(ctx, p, now, what)
                    vals.append(float(now))
                    g["last"] = now
        for j, x in enumerate(group):
            got = x["s"].last_sample()
            if (got is None) != (x["last"] is None) or got is not None and got != x["last"]:
                ctx.violate("last-sample", f"after {what} on sampler {op['on'] % len(group)}: last_sample() of sampler {j} is {got!r}, its latest successful draw gave {x['last']!r}")
        done.append(op["o"])
    check_window(ctx, p, vals, "all operations")
    if AMBIENT.requests != req:
        ctx.violate("other-generator", f"{AMBIENT.requests - req} generators were created while sampling")
    g = group[0]
    if g["clean"] and twin is not None:
        want = [twin.sample_parameter() for _ in g.get("seq", [])]
        if g.get("seq", []) != want:
            ctx.violate("depends-on-more", f"{p['s']} sampler drew {g['seq'][:6]}, an undisturbed one on a generator in the same state {want[:6]}")
    ctx.reach(p["s"], windowed(p), sc["norng"], tuple(done[:8]), len(vals))


def cdf(p):
    lo, hi = bounds(p)
    if p["s"] == "uniform":
        return lambda x: (x - lo) / (hi - lo)
    if p["s"] == "normal":
        d = st.norm(p.get("mean", (lo + hi) / 2), p["std"])
    elif p["s"] == "lognormal":
        d = st.lognorm(s=p["sigma"], scale=math.exp(p["mean"]))
    else:
        d = st.expon(scale=p["scale"])
        a, b = p["range"]
        return lambda x: d.cdf((x - a) / (b - a)) / d.cdf(1.0)
    return lambda x: (d.cdf(x) - d.cdf(lo)) / (d.cdf(hi) - d.cdf(lo))


def window_misfit(p, x):
    """Smallest Kolmogorov distance of the (sorted) values to the law in any window they fit into."""
    lo, hi = bounds(p)
    w, n = p["width"], len(x)
    means = [p["mean"]] if p.get("mean") is not None else [(lo + hi) / 2, None]     # of the total range or of the window
    a0, a1 = max(lo, x[-1] - w), min(hi - w, x[0])
    up, down = np.arange(1, n + 1) / n, np.arange(n) / n

    def dist(a, mean):
        q = dict(p, range=[a, a + w] if p["range"][0] < p["range"][1] else [a + w, a])
        if p["s"] == "normal":
            q["mean"] = a + w / 2 if mean is None else mean
        u = np.clip(cdf(q)(x), 0, 1)
        if q["range"][0] > q["range"][1]:
            u = 1 - u           # falls along x
        return max((up - u).max(), (u - down).max())
    best = 1.0
    for mean in means if p["s"] == "normal" else [0]:
        grid = np.linspace(a0, max(a0, a1), 41)
        d = [dist(a, mean) for a in grid]
        k = int(np.argmin(d))
        fine = np.linspace(grid[max(k - 1, 0)], grid[min(k + 1, 40)], 21)
        best = min(best, min(d), *(dist(a, mean) for a in fine))
    return best


def run_law(sc, ctx):
    p = sc["p"]
    note(ctx, p)
    ctx.stat("probe:law")
    s = make(p, plain_rng(sc["seed"], sc["bit"]) if not sc.get("bug") else sim_rng(sc["seed"], True, sc["bug"], sc["bit"]))
    lo, hi = bounds(p)
    x = []
    for k in range(sc["n"]):
        v = s.sample_parameter()
        check_value(ctx, p, v, f"draw {k}")
        x.append(float(v))
    check_window(ctx, p, x, f"{sc['n']} draws")
    if sc.get("tail"):
        ctx.stat("probe:rejects-most")
    ctx.nontrivial = True
    ctx.reach("law", p["s"], windowed(p), sc["n"])
    if hi == lo or p.get("width") == 0:
        return
    x = np.sort(x)
    if windowed(p) and p["s"] != "uniform":
        best = window_misfit(p, x)
        if best > 3.65 / math.sqrt(len(x)) + 0.02:
            ctx.violate("law", f"{len(x)} values of {p} deviate from the documented distribution by at least {best:.3f}, wherever the window lies")
        ctx.stat("probe:window-law")
        return
    if windowed(p):
        if x[-1] - x[0] < 0.85 * p["width"]:
            ctx.violate("law", f"{len(x)} values of a uniform sampler with sampling range {p['width']!r} only cover {x[-1] - x[0]!r}")
        a, b = x[0], x[-1]
        u = (x[1:-1] - a) / (b - a)
    else:
        u = cdf(p)(x)
        if p["s"] == "exp" and p["range"][0] > p["range"][1]:
            u = np.sort(u)
    n = len(u)
    d = max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max())
    if d > 3.65 / math.sqrt(n):
        ctx.violate("law", f"{n} values of {p} deviate from the documented distribution by {d:.3f}")


def run_windows(sc, ctx):
    p = sc["p"]
    note(ctx, p)
    ctx.stat("probe:windows")
    lo, hi = bounds(p)
    mids = []
    for k in range(sc["n"]):
        s = make(p, sim_rng(sc["seed"] + k, True, sc["bug"], sc["bit"]))
        if s.last_sample() is not None:
            ctx.violate("last-sample", f"last_sample() is {s.last_sample()!r} before the first draw")
        x = []
        for _ in range(12):
            v = s.sample_parameter()
            check_value(ctx, p, v, f"sampler {k}")
            x.append(float(v))
            if s.last_sample() != v:
                ctx.violate("last-sample", f"last_sample() is {s.last_sample()!r} after drawing {v!r}")
        check_window(ctx, p, x, f"sampler {k}")
        mids.append((min(x), max(x)))
    ctx.nontrivial = True
    ctx.reach("windows", p["s"], sc["bug"] is not None, round(p["width"] / (hi - lo), 2))
    if not sc["bug"] and p["width"] < 0.5 * (hi - lo):
        # windows of different samplers lie at different places of the total range
        if max(b for _, b in mids) - min(a for a, _ in mids) <= p["width"] * (1 + 1e-9):
            ctx.violate("same-window", f"the windows of {sc['n']} samplers over {p['range']} with sampling range {p['width']} all lie within {min(mids)} to {max(mids)}")


def params(d):
    return [k for k in ("sigma", "scale", "lam", "std", "height") if isinstance(d.get(k), dict)]


def run_distortions(sc, ctx):
    d = sc["d"]
    rngs = Rngs(sc["seed"], mode="share", kind=sc["bit"])
    for k in params(d):
        note(ctx, d[k])
    sim = build_sim(sc["spec"], rngs)
    lst = sim.occupation_distortions if sc["spec"]["occ"] else sim.sensor_potential_distortions if sc["spec"]["pot"] else sim.sensor_response_distortions
    obj = lst[0]
    seen = {k: [] for k in params(d)}
    nsw = 0
    for i, op in enumerate(sc["ops"]):
        Budget.spend(100)
        req = {k: v for k, v in op.items() if k not in ("abort", "exc")}
        before = {k: getattr(obj, k).last_sample() for k in seen}
        if "abort" in op:
            res, v, exc, _ = fault.abort_at(lambda: world.do_request(sim, req), op["abort"], op["exc"])
            if res == "same":
                ctx.stat("probe:aborted-measurement")
                for k in seen:
                    v = getattr(obj, k).last_sample()
                    if v is not None:
                        check_value(ctx, d[k], v, f"{d['t']}.{k} after an aborted measurement")
                        seen[k].append(float(v))
                        check_window(ctx, d[k], seen[k], f"{d['t']}.{k}")
                continue
            if res == "other":
                raise v
        else:
            world.do_request(sim, req)
        ctx.stat("op:" + op["op"])
        ctx.nontrivial = True
        if d.get("ratio") is not None and not obj.activated:
            continue
        if d["t"] == "jumps":
            sw = op["r1"] if d["axis"] == 1 else op["r2"]
            if sw[0] == sw[1]:
                continue
        nsw += 1
        ctx.stat("probe:fresh-" + d["t"])
        for k in seen:
            s = getattr(obj, k)
            if not isinstance(s, ParameterSamplingInterface):
                ctx.violate("sampler-lost", f"{d['t']}.{k} is {s!r} after a measurement")
            v = s.last_sample()
            if v is None or v == before[k]:
                ctx.violate("not-fresh", f"measurement {i} ({op['op']}): {d['t']}.{k} used no fresh sample, last_sample() is {v!r} before and after")
            check_value(ctx, d[k], v, f"{d['t']}.{k} in measurement {i}")
            seen[k].append(float(v))
            check_window(ctx, d[k], seen[k], f"{d['t']}.{k}")
        if d["t"] in ("gauss", "fermi", "pink", "white") and isinstance(d["sigma"], dict) and obj.latest_sigma != obj.sigma.last_sample():
            ctx.violate("reported", f"{d['t']}.latest_sigma is {obj.latest_sigma!r}, the latest sample {obj.sigma.last_sample()!r}")
    ctx.reach(d["t"], [d[k]["s"] for k in seen], len(sc["ops"]), nsw)
    if d["t"] in ("pink", "white", "prtn", "rrtn"):
        direct_values(sc, ctx)


def direct_values(sc, ctx):
    """The value reported is the one the noise was made with: same noise stream, different samples."""
    d = dict(sc["d"])
    if "ratio" in d:
        d.update(ratio=1, std=0.0)
        d["scale"] = 0.01
    rngs = Rngs(sc["seed"] + 1, mode="share", kind=sc["bit"])
    obj = build_distortion(d, rngs)
    g1, g2 = np.array([-0.2, -0.1]), np.array([-0.2, -0.1])
    if len(sc["shape"]) == 1:
        g2 = np.array([-0.2, -0.2])
    z = np.zeros(sc["shape"])
    res = []
    for _ in range(4):
        rngs.get(d["rng"]).reseed(sc["direct"][0])
        out = np.asarray(obj.noise_function(z.copy(), g1, g2))
        k = "height" if "height" in d else "sigma"
        res.append((out, getattr(obj, k).last_sample()))
        check_value(ctx, d[k], res[-1][1], f"{d['t']}.{k}")
    if len({v for _, v in res}) < 4:
        ctx.violate("not-fresh", f"{d['t']} applied 4 times used the samples {[v for _, v in res]}")
    ctx.stat("probe:value-" + d["t"])
    ref, v0 = res[0]
    for out, v in res[1:]:
        if not np.allclose(out / v, ref / v0, rtol=1e-9, atol=1e-12):
            ctx.violate("value-not-used", f"{d['t']}: noise made with a {k} of {v!r} is not {v / v0:.4f} times the noise made with {v0!r} in the same state of the generator: {np.ravel(out)[:4]} / {np.ravel(ref)[:4]}")


def execute(sc, ctx):
    {"history": run_history, "law": run_law, "windows": run_windows, "distortions": run_distortions}[sc["kind"]](sc, ctx)
