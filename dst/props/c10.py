"""C10 Noise follows its configured law in acquisition order."""
import copy

import numpy as np
from scipy import stats as st

from dst import world
from dst.core import maxdiff
from dst.rng import Budget
from dst.world import CUSTOM, Rngs, build_distortion, do_request, gen_param, rng_namer
from simcats.distortions import SensorPotentialDistortionInterface, SensorResponseDistortionInterface

RUNS = {"quick": 2600, "thorough": 40000}
LEVEL = "exploration"
DRAW_BUDGET = 6_000_000
RULE = ("Two kinds of runs over pink, white and telegraph noise with fixed and sampled parameters. additive: the same distortion in the same generator state is applied to zeros and to several other signals (random, huge, "
        "reversed and transposed views, read-only arrays), 1D and 2D, in all sweep directions, directly and in whole measurements of different sensors and charge models: the noise must be the same up to rounding, the input "
        "unchanged. law: the noise of many applications (direct, in CSD measurements, on each of the potentials of a scan sensor, in sensor scans) is taken apart along the acquisition order; telegraph noise must consist of "
        "constant blocks, undisturbed and disturbed alternating from an undisturbed one, with block ends, heights and spread following scale, height and std (Bernoulli/normal models); white noise must have the configured "
        "strength, a normal distribution and no correlations, also between measurements; pink noise must have the configured power in every Fourier component (Gamma model). In part of the telegraph runs many blocks are forced to exceptional lengths; then undisturbed and disturbed blocks must still have the same lengths. Bounds: 6.5 sigma or tails of 1e-11. "
        "Non-trivial: noise was present; distinct by kind, noise type, path, shapes, directions and parameters.")
DISTINCT = "kind of run, noise type, path, shapes, directions, parameters"
REAL = "SensorPotentialRTN, SensorResponseRTN, SensorPotentialPinkNoise, SensorResponseWhiteNoise, samplers, Simulation, both sensors"
STUBS = "recording stub distortions around the noise; cheap ideal CSDs; random generators (SimRng, same streams as numpy, with forced outcomes in part of the additive runs)"
PROBES = ["probe:additive-" + t for t in ("pink", "prtn", "rrtn", "white")] + ["probe:law-" + t for t in ("pink", "prtn", "rrtn", "white")] + ["probe:power-white", "probe:power-pink"] + [
    "probe:path-direct", "probe:path-measure", "probe:path-scan", "probe:three-potentials", "probe:1d", "probe:2d-square", "probe:2d-wide", "probe:repeated-lines", "probe:read-only", "probe:views", "probe:fmin", "probe:scale-below-pixel", "probe:inactive",
    "probe:blocks-span-rows", "probe:reversed", "fault:forced-geometric", "probe:tail", "probe:in-simulation"]
ASSUMPTIONS = ["the pixel density may be counted as n or n-1 pixels per range", "pink noise is 1/f noise down to max(fmin, 1/pixels) over all pixels of the measurement"]


class _Tap:
    def __init__(self):
        self.seen = []

    def take(self, x):
        self.seen.append(np.array(x))
        return x


class TapPot(_Tap, SensorPotentialDistortionInterface):
    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        return self.take(mu_sens)


class TapResp(_Tap, SensorResponseDistortionInterface):
    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        return self.take(sensor_response)


CUSTOM["tappot"] = lambda d, rngs: TapPot()
CUSTOM["tapresp"] = lambda d, rngs: TapResp()
TYPES = ("pink", "prtn", "rrtn", "white")


def gen_noise(r, t, namer, law):
    if t == "white":
        return {"t": t, "sigma": gen_param(r, 1e-3, 0.1, namer, 0.3), "rng": namer()}
    if t == "pink":
        return {"t": t, "sigma": gen_param(r, 1e-3, 0.1, namer, 0.3), "fmin": r.wpick([(0, 3), (r.u(0.01, 0.3, 3), 2)]), "rng": namer()}
    return {"t": t, "scale": None, "std": gen_param(r, 1e-4, 0.02, namer, 0.3), "height": gen_param(r, 1e-3, 0.1, namer, 0.3), "ratio": r.pick([1, 1, 1, 0.7]), "rng": namer()}


def density(op):
    """Pixels per volt that count for telegraph noise."""
    s1, s2 = abs(op["r1"][1] - op["r1"][0]), abs(op["r2"][1] - op["r2"][0])
    if isinstance(op["res"], int):
        return op["res"] / max(s1, s2)
    return max([n / s for n, s in zip(op["res"], (s1, s2)) if s])    # (a map may repeat lines at one voltage)


def gen_op(r, path, law):
    if path == "scan":
        op = world.gen_scan(r, n2=(2, 25), n1=(5, 300) if law else (2, 40))
    else:
        op = world.gen_measure(r, "scan" if r.chance(0.5) else "generic", n2=(2, 25), n1=(5, 300) if law else (2, 40))
        op.pop("v", None)
    if law and not isinstance(op["res"], int) and r.chance(0.6):
        op["res"] = [r.randrange(2, 40), r.randrange(2, 40)]
    return op


def generate(r, tier, i):
    kind = ("additive", "law", "law")[i % 3]
    t = TYPES[(i // 3) % 4]
    namer = rng_namer(r, shared=False)
    sc = {"kind": kind, "t": t, "rng": r.randrange(10 ** 9), "d": gen_noise(r, t, namer, kind == "law")}
    if kind == "additive":
        ops = [gen_op(r, "measure", False) for _ in range(r.randrange(2, 5))]
        if "scale" in sc["d"]:
            sc["d"]["scale"] = gen_param(r, 0.002, 0.2, namer, 0.4)
        sc.update(ops=ops, bug={"geometric": 0.3, "normal": 0.3, "binomial": 0.1} if r.chance(0.3) else None, simops=[world.gen_measure(r, "scan") for _ in range(2)],
                  sensors=[world.gen_scan_sensor(r, deform=0), world.gen_scan_sensor(r, deform=0)])
        return sc
    path = r.pick(["direct", "measure", "scan"]) if r.chance(0.8) else "direct"
    op = gen_op(r, path, True)
    big = t in ("pink", "white") and r.chance(0.12)
    if big:
        op["res"] = r.randrange(1200, 4000) if isinstance(op["res"], int) else [r.randrange(35, 70), r.randrange(35, 70)]
    px = world.pixels(op)
    if "scale" in sc["d"]:
        if path == "direct" and not isinstance(op["res"], int) and r.chance(0.25):
            k = r.pick(["r1", "r2"])
            op[k] = [op[k][0]] * 2
        spx = r.wpick([(r.u(1.3, 8), 4), (r.u(8, 30), 1), (r.u(0.05, 0.9), 1)])
        mid = spx / density(op)
        sc["sub"] = spx < 1
        sc["d"]["scale"] = {"s": "uniform", "range": [0.7 * mid, 1.3 * mid], "rng": namer()} if r.chance(0.3) and spx > 2 else mid
        if path == "direct" and r.chance(0.35):
            # blocks of exceptional length (and of one pixel) among the others
            sc["tail"] = {"geometric": r.u(0.2, 0.5, 2), "each": True}
            op["res"] = r.randrange(300, 1200) if r.chance(0.7) else [r.randrange(10, 40), r.randrange(10, 40)]
            if isinstance(op["res"], list):
                if op["r1"][0] == op["r1"][1]:
                    op["r1" if op["r2"][0] == op["r2"][1] or r.chance(0.8) else "r2"] = [-0.2, -0.1]
            sc["sub"] = False
            sc["d"]["scale"] = r.u(1.5, 8) / density(op)
            px = world.pixels(op)
    sensor = world.gen_scan_sensor(r, deform=0) if path == "scan" or r.chance(0.3) else world.gen_generic(r)
    if sensor["t"] == "scan" and path == "measure":
        op["v"] = [r.u(-0.7, -0.3, 4), r.u(-0.7, -0.3, 4)]
    sc.update(path=path, op=op, sensor=sensor, n=max(6, min(400, int((40000 if sc.get("tail") else r.pick([6000, 20000])) / px))) if not big else 24, csd=r.pick(["steps", "probe"]))
    return sc


def signals(shape, seed):
    g = np.random.Generator(np.random.PCG64(seed))
    base = g.normal(0, 1, shape)
    ro = g.uniform(-1, 1, shape)
    ro.setflags(write=False)
    big = 1e6 * g.normal(0, 1, shape)
    views = g.normal(0, 1, shape[::-1]).T if len(shape) == 2 else g.normal(0, 1, shape[0] * 2)[::2]
    rev = g.normal(0, 1, shape)[::-1]
    return {"random": base, "constant": np.full(shape, -3.25), "read-only": ro, "huge": big, "views": views, "reversed": rev}


def call(d, x, op):
    a = np.array(op["r1"], float), np.array(op["r2"], float)
    keep = [v.copy() for v in a]
    out = d.noise_function(x, *a)
    if any((u != v).any() for u, v in zip(a, keep)):
        from dst.core import Violation
        raise Violation("arguments-changed", f"{type(d).__name__} changed the voltage ranges it was given")
    return out


def shape_of(op):
    return (op["res"],) if isinstance(op["res"], int) else (op["res"][1], op["res"][0])


def note_shape(ctx, op):
    if isinstance(op["res"], int):
        ctx.stat("probe:1d")
    else:
        ctx.stat("probe:2d-square" if op["res"][0] == op["res"][1] else "probe:2d-wide")
        if op["r1"][0] == op["r1"][1] or op["r2"][0] == op["r2"][1]:
            ctx.stat("probe:repeated-lines")
    if op["r1"][0] > op["r1"][1] or op["r2"][0] > op["r2"][1]:
        ctx.stat("probe:reversed")


def run_additive(sc, ctx):
    rngs = Rngs(sc["rng"], mode="copy", bug=sc["bug"])
    d = build_distortion(sc["d"], rngs)
    for i, op in enumerate(sc["ops"]):
        Budget.spend(100)
        note_shape(ctx, op)
        shape = shape_of(op)
        before = copy.deepcopy(d)
        zero = np.zeros(shape)
        ref = np.array(call(d, zero, op), float)
        if zero.any():
            ctx.violate("input-changed", f"application {i}: {sc['t']} noise changed the array it was given")
        if ref.shape != shape:
            ctx.violate("shape", f"application {i}: {sc['t']} noise returns shape {ref.shape} for {shape}")
        if getattr(d, "activated", True) is False:
            ctx.stat("probe:inactive")
        for name, x in signals(shape, sc["rng"] + i).items():
            e = copy.deepcopy(before)
            keep = np.array(x, copy=True)
            try:
                out = call(e, x, op)
            except ValueError as exc:
                if "read-only" in str(exc):
                    ctx.violate("input-changed", f"application {i}: {sc['t']} noise writes into the array it was given ({exc})")
                raise
            ctx.stat("probe:additive-" + sc["t"])
            if name in ("read-only", "views"):
                ctx.stat("probe:" + name)
            if not np.array_equal(keep, x):
                ctx.violate("input-changed", f"application {i}: {sc['t']} noise changed the {name} signal it was given")
            if np.shape(out) != shape:
                ctx.violate("shape", f"application {i}: {sc['t']} noise returns shape {np.shape(out)} for {shape}")
            tol = 1e-14 * (np.abs(keep).max() + np.abs(ref).max()) * 8
            diff = np.abs((np.asarray(out) - keep) - ref)
            if diff.max() > tol:
                ctx.violate("not-additive", f"application {i} ({op['res']}): {sc['t']} noise added to a {name} signal differs from the noise added to zeros by up to {diff.max():.3g}")
            if getattr(e, "activated", None) != getattr(d, "activated", None):
                ctx.violate("not-additive", f"application {i}: activation of {sc['t']} depends on the signal")
        if ref.any():
            ctx.nontrivial = True
    # in whole measurements: other charge model, other sensor, same generator states
    stage = "pot" if sc["t"] in ("pink", "prtn") else "resp"
    tap = {"t": "tap" + stage}
    sims = []
    for csd, sensor in zip(({"t": "steps"}, {"t": "probe"}), sc["sensors"]):
        spec = {"csd": csd, "sensor": sensor, "limits": {}, "occ": None, "pot": None, "resp": None}
        spec[stage] = [tap, sc["d"], tap]
        sims.append(world.build_sim(spec, Rngs(sc["rng"], mode="copy", bug=sc["bug"])))
    for i, op in enumerate(sc["simops"]):
        Budget.spend(100)
        ns = []
        for s in sims:
            lst = s.sensor_potential_distortions if stage == "pot" else s.sensor_response_distortions
            a, b = lst[0], lst[2]
            a.seen, b.seen = [], []
            do_request(s, op)
            ns.append([(y - x, np.abs(x).max() + np.abs(y).max()) for x, y in zip(a.seen, b.seen)])
        ctx.stat("op:measure")
        if len(ns[0]) != len(ns[1]):
            ctx.violate("not-additive", f"measurement {i}: {sc['t']} is applied a different number of times")
        for k, ((x, mx), (y, my)) in enumerate(zip(*ns)):
            if x.shape != y.shape or np.abs(x - y).max() > 1e-14 * 8 * (mx + my):
                ctx.violate("not-additive", f"measurement {i}, signal {k}: {sc['t']} noise depends on the measured signal: {maxdiff(x, y)}")
            ctx.stat("probe:in-simulation")
    ctx.reach("additive", sc["t"], [o["res"] for o in sc["ops"]])


# ------------------------------------------------------------------ law
def samples(sc, ctx):
    """Yields (noise array in acquisition order, distortion) of every application."""
    op, path = sc["op"], sc["path"]
    rngs = Rngs(sc["rng"], mode="copy", bug=sc.get("tail"))
    ctx.stat("probe:path-" + path)
    if path == "direct":
        d = build_distortion(sc["d"], rngs)
        for i in range(sc["n"]):
            Budget.spend(50)
            yield np.asarray(call(d, np.zeros(shape_of(op)), op)), d
        return
    stage = "pot" if sc["t"] in ("pink", "prtn") else "resp"
    tap = {"t": "tap" + stage}
    spec = {"csd": {"t": sc["csd"]}, "sensor": sc["sensor"], "limits": {}, "occ": None, "pot": None, "resp": None}
    spec[stage] = [tap, sc["d"], tap]
    sim = world.build_sim(spec, rngs)
    lst = sim.sensor_potential_distortions if stage == "pot" else sim.sensor_response_distortions
    a, d, b = lst
    parts = 3 if stage == "pot" and sc["sensor"]["t"] == "scan" else 1
    varying = parts > 1 and ("ratio" in sc["d"] or any(isinstance(sc["d"].get(k), dict) for k in ("sigma", "scale", "std", "height")))
    for i in range(max(3, sc["n"] // parts)):
        Budget.spend(50)
        a.seen, b.seen = [], []
        do_request(sim, op)
        ctx.stat("op:" + op["op"])
        if len(a.seen) != parts or len(b.seen) != parts:
            ctx.violate("times", f"{sc['t']} noise was applied to {len(b.seen)} signals, expected {parts}")
        if parts == 3:
            ctx.stat("probe:three-potentials")
        for k in range(parts):
            x = b.seen[k] - a.seen[k]
            x[np.abs(x) < 1e-12] = 0
            # flags and samples describe the latest of several potentials only
            yield x, (d if not varying or k == parts - 1 else None)


def last(p):
    return p.last_sample() if hasattr(p, "last_sample") else p


def run_law(sc, ctx):
    note_shape(ctx, sc["op"])
    {"white": law_white, "pink": law_pink, "prtn": law_rtn, "rrtn": law_rtn}[sc["t"]](sc, ctx)
    ctx.stat("probe:law-" + sc["t"])
    ctx.reach("law", sc["t"], sc["path"], sc["op"]["res"], sc["sensor"]["t"], isinstance(sc["op"]["res"], int), sc["op"]["r1"][0] > sc["op"]["r1"][1])


def check_shape(ctx, x, sc):
    if x.shape != shape_of(sc["op"]):
        ctx.violate("shape", f"{sc['t']} noise has shape {x.shape} for {shape_of(sc['op'])}")


def z_test(ctx, cls, z, what, lim=6.5):
    if not abs(z) < lim:
        ctx.violate(cls, f"{what} (z = {z:.1f})")


def power_spread(ctx, t, power, mean, var, dof, name):
    """The power of single measurements fluctuates by chance: it is neither normalised nor drawn anew each time."""
    k = len(power)
    if k < 20 or dof < 100:
        return
    ctx.stat("probe:power-" + t)
    x = ((power - mean) ** 2).sum() / var
    if x < 0.02 * k or t == "white" and x > 1.3 * st.chi2.isf(1e-11, k):
        ctx.violate(t + "-power", f"{name}: the power of {k} measurements has {x / k:.4f} times the expected variance")


def law_white(sc, ctx):
    rows = []
    for x, d in samples(sc, ctx):
        check_shape(ctx, x, sc)
        if d is not None:
            rows.append(x / last(d.sigma))
    if not rows:
        return
    ctx.nontrivial = True
    z = np.array([x.ravel() for x in rows])
    n = z.size
    name = f"white noise of sigma {sc['d']['sigma']} on {sc['op']['res']} ({sc['path']})"
    z_test(ctx, "white-mean", z.mean() * np.sqrt(n), f"{name}: mean {z.mean():.4f} sigma over {n} pixels")
    chi = (z ** 2).sum()
    if not st.chi2.isf(1 - 1e-11, n) < chi < st.chi2.isf(1e-11, n):
        ctx.violate("white-strength", f"{name}: standard deviation {np.sqrt(chi / n):.4f} sigma over {n} pixels")
    if n > 200 and st.kstest(z.ravel(), "norm").pvalue < 1e-11:
        ctx.violate("white-distribution", f"{name}: not normally distributed")
    for t in (2, 2.5, 3, 3.5, 4, 5):
        c, p = int((np.abs(z) > t).sum()), 2 * st.norm.sf(t)
        if min(st.binom.cdf(c, n, p), st.binom.sf(c - 1, n, p)) < 1e-11:
            ctx.violate("white-distribution", f"{name}: {c} of {n} pixels deviate by more than {t} sigma, expected {n * p:.1f}")
    power_spread(ctx, "white", (z ** 2).sum(1), z.shape[1], 2 * z.shape[1], z.shape[1], name)
    if n > 200:
        cols = rows[0].shape[-1]
        for lag in sorted({1, 2, cols - 1, cols, cols + 1}):
            if 0 < lag < z.shape[1]:
                p = (z[:, lag:] * z[:, :-lag])
                z_test(ctx, "white-correlated", p.sum() / np.sqrt(p.size), f"{name}: pixels {lag} apart are correlated by {p.mean():.4f}", 7.5)
        if len(z) > 2:
            for lag in (1, 2, 3):
                p = z[lag:] * z[:-lag]
                z_test(ctx, "white-repeats", p.sum() / np.sqrt(p.size), f"{name}: noise of measurements {lag} apart is correlated by {p.mean():.4f}", 7.5)


def law_pink(sc, ctx):
    rows = []
    for x, d in samples(sc, ctx):
        check_shape(ctx, x, sc)
        if d is not None:
            rows.append(x.ravel() / last(d.sigma))
    if not rows:
        return
    ctx.nontrivial = True
    y = np.array(rows)
    k, n = y.shape
    f = np.fft.rfftfreq(n)
    fm = max(sc["d"]["fmin"], 1 / n)
    if sc["d"]["fmin"]:
        ctx.stat("probe:fmin")
    low = f < fm
    if low.any() and low.sum() < len(f):
        f[low] = f[low.sum()]
    power = 1 / f                                # relative power per Fourier component
    w = power[1:].copy()
    w[-1] *= 1 if n % 2 else 0.25
    var = 4 * w.sum() / n ** 2                   # of unscaled noise: normalised to one, apart from the mean of the data
    spec = np.abs(np.fft.rfft(y, axis=1)) ** 2
    mean = 2 * power / var                       # of |X|^2
    name = f"pink noise of sigma {sc['d']['sigma']}, fmin {sc['d']['fmin']} on {sc['op']['res']} ({sc['path']})"
    tot = spec.sum(0) / mean
    inner = np.arange(1, len(f) - (0 if n % 2 else 1))
    if len(inner):
        lo, hi = st.gamma.isf(1 - 1e-12, k), st.gamma.isf(1e-12, k)
        bad = [i for i in inner if not lo < tot[i] < hi]
        if bad:
            i = bad[0]
            ctx.violate("pink-spectrum", f"{name}: power of Fourier component {i} of {len(f)} is {tot[i] / k:.3f} times the 1/f law over {k} measurements")
        s = tot[inner].sum()
        m = k * len(inner)
        if not st.gamma.isf(1 - 1e-11, m) < s < st.gamma.isf(1e-11, m):
            ctx.violate("pink-strength", f"{name}: total power is {s / m:.3f} times the configured over {k} measurements")
    # mean square of a measurement: independent exponential contributions of the components
    e = (mean * (1 if n % 2 else np.r_[np.ones(len(f) - 1), 0.5]) * 2 / n)[inner]
    power_spread(ctx, "pink", (spec[:, inner] * 2 / n).sum(1), e.sum(), (e ** 2).sum(), len(inner), name)
    edge = [0] + ([] if n % 2 else [len(f) - 1])
    for i in edge:      # real components
        s = spec[:, i].sum() / mean[i]
        if not st.chi2.isf(1 - 1e-12, k) / 2 * 0.2 < s < st.chi2.isf(1e-12, k) * 1.2:
            ctx.violate("pink-spectrum", f"{name}: power of Fourier component {i} is {s / k:.3f} times the expected over {k} measurements")
    if k > 5:
        white = np.fft.rfft(y, axis=1) / np.sqrt(mean)
        for lag in (1, 2, 3):
            p = (white[lag:, inner] * np.conj(white[:-lag, inner])).real
            if p.size > 100:
                z_test(ctx, "pink-repeats", p.sum() / np.sqrt(p.size / 2), f"{name}: noise of measurements {lag} apart is correlated", 8)


def law_rtn(sc, ctx):
    op = sc["op"]
    dens = density(op)
    tol = 1.5 / max(2, (op["res"] if isinstance(op["res"], int) else min(op["res"])))
    if not isinstance(op["res"], int):
        tol = min(tol, 0.15)
    cnt = {s: [0, 0, 0.0, 0.0] for s in (0, 1)}
    zs = []
    lengths = ([], [])
    name = f"telegraph noise {sc['d']} on {op['res']}, {op['r1']}, {op['r2']} ({sc['path']})"
    for x, d in samples(sc, ctx):
        check_shape(ctx, x, sc)
        row = x.ravel()
        chg = np.abs(np.diff(row)) > 1e-9
        on = np.abs(row) > 1e-9
        if d is not None and d.activated is False:
            ctx.stat("probe:inactive")
            if on.any():
                ctx.violate("inactive", f"{name}: inactive, but noise was added")
            continue
        if on[0]:
            ctx.violate("first-block", f"{name}: starts with a disturbed block")
        bad = np.nonzero(chg & on[:-1] & on[1:])[0]
        if len(bad):
            j = int(bad[0])
            ctx.violate("not-blocks", f"{name}: disturbed pixels {j} and {j + 1} in acquisition order have different heights {row[j]:.6g}, {row[j + 1]:.6g}")
        if d is None:
            continue
        if x.ndim == 2 and (on[x.shape[1] - 1::x.shape[1]][:-1] & on[x.shape[1]::x.shape[1]]).any():
            ctx.stat("probe:blocks-span-rows")
        ctx.nontrivial = True
        p = 1 / max(1.0, last(d.scale) * dens)
        for s in (0, 1):
            at = np.nonzero(on[:-1] == bool(s))[0]
            c = cnt[s]
            c[0] += len(at)
            c[1] += int((on[at + 1] != on[at]).sum())
            c[2] += len(at) * p
            c[3] += len(at) * p * (1 - p)
        ends = np.nonzero(on[1:] != on[:-1])[0] + 1
        for u, v, w in zip(np.r_[0, ends[:-1]], ends, on[ends - 1]):
            lengths[int(w)].append(v - u)
        starts = np.nonzero(on & ~np.r_[False, on[:-1]])[0]
        zs += [(row[j] - last(d.height)) / last(d.std) for j in starts]
    if sc["sub"]:
        ctx.stat("probe:scale-below-pixel")
    if sc.get("tail"):
        # the lengths of undisturbed and disturbed blocks follow the same law, whatever it is
        a, b = (np.array(v, float) for v in lengths)
        if len(a) > 300 and len(b) > 300:
            ctx.stat("probe:tail")
            for what, f in (("length", lambda v: v), ("logarithm of the length", np.log), ("share of long blocks", lambda v: v > 6 * max(1, dens * last(d.scale)))):
                p, q = f(a).astype(float), f(b).astype(float)
                se = np.sqrt(p.var() / len(p) + q.var() / len(q)) + 1e-9
                if abs(p.mean() - q.mean()) > 6.5 * se + 3 / min(len(a), len(b)):
                    ctx.violate("not-alternating", f"{name}: with blocks of exceptional length among the others, the mean {what} is {p.mean():.3f} for {len(p)} undisturbed and {q.mean():.3f} for {len(q)} disturbed blocks")
    for s in (0, 1) if not sc.get("tail") else ():
        n, hit, exp, var = cnt[s]
        if n < 60:
            continue
        if abs(hit - exp) > 6.5 * np.sqrt(var + 1e-9) + tol * exp + 3:
            ctx.violate("block-length", f"{name}: {'disturbed' if s else 'undisturbed'} blocks end {hit} times in {n} pixels, expected {exp:.1f}")
    if len(zs) >= 20:
        z = np.array(zs)
        m = len(z)
        z_test(ctx, "height", z.mean() * np.sqrt(m), f"{name}: mean height of {m} blocks is off by {z.mean():.3f} std")
        chi = (z ** 2).sum()
        if not st.chi2.isf(1 - 1e-11, m) < chi < st.chi2.isf(1e-11, m):
            ctx.violate("height-std", f"{name}: heights of {m} blocks have {np.sqrt(chi / m):.3f} times the configured std")
        if m > 100 and st.kstest(z, "norm").pvalue < 1e-11:
            ctx.violate("height-distribution", f"{name}: heights are not normally distributed")
        z_test(ctx, "height-correlated", (z[1:] * z[:-1]).sum() / np.sqrt(m - 1), f"{name}: heights of successive blocks are correlated", 8)


def execute(sc, ctx):
    (run_additive if sc["kind"] == "additive" else run_law)(sc, ctx)
