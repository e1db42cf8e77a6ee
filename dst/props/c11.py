"""C11 Valid measurements complete for every random outcome."""
import copy

import numpy as np

from dst import world
from dst.boot import AMBIENT
from dst.core import describe_exc
from dst.rng import Budget, sim_rng
from dst.world import Rngs, build_sim, gen_param, gen_spec, rng_namer
from simcats import Simulation, default_configs
from simcats.config_samplers import sample_random_variations_v3_config

RUNS = {"quick": 3000, "thorough": 40000}
LEVEL = "exploration"
DRAW_BUDGET = 8_000_000
RULE = ("A run builds a simulation (a default configuration, one of the configuration sampler for a random stream, or random documented parameter values including extremes) and performs valid requests: sweeps inside or exactly "
        "on the limits, either direction, one or both gates, 1D and 2D from two pixels up, resolutions as int, array, list, tuple or left to the default, with and without sensor or plunger voltages, while random "
        "draws are replaced by rare outcomes (longest and shortest blocks, no or huge jumps, 6 sigma values, range ends, forced activation). Each must return finite arrays of the requested shape with labels of matching shape. "
        "Non-trivial: a request completed; distinct by configuration, request shapes and forced outcomes.")
DISTINCT = "kind of configuration, distortion types, request kind, shape, form, direction, forced outcomes"
REAL = "Simulation, all distortions, samplers, both sensors, peaks, rises, barriers, deformations, geometric ideal CSD, default_configs, configuration sampler"
STUBS = "random generators (SimRng, same streams as numpy, with forced outcomes); ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["probe:default", "probe:sampled", "probe:random", "probe:extreme", "probe:two-pixels", "probe:whole-range", "probe:on-bound", "probe:reversed", "probe:one-gate", "probe:both-gates-1d", "probe:form-int", "probe:form-arr",
          "probe:form-list", "probe:form-tuple", "probe:form-default", "probe:no-voltages", "probe:with-voltages", "op:scan", "op:measure", "fault:forced-binomial", "fault:forced-geometric", "fault:forced-poisson",
          "fault:forced-normal", "fault:forced-uniform", "fault:forced-exponential", "probe:coarse-corner", "probe:deformed", "probe:no-limits", "fault:forced-all-geometric", "probe:hundreds-of-pixels", "probe:zero-scale", "probe:exact-curves", "probe:no-peaks", "probe:one-peak"]
ASSUMPTIONS = ["geometric ideal CSDs are measured only where transitions are defined (their limits)"]
BUG = {"binomial": 0.3, "geometric": 0.3, "poisson": 0.3, "normal": 0.2, "uniform": 0.2, "lognormal": 0.2, "exponential": 0.2}


def gen_extreme_lists(r, spec, namer):
    """Documented but extreme values."""
    for d in spec.get("occ") or []:
        if d["t"] == "jumps":
            d["scale"] = r.pick([1e-9, 1e-4, 0.5, 10.0])
            d["lam"] = r.pick([0.0, 1e-6, 0.02, 0.1])
            d["ratio"] = r.pick([0, 1, 1.0, 0.5])
        elif r.chance(0.5):
            d["sigma"] = r.pick([0.0, 1e-9, 0.02, 0.3])
    for d in spec.get("pot") or []:
        if d["t"] == "pink":
            d["fmin"] = r.pick([0, 0.5, 0.4999, 0.499, 1e-6, 0.25])
    for lst in ("pot", "resp"):
        for d in spec.get(lst) or []:
            if d["t"] in ("prtn", "rrtn"):
                d["scale"] = r.pick([1e-9, 1e-3, 1.0, 100.0])
                d["std"] = r.pick([0.0, 1e-4, 0.1])
                d["height"] = r.pick([0.0, -0.01, 0.01, 1.0])
                d["ratio"] = r.pick([0, 1, 0.5])
            elif r.chance(0.5):
                d["sigma"] = r.pick([0.0, 1e-12, 1.0])


def gen_range(r, lim, tiny=True):
    """Part of the limits; ``tiny``: also ranges of a few ten microvolts (not with huge or permanent dot jumps: a request costs one model evaluation per pixel of displacement)."""
    lo, hi = lim
    how = r.wpick([("whole", 2), ("low", 1), ("high", 3), ("in", 4), ("tiny", 1 if tiny else 0)])
    if how == "whole":
        out = [lo, hi]
    elif how in ("low", "high"):
        w = (hi - lo) * r.u(0.02 if tiny else 0.2, 0.9)
        out = [lo, round(lo + w, 6)] if how == "low" else [round(hi - w, 6), hi]
    elif how == "tiny":
        a = r.u(lo, hi - 1e-4, 6)
        out = [a, round(a + r.pick([1e-5, 1e-4]), 7)]
    else:
        a, b = sorted((r.u(lo, hi, 5), r.u(lo, hi, 5)))
        out = [a, b] if b - a > (1e-4 if tiny else 0.02) else [lo, hi]
    if r.chance(0.35):
        out.reverse()
    return out


def gen_request(r, scan, lims, has_csd=True, tiny=True, large=False):
    kind = "scan" if scan and r.chance(0.5) else "measure"
    g = (lims["s1"], lims["s2"]) if kind == "scan" else (lims["g1"], lims["g2"])
    op = {"op": kind, "r1": gen_range(r, g[0], tiny), "r2": gen_range(r, g[1], tiny)}
    if r.chance(0.45):
        mode = r.wpick([("g1", 1), ("g2", 1), ("both", 1.5)])
        if mode == "g1":
            op["r2"] = [r.pick(op["r2"])] * 2
        elif mode == "g2":
            op["r1"] = [r.pick(op["r1"])] * 2
        op["res"] = r.wpick([(2, 1), (3, 1), (r.randrange(2, 30), 4), (r.randrange(100, 1500) if large else 40, 0.5)])
        op["form"] = r.pick(["int", "arr", "list1", "tuple1"])
    else:
        n = lambda: r.wpick([(2, 1), (3, 1), (r.randrange(2, 14), 4), (r.randrange(14, 40) if large else 14, 0.3)])  # noqa: E731
        op["res"] = [n(), n()]
        op["form"] = r.pick(["arr", "arr", "list", "tuple"])
    if kind == "scan":
        if r.chance(0.6) and has_csd:
            op["v"] = [r.pick([lims["g1"][0], lims["g1"][1], r.u(*lims["g1"], 5)]), r.pick([lims["g2"][0], lims["g2"][1], r.u(*lims["g2"], 5)])]
    elif scan and r.chance(0.7):
        op["v"] = [r.pick([lims["s1"][0], lims["s1"][1], r.u(*lims["s1"], 4)]), r.pick([lims["s2"][0], lims["s2"][1], r.u(*lims["s2"], 4)])]
    return op


def generate(r, tier, i):
    kind = ("random", "random", "default", "random", "random", "random", "default", "sampled")[i % 8]
    if kind == "sampled" and tier == "quick" and (i // 8) % 3:
        kind = "random"
    sc = {"kind": kind, "rng": r.randrange(10 ** 9), "bug": {k: v for k, v in BUG.items() if r.chance(0.7)} if r.chance(0.7) else None}
    if sc["bug"] and r.chance(0.5):
        sc["bug"]["all"] = r.pick([0.3, 1.0])
    if kind == "default":
        name = r.pick(sorted(default_configs))
        lims = {"g1": [-0.2, -0.087], "g2": [-0.2, -0.047], "s1": [-1, 0.4], "s2": [-1, 0.4]}
        sc.update(name=name, ratio=r.pick([None, 1, 0]))
        scan = name != "GaAs_v1"
        has_csd = True
    elif kind == "sampled":
        scan = r.chance(0.5)
        lims = {"g1": [-0.2, -0.06], "g2": [-0.2, -0.06], "s1": [-1, 0], "s2": [-1, 0]}
        sc.update(kw=dict(sensor_type="SensorScanSensorGeneric" if scan else "SensorGeneric", quality_multiplier=r.pick([1.0, 0.5, 0.05]), compensated_sensor=r.chance(0.4),
                          set_sensor_potential_offset_to_steepest_point=not scan and r.chance(0.3)), ratio=r.pick([None, 1]), sbug=sc["bug"] if r.chance(0.3) else None)
        has_csd = True
    else:
        spec = gen_spec(r, csd=(("geom", 3), ("steps", 4)), sensor=(("generic", 3), ("scan", 3)), samplers=0.5, nmax=3, limits=0.6, deform=0.35)
        scan = spec["sensor"]["t"] == "scan"
        sc["extreme"] = r.chance(0.35)
        if sc["extreme"]:
            gen_extreme_lists(r, spec, rng_namer(r, start=900))
        if spec["csd"]["t"] == "geom":
            spec["csd"].update(lut=r.pick([1000, 200, 20]), cdf=r.pick(["sigmoid", "cauchy"]))
        elif r.chance(0.06):
            # strengths of nothing: blocks of no length
            for d in (spec["occ"] or []) + (spec["pot"] or []) + (spec["resp"] or []):
                if "scale" in d:
                    d["scale"] = 0.0
                    sc["zero"] = True
        if scan and r.chance(0.1):
            spec["csd"] = None
        if r.chance(0.1):
            for k in ("occ", "pot", "resp"):
                if r.chance(0.5):
                    spec[k] = []
        has_csd = spec["csd"] is not None
        lims = {"g1": [-0.2, -0.087], "g2": [-0.2, -0.047], "s1": [-1, 0.4], "s2": [-1, 0.4]}
        if spec["csd"] and spec["csd"]["t"] == "geom" and r.chance(0.012):
            # curves evaluated exactly instead of by lookup table (slow: few transitions, small requests)
            spec["csd"].update(lut=None, n=4)
            spec["occ"] = [d for d in spec["occ"] or [] if d["t"] != "jumps"]
            lims.update(g1=[-0.2, -0.17], g2=[-0.2, -0.17])
        sc.update(spec=spec)
    n = r.randrange(2, 7) if kind != "random" or not has_csd or spec["csd"].get("lut", 1) else 2
    # (dot jumps evaluate the charge model once per pixel of displacement)
    large = kind == "random" and (spec["csd"] or {"t": "steps"})["t"] == "steps" and not any(d["t"] == "jumps" for d in spec["occ"] or [])
    sc["ops"] = []
    for _ in range(n):
        op = gen_request(r, scan, lims, has_csd, not (sc.get("extreme") or sc.get("zero")), large)
        if not has_csd and op["op"] == "measure":
            continue
        sc["ops"].append(op)
    if r.chance(0.02):
        op = {"op": "scan" if scan and r.chance(0.5) else "measure", "r1": None, "r2": None, "res": [100, 100], "form": "default"}
        g = ("s1", "s2") if op["op"] == "scan" else ("g1", "g2")
        op["r1"], op["r2"] = [gen_range(r, lims[k]) for k in g]
        if has_csd or op["op"] == "scan":
            sc["ops"] = sc["ops"][:1] + [op]
    return sc


def own(cfg, sc):
    """Give the distortions of a configuration generators of the simulator (the samplers keep theirs)."""
    k = 0
    for name in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"):
        for d in cfg.get(name) or []:
            k += 1
            if hasattr(d, "rng"):
                d.rng = sim_rng(sc["rng"] + k, False, sc["bug"])
            if sc.get("ratio") is not None and hasattr(d, "ratio"):
                d.ratio = sc["ratio"]
    return cfg


def build(sc, ctx):
    ctx.stat("probe:" + sc["kind"])
    if sc["kind"] == "default":
        return Simulation(**own(copy.deepcopy(default_configs[sc["name"]]), sc))
    if sc["kind"] == "sampled":
        AMBIENT.factory = lambda n: sim_rng(sc["rng"] + 1000 + n, False, sc["sbug"])
        try:
            return Simulation(**own(sample_random_variations_v3_config(**sc["kw"]), sc))
        finally:
            AMBIENT.factory = None
    if sc.get("extreme"):
        ctx.stat("probe:extreme")
    if sc.get("zero"):
        ctx.stat("probe:zero-scale")
    if sc["spec"]["csd"] and sc["spec"]["csd"].get("lut", 1) is None:
        ctx.stat("probe:exact-curves")
    if sc["spec"]["sensor"]["t"] == "scan":
        ctx.stat("probe:no-peaks" if sc["spec"]["sensor"]["peaks"] is None else "probe:one-peak" if len(sc["spec"]["sensor"]["peaks"]) == 1 else "probe:peaks")
    if sc["spec"]["sensor"].get("deform"):
        ctx.stat("probe:deformed")
    if not sc["spec"]["limits"]:
        ctx.stat("probe:no-limits")
    return build_sim(sc["spec"], Rngs(sc["rng"], mode="copy", bug=sc["bug"]))


def args_of(op):
    f = op["form"]
    o = dict(op)
    kw = (world.measure_args if op["op"] == "measure" else world.scan_args)(o)
    if f in ("list1", "tuple1"):
        kw["resolution"] = [op["res"]] if f == "list1" else (op["res"],)
    return kw


def execute(sc, ctx):
    sim = build(sc, ctx)
    for i, op in enumerate(sc["ops"]):
        Budget.spend(100)
        ctx.stat("op:" + op["op"])
        probes(ctx, op, sim)
        try:
            out = (sim.measure if op["op"] == "measure" else sim.measure_sensor_scan)(**args_of(op))
        except Exception as e:
            ctx.violate("raised-" + type(e).__name__, f"request {i} ({op}) failed: {describe_exc(e)}", describe_exc(e))
        want = (op["res"],) if isinstance(op["res"], int) else (op["res"][1], op["res"][0])
        if len(out) != 4:
            ctx.violate("result", f"request {i} returned {len(out)} values")
        names = ("signal", "occupations", "lead transitions") if op["op"] == "measure" else ("signal", "conductive mask", "Coulomb peak mask")
        shapes = (want, want + (2,), want) if op["op"] == "measure" else (want, want, want)
        for name, x, s in zip(names, out, shapes):
            x = np.asarray(x)
            if x.shape != s:
                ctx.violate("shape", f"request {i} ({op}): {name} has shape {x.shape}, expected {s}")
            if x.dtype == object or not np.isfinite(x).all():
                ctx.violate("not-finite", f"request {i} ({op}): {name} is not finite in {int((~np.isfinite(np.asarray(x, float))).sum())} pixels")
        if not isinstance(out[3], dict):
            ctx.violate("result", f"request {i}: metadata is {type(out[3]).__name__}")
        ctx.nontrivial = True
        ctx.reach(sc["kind"], op["op"], op["res"], op["form"], "v" in op, op["r1"][0] > op["r1"][1], op["r2"][0] > op["r2"][1])


def probes(ctx, op, sim):
    ctx.stat("probe:form-" + op["form"].rstrip("1"))
    ctx.stat("probe:with-voltages" if op.get("v") else "probe:no-voltages")
    if isinstance(op["res"], int):
        ctx.stat("probe:both-gates-1d" if op["r1"][0] != op["r1"][1] and op["r2"][0] != op["r2"][1] else "probe:one-gate")
    if 2 in np.ravel(op["res"]).tolist():
        ctx.stat("probe:two-pixels")
    if np.prod(op["res"]) > 200:
        ctx.stat("probe:hundreds-of-pixels")
    if op["r1"][0] > op["r1"][1] or op["r2"][0] > op["r2"][1]:
        ctx.stat("probe:reversed")
    if op["op"] == "measure":
        lims = [x for x in (sim.volt_limits_g1, sim.volt_limits_g2)]
        hits = [l is not None and max(q) == l[1] for l, q in zip(lims, (op["r1"], op["r2"]))]
        if any(hits):
            ctx.stat("probe:on-bound")
        if all(l is not None and sorted(q) == list(l) for l, q in zip(lims, (op["r1"], op["r2"]))):
            ctx.stat("probe:whole-range")
        if all(hits) and not isinstance(op["res"], int) and all(abs(q[1] - q[0]) / (n - 1) > 0.005 for q, n in zip((op["r1"], op["r2"]), op["res"])):
            ctx.stat("probe:coarse-corner")
