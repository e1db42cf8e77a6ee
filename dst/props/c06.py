"""C06 Labels are ground truth, free of measurement noise."""
import json

import numpy as np

from dst import world
from dst.core import maxdiff, same
from dst.isolate import isolated
from dst.rng import stat
from dst.session import Session, gen_session
from dst.world import CUSTOM, Rngs, build_csd, build_sensor, gen_default, gen_spec, rng_namer
from simcats import Simulation, default_configs
from simcats.distortions import SensorPotentialDistortionInterface, SensorResponseDistortionInterface

RUNS = {"quick": 900, "thorough": 25000}
LEVEL = "exploration"
RULE = ("A run performs one random session (measurements, scans, parameter changes, rejected calls) several times, each in a pristine process, with the sensor noise of the session left as configured, "
        "removed, replaced by other noise, drawn from other and forced streams, replaced by hostile stubs (NaN, huge values, in-place changes, exceptions in the middle of a measurement), with another sensor, "
        "and with other occupation distortions. All CSD labels must be bit-identical in the variants that keep ideal CSD and occupation distortions, all scan labels in the variants that keep ideal CSD and sensor. "
        "Scan labels are also compared with a clean label query on fresh components, and noise-free signals with the response of a fresh sensor to the returned occupations and with the documented formula of the sensor potential. "
        "Non-trivial: at least two variants with different noise produced compared labels; distinct by variants, operations and configured noise.")
DISTINCT = "variants, operation kinds and shapes, noise configured"
REAL = "Simulation, all distortions, samplers, both sensors, peaks, rises, barriers, deformations, geometric ideal CSD, default_configs"
STUBS = "random generators (SimRng, same streams as numpy); hostile noise stubs; ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["probe:variant-off", "probe:variant-other", "probe:variant-streams", "probe:variant-hostile", "probe:variant-sensor", "probe:variant-occ", "fault:noise-raises", "fault:noise-nan",
          "fault:noise-inplace", "probe:csd-labels", "probe:scan-labels", "probe:clean-labels", "probe:clean-signal", "probe:formula", "probe:default-config", "op:reject", "probe:after-failed"]
ASSUMPTIONS = ["noise and occupation distortions do not share one generator object by later assignment (the simulation separates the lists when it is built)"]

NOISE_MUTS = ("dist", "list", "append", "pop", "swap")
SENSOR_MUTS = ("sensor", "sattr", "sitem", "offset", "peak", "peaks", "barrier", "barriers", "rise", "risefield", "deform", "deform-del")


ALLOWED = ("limit", "sattr", "sitem", "offset", "peak", "peaks", "barrier", "barriers", "rise", "risefield", "deform", "deform-del", "dist", "list", "append", "pop", "swap", "csd", "csdattr")


class _Hostile:
    def __init__(self, how, at):
        self.how, self.at, self.n = how, at, 0

    def act(self, x):
        self.n += 1
        stat("fault:noise-" + ("raises" if self.how == "raise" and self.n == self.at else self.how if self.how != "raise" else "quiet"))
        if self.how == "raise":
            if self.n == self.at:
                raise MemoryError("injected: noise component failed")
            return x
        if self.how == "nan":
            return np.full_like(x, np.nan)
        if self.how == "huge":
            return x + 1e3 * (1 + np.arange(x.size).reshape(x.shape))
        if self.how == "inplace":
            x[...] = -7.5
            return x
        return x[..., ::-1] * -1.0      # "flip"


class HostilePotential(_Hostile, SensorPotentialDistortionInterface):
    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        return self.act(mu_sens)


class HostileResponse(_Hostile, SensorResponseDistortionInterface):
    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        return self.act(sensor_response)


CUSTOM["c06pot"] = lambda d, rngs: HostilePotential(d["how"], d["at"])
CUSTOM["c06resp"] = lambda d, rngs: HostileResponse(d["how"], d["at"])


def gen_variants(r, spec, namer):
    out = [{"v": "off", "pot": None if r.chance(0.5) else [], "resp": None if r.chance(0.5) else []}]
    pool = []
    pool.append({"v": "other", "pot": world.gen_pot_list(r, namer, 0.4, 3), "resp": world.gen_resp_list(r, namer, 0.4, 3)})
    pool.append({"v": "streams", "salt": 1, "bug": {"binomial": 0.3, "geometric": 0.3, "poisson": 0.2, "normal": 0.2, "uniform": 0.1} if r.chance(0.6) else None})
    how = lambda: r.pick(["nan", "huge", "inplace", "flip", "raise"])  # noqa: E731
    h = {"v": "hostile"}
    if r.chance(0.75):
        h["pot"] = world.gen_pot_list(r, namer, 0.3, 1) + [{"t": "c06pot", "how": how(), "at": r.randrange(1, 7)}]
    if "pot" not in h or r.chance(0.6):
        h["resp"] = [{"t": "c06resp", "how": how(), "at": r.randrange(1, 5)}] + world.gen_resp_list(r, namer, 0.3, 1)
    pool.append(h)
    t = spec["sensor"]["t"]
    pool.append({"v": "sensor", "sensor": world.gen_generic(r) if t == "generic" or r.chance(0.3) else world.gen_scan_sensor(r)})
    pool.append({"v": "occ", "occ": None if r.chance(0.3) else world.gen_occ_list(r, namer, 0.3, 3)})
    r.shuffle(pool)
    return out + pool[:r.randrange(2, 5)]


def generate(r, tier, i):
    if r.chance(0.12):
        spec = gen_default(r)
    else:
        spec = gen_spec(r, csd=(("geom", 2), ("steps", 5), ("cache", 1)), sensor=(("generic", 2), ("scan", 3)), samplers=0.3, nmax=3, deform=0.25, none_lists=0.05)
        for lst in ("occ", "pot", "resp"):
            for d in spec[lst] or []:
                if "ratio" in d and r.chance(0.5):
                    d["ratio"] = 1
    namer = rng_namer(r, start=1000)
    ops, cur = gen_session(r, spec, namer, n=(3, 7), muts=0.25, rejects=0.06, aborts=0, retune=0.03, direct=0.03, samplers=0.3, allow=ALLOWED)
    for _ in range(2):
        ops.append(world.gen_scan(r) if cur["sensor"]["t"] == "scan" and r.chance(0.5) else world.gen_measure(r, cur["sensor"]["t"]))
    return {"spec": spec, "ops": ops, "variants": gen_variants(r, spec, rng_namer(r, start=3000)), "rng": r.randrange(10 ** 9),
            "bug": {"geometric": 0.2, "poisson": 0.2, "binomial": 0.2} if r.chance(0.2) else None}


class VariantRngs(Rngs):
    """Occupation distortions keep their streams; noise may get others."""

    def __init__(self, seed, base_bug, noise_bug):
        super().__init__(seed, mode="copy")
        self.base_bug, self.noise_bug = base_bug, noise_bug

    def get(self, k):
        self.bug = self.noise_bug if k is not None and k >= 50000 else self.base_bug
        return super().get(k)


def resalt(lst):
    def walk(x):
        if isinstance(x, dict):
            return {k: (v + 50000 if k == "rng" and isinstance(v, int) else walk(v)) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x
    return walk(lst)


def is_noise(op):
    return op["op"] == "set" and op["mut"]["m"] in NOISE_MUTS and op["mut"].get("stage") in ("pot", "resp")


def is_occ(op):
    return op["op"] == "set" and op["mut"]["m"] in NOISE_MUTS and op["mut"].get("stage") == "occ"


def is_sensor(op):
    return op["op"] == "set" and op["mut"]["m"] in SENSOR_MUTS or op["op"] == "retune"


def run_variant(sc, v):
    """Results of all operations of the session under one variant (None for operations that the variant leaves out)."""
    spec = json.loads(json.dumps(sc["spec"]))
    bug = sc.get("bug")
    rngs = VariantRngs((sc["rng"], -1), bug, v.get("bug"))
    for k in ("pot", "resp", "occ", "sensor"):
        if k in v:
            spec[k] = v[k]
    if v.get("salt"):
        spec["pot"], spec["resp"] = resalt(spec["pot"]), resalt(spec["resp"])
    if spec.get("default"):
        cfg = dict(default_configs[spec["default"]])
        for k, name in (("pot", "sensor_potential_distortions"), ("resp", "sensor_response_distortions"), ("occ", "occupation_distortions")):
            if k in v:
                cfg[name] = world.build_list(v[k], rngs)
        if "sensor" in v:
            cfg["sensor"] = build_sensor(v["sensor"])
        sim = Simulation(**cfg)
    else:
        sim = Simulation(**world.build_config(spec, rngs))
    s = Session(spec, rngs, sim)
    own_noise = "pot" in v or "resp" in v
    out = []
    for n, op in enumerate(sc["ops"]):
        if own_noise and is_noise(op) or "occ" in v and is_occ(op) or "sensor" in v and (is_sensor(op) or op["op"] == "direct"):
            out.append(None)
            continue
        if "sensor" in v and (op["op"] == "scan" or op.get("base", op).get("op") == "scan") and v["sensor"]["t"] != "scan":
            out.append(None)
            continue
        if v.get("salt") and is_noise(op):
            op = resalt(op)
        s.rngs = VariantRngs((sc["rng"], n), bug, v.get("bug"))
        before = json.loads(json.dumps(s.spec))
        res = s.step(op)
        if op["op"] in ("measure", "scan"):
            out.append((res, before))
        else:
            out.append((res, None))
    return out


def formula_potential(s, op, occ):
    """The documented sensor potential for the voltages of the request."""
    lin = world.grid(op["r1"], op["r2"], op["res"])
    if s["t"] == "generic":
        return occ.dot(np.array(s["alpha_dot"], float)) + lin.dot(np.array(s["alpha_gate"], float)) + s["offset"]
    full = lambda x: np.zeros((3, 2)) if x is None else np.broadcast_to(np.array(x, float), (3, 2)) if np.ndim(x) == 1 else np.array(x, float)  # noqa: E731
    ad, ag, asg = full(s["alpha_dot"]), full(s["alpha_gate"]), np.array(s["alpha_sensor_gate"], float)
    off = np.zeros(3) if s["offset_mu_sens"] is None else np.array(s["offset_mu_sens"], float)
    v = op.get("v") or [0.0, 0.0]
    const = np.zeros(lin.shape) + np.array(v, float)
    gates, sens = (lin, const) if op["op"] == "measure" else (const, lin)
    return np.array([occ.dot(ad[k]) + gates.dot(ag[k]) + sens.dot(asg[k]) + off[k] for k in range(3)])


def peak_sum(s, mu):
    if s["peaks"] is None:
        return mu
    out = 0
    for p in s["peaks"]:
        if p["t"] == "lor":
            out = out + p["h"] * p["w"] ** 2 / (p["w"] ** 2 + (mu - p["mu0"]) ** 2) + p.get("o", 0)
        else:
            out = out + p["h"] * np.exp(-(mu - p["mu0"]) ** 2 / p["w"] ** 2) + p.get("o", 0)
    return out


def clean_checks(ctx, sc, n, op, res, spec, v, default):
    """Signal and labels against fresh components, for a variant without noise."""
    sensor_spec = spec["sensor"]
    sensor = build_sensor(sensor_spec) if not default else None
    if op["op"] == "measure":
        if sensor is None:
            return
        _, signal, occ, trans, _ = res
        occ = np.array(occ)
        r1, r2 = np.array(op["r1"], float), np.array(op["r2"], float)
        a = [occ.copy(), r1, r2] + ((op.get("v") or [None, None]) if sensor_spec["t"] == "scan" else [])
        pot = sensor.sensor_potential(*a)
        want = formula_potential(sensor_spec, op, occ)
        if pot.shape != want.shape or not np.allclose(pot, want, rtol=1e-9, atol=1e-12):
            ctx.violate("potential-formula", f"operation {n}: sensor potential differs from the lever-arm formula at the returned occupations: {maxdiff(pot, want)}")
        ctx.stat("probe:formula")
        pot = sensor.sensor_potential(*a)
        resp = sensor.sensor_response(pot)
        if not same(np.asarray(signal), np.asarray(resp)):
            if np.shape(signal) != np.shape(resp) or not np.allclose(signal, resp, rtol=1e-9, atol=1e-13):
                ctx.violate("signal-not-response", f"operation {n}: noise-free signal is not the response of the sensor to the returned occupations: {maxdiff(signal, resp)}")
        if sensor_spec["t"] == "generic":
            f = peak_sum(sensor_spec, want)
            if not np.allclose(signal, f, rtol=1e-8, atol=1e-11):
                ctx.violate("signal-formula", f"operation {n}: noise-free signal differs from the sum of the peaks at the returned occupations: {maxdiff(signal, f)}")
        ctx.stat("probe:clean-signal")
        return
    # scan: labels from fresh sensor and clean potential
    if sensor is None:
        return
    csd = build_csd(spec["csd"])
    vv = op.get("v")
    shape = (op["res"], 2) if isinstance(op["res"], int) else (op["res"][1], op["res"][0], 2)
    occ = np.zeros(shape)
    if csd is not None and vv is not None:
        o, _ = csd.get_csd_data(volt_limits_g1=(vv[0], vv[0]), volt_limits_g2=(vv[1], vv[1]), resolution=1)
        occ += o[0]
    vv = vv or [None, None]
    r1, r2 = np.array(op["r1"], float), np.array(op["r2"], float)
    pot = sensor.sensor_potential(occ, vv[0], vv[1], r1, r2)
    want = formula_potential(sensor_spec, op, occ)
    if not np.allclose(pot, want, rtol=1e-9, atol=1e-12):
        ctx.violate("potential-formula", f"operation {n}: sensor potential of a scan differs from the lever-arm formula: {maxdiff(pot, want)}")
    m1, m2 = sensor.get_sensor_scan_labels(vv[0], vv[1], r1, r2, pot)
    for name, x, y in (("conductive mask", res[2], m1), ("Coulomb peak mask", res[3], m2)):
        if not np.array_equal(np.asarray(x), np.asarray(y)):
            ctx.violate("scan-labels-not-clean", f"operation {n}: {name} differs from the labels of a noise-free sensor at these voltages: {maxdiff(x, y)}")
    ctx.stat("probe:clean-labels")


def execute(sc, ctx):
    variants = [{"v": "base"}] + sc["variants"]
    default = bool(sc["spec"].get("default"))
    if default:
        ctx.stat("probe:default-config")
    results = []
    for v in variants:
        def one(v=v):
            from dst.rng import STATS
            STATS.clear()
            return run_variant(sc, v), dict(STATS)
        out, st = isolated(one)
        for k, x in st.items():
            ctx.stat(k, x)
        results.append(out)
        ctx.stat("probe:variant-" + v["v"])
    compared = 0

    def agree(a, b, va, vb, n, what):
        for name, x, y in zip(("first label array", "second label array"), a[0][2:4], b[0][2:4]):
            if not same(np.asarray(x), np.asarray(y)):
                ctx.violate("labels-depend-on-" + what, f"operation {n} ({sc['ops'][n]['op']}): {name} differs between variant '{va['v']}' and '{vb['v']}': {maxdiff(x, y)}")
    for n, op in enumerate(sc["ops"]):
        if op["op"] not in ("measure", "scan"):
            continue
        ref = None
        for v, out in zip(variants, results):
            if out[n] is None:
                continue
            if op["op"] == "measure" and "occ" in v or op["op"] == "scan" and "sensor" in v:
                continue
            if out[n][0][0] != "ok":
                if v["v"] == "hostile" and out[n][0][1].startswith("MemoryError"):
                    if any(x is not None and x[0][0] == "ok" for x in out[n + 1:]):
                        ctx.stat("probe:after-failed")
                    continue
                # not judged here unless another variant disagrees: C11
                continue
            if ref is None:
                ref = (v, out[n])
                continue
            agree(ref[1], out[n], ref[0], v, n, "noise" if "sensor" not in v and "occ" not in v else "sensor" if "sensor" in v else "occupation-distortions")
            compared += 1
            ctx.stat("probe:csd-labels" if op["op"] == "measure" else "probe:scan-labels")
        for v, out in zip(variants, results):
            if v["v"] == "off" and out[n] is not None and out[n][0][0] == "ok":
                clean_checks(ctx, sc, n, op, out[n][0], out[n][1], v, default)
    noise = [d["t"] for lst in ("pot", "resp") for d in sc["spec"].get(lst) or []]
    ctx.reach([v["v"] for v in variants], [o["op"] + (("1" if isinstance(o["res"], int) else "2") if "res" in o else "") for o in sc["ops"]], noise)
    ctx.nontrivial = bool(compared and (noise or len(variants) > 2))
