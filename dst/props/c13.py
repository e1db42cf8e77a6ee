"""C13 Sampled configurations are valid, in range and independent."""
import copy
import math

import numpy as np

from dst import fault, world
from dst.boot import AMBIENT
from dst.core import describe_exc, pubsnap, snap_diff
from dst.rng import Budget, RngFault, sim_rng
from simcats import Simulation, default_configs
from simcats.config_samplers import sample_random_variations_v3_config
from simcats.distortions import OccupationDotJumps, OccupationTransitionBlurringFermiDirac, SensorPotentialPinkNoise, SensorPotentialRTN, SensorResponseRTN, SensorResponseWhiteNoise
from simcats.ideal_csd import IdealCSDGeometric
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric

RUNS = {"quick": 330, "thorough": 6000}
LEVEL = "exploration"
DRAW_BUDGET = 3_000_000
RULE = ("Every generator the sampler creates for itself is a simulated one, its streams decided by the seed, with rare outcomes forced (range ends, 6 sigma, extreme exponentials) in half of the runs. config: one or two complete "
        "configurations for random options and quality multipliers from 1 down to 1e-9; every sampled quantity is recomputed from the returned objects and compared with the documented ranges and couplings, and the configuration "
        "is measured over its whole range (2D in several resolutions and directions, 1D, sensor scans, retuning); quality: 40 configurations of one quality multiplier, whose lever-arms must use the restricted range, and many "
        "draws of its distortion strengths against the restricted distribution (Kolmogorov bound with tail 1e-11), activation ratios exact. isolation: configurations are sampled, modified in place, used for simulations "
        "and sampled again: default_configs and earlier configurations must not change, and a stream gives the same configuration before and after. abort: sampling is interrupted at any line or by a failing draw, then repeated. "
        "Non-trivial: a configuration was returned; distinct by kind, options, number of charge transitions and peaks.")
DISTINCT = "kind of run, options, number of transitions and peaks, abort place"
REAL = "sample_random_variations_v3_config and everything it uses, Simulation, default_configs"
STUBS = "random generators created by the library (SimRng, forced outcomes, failing draws)"
PROBES = ["probe:generic", "probe:scan", "probe:compensated", "probe:steepest", "probe:quality-1", "probe:quality-low", "probe:quality-tiny", "probe:measured", "probe:scanned", "probe:retuned", "probe:quality", "probe:isolation",
          "probe:forced", "probe:crowded", "probe:aborted", "probe:draw-failed", "probe:defaults-used", "probe:rejected", "fault:draw-fails", "fault:abort-memory", "fault:abort-interrupt", "fault:forced-uniform", "fault:forced-normal", "fault:forced-exponential", "op:measure", "op:scan"]
ASSUMPTIONS = ["documented ranges: the constants and comments of the sampler", "generators created by the library come from numpy.random.default_rng()"]
BUG = {"uniform": 0.3, "normal": 0.25, "exponential": 0.3}
# places of the uniform draws that leave the later peaks hardly any room
CROWD = {"uniform": 0.94, "spots": [0.1, 0.32, 0.54, 0.76, 0.98]}
EPS = 1e-9
BAD = [{"quality_multiplier": x} for x in (0, 0.0, -0.5, 1.0000001, 2, float("nan"), -1e-300)] + [{"sensor_type": "SensorFancy"}, {"sensor_type": None}]


def gen_kw(r):
    scan = r.chance(0.4)
    q = r.wpick([(1.0, 3), (r.u(0.3, 0.99, 3), 3), (r.logu(0.01, 0.3), 2), (r.pick([1e-3, 1e-6, 1e-9]), 1)])
    return dict(sensor_type="SensorScanSensorGeneric" if scan else "SensorGeneric", quality_multiplier=q, compensated_sensor=r.chance(0.4),
                set_sensor_potential_offset_to_steepest_point=r.chance(0.25) if not scan else r.chance(0.1))


def generate(r, tier, i):
    kind = ("config", "config", "isolation", "abort", "config", "config", "abort", "config", "isolation", "config", "quality", "config")[i % 12]
    sc = {"kind": kind, "seed": r.randrange(10 ** 9), "kw": gen_kw(r), "bug": BUG if r.chance(0.5) else None}
    if kind == "config" and r.chance(0.3):
        sc["bug"] = CROWD
        sc["kw"].update(sensor_type="SensorGeneric")
    if kind == "config":
        sc["ops"] = [{"op": "measure", "res": [r.pick([2, 3, 10, r.randrange(4, 50)]), r.pick([2, 3, 10, r.randrange(4, 50)])], "flip": [r.chance(0.3), r.chance(0.3)]} for _ in range(3)]
        sc["ops"].append({"op": "measure", "res": r.randrange(2, 60), "flip": [r.chance(0.3), r.chance(0.3)]})
        sc["ops"].append({"op": "scan", "res": [r.randrange(2, 25), r.randrange(2, 25)], "flip": [r.chance(0.3), r.chance(0.3)]})
    elif kind == "quality":
        sc["bug"] = None
        sc["kw"].update(sensor_type="SensorGeneric", quality_multiplier=r.pick([0.6, 0.3, 0.1, 0.02, 1.0, 1e-3]), set_sensor_potential_offset_to_steepest_point=False)
        sc["scan"] = r.chance(0.5)
    elif kind == "isolation":
        sc["kw2"] = [gen_kw(r), gen_kw(r)]
        sc["mut"] = [r.randrange(8) for _ in range(5)]
    else:
        sc["how"] = r.wpick([("line", 3), ("draw", 2)])
        sc["at"] = r.random()
        sc["exc"] = r.pick(["memory", "interrupt"])
        sc["kw2"] = gen_kw(r)
    return sc


class Streams:
    """The generators of one sampling, numbered in the order in which they are created."""

    def __init__(self, seed, bug):
        self.seed, self.bug, self.n, self.fail_at, self.calls = seed, bug, 0, None, 0

    def __call__(self, n):
        self.n += 1
        g = sim_rng(self.seed + self.n, False, self.bug)
        g.on_call = self.call
        return g

    def call(self, kind):
        self.calls += 1
        if self.fail_at is not None and self.calls >= self.fail_at:
            self.fail_at = None
            from dst.rng import stat
            stat("fault:draw-fails")
            raise RngFault("injected: draw failed")


def sample(seed, bug, kw, streams=None):
    AMBIENT.factory = streams or Streams(seed, bug)
    try:
        return sample_random_variations_v3_config(**kw)
    finally:
        AMBIENT.factory = None


def snap(cfg):
    return pubsnap(cfg, rng=False)


# ---------------------------------------------------------------- ranges
def within(ctx, name, v, lo, hi, eps=EPS):
    for x in np.ravel(np.asarray(v, float)):
        if not lo - eps * max(abs(lo), abs(hi) if np.isfinite(hi) else 0) <= x <= hi + eps * max(abs(lo), abs(hi) if np.isfinite(hi) else 0):
            ctx.violate("range-" + name, f"{name} is {x!r}, documented range [{lo!r}, {hi!r}]")


def exactly(ctx, name, v, want, eps=1e-9):
    v, want = np.asarray(v, float), np.asarray(want, float)
    if v.shape != want.shape or not np.allclose(v, want, rtol=eps, atol=0):
        ctx.violate("value-" + name, f"{name} is {v.tolist()}, documented {want.tolist()}")


def check_csd(ctx, csd):
    if type(csd) is not IdealCSDGeometric:
        ctx.violate("type", f"ideal CSD is a {type(csd).__name__}")
    t = [np.asarray(x, float) for x in csd.tct_params]
    if len(t) < 1 or any(x.shape != (8,) for x in t):
        ctx.violate("tct", f"tct_params {t}")
    l0, l1, s1, s2 = t[0][:4]
    within(ctx, "length", [l0, l1], 0.01, 0.025)
    within(ctx, "slope1", s1, 0.21429, 0.54688)
    within(ctx, "slope2", s2, -0.44, -0.07692)
    within(ctx, "angle-lead", math.atan(s1) - math.atan(s2), 0.43760867228, 1.6789624091)
    b0, b1 = t[0][4:6], t[0][6:8]
    a = math.pi / 4
    for ang in (a,):
        # rotated by 45 degrees (0 + -0.28/sqrt(2) in one coordinate)
        if abs(np.hypot(*b0) - np.hypot(-0.14, -0.14)) > 1e-9 or min(abs(b0)) > 1e-9:
            ctx.violate("value-bezier", f"first bezier anchor at {b0.tolist()}")
    w = b1 - b0
    width = float(np.hypot(*w))
    within(ctx, "interdot-width", width, 0.00043, 0.00814, 1e-6)
    d = np.array([1, (s1 + s2) / 2])
    if abs(w[0] * d[1] - w[1] * d[0]) > 1e-9 * np.hypot(*d) or w[0] <= 0:
        ctx.violate("direction", f"second bezier anchor in direction {w.tolist()}, mean slope {d[1]}")
    if len(t) < 2:
        ctx.violate("coverage", "a single charge transition covers the whole range")
    for p, q in zip(t, t[1:]):
        if not np.allclose(q[:4], t[0][:4], rtol=1e-12):
            ctx.violate("tct", f"transitions of one configuration have different shapes {q[:4].tolist()} and {t[0][:4].tolist()}")
        sh = q[4:6] - p[4:6]
        if not np.allclose(sh, q[6:8] - p[6:8], atol=1e-12) or not np.allclose(sh, t[1][4:6] - t[0][4:6], atol=1e-12):
            ctx.violate("tct", "transitions are shifted unevenly")
    iv = t[1][4:6] - t[0][4:6] + np.array([l1, l1 * s2])
    ln = float(np.hypot(*iv))
    within(ctx, "interdot-length", ln, 0.00261, 0.00987, 1e-6)
    within(ctx, "interdot-ratio", ln / width, 0.8692269873603532, 9.055385138137407, 1e-6)
    ang = (math.atan2(iv[1], iv[0]) - math.atan(s1) + math.pi) % (2 * math.pi) - math.pi
    within(ctx, "interdot-angle", ang, 0.58153916891, 1.396938844, 1e-6)
    phi = math.atan2(iv[1], iv[0]) - math.pi / 4
    if min(math.cos(phi), math.sin(phi)) < -1e-9:
        ctx.violate("interdot-direction", f"interdot vector points backwards ({math.degrees(phi):.1f} degrees)")
    exactly(ctx, "lut-entries", csd.lut_entries, 1000)


def check_alphas(ctx, s, kw):
    q = kw["quality_multiplier"]
    g1, g2 = np.asarray(s.alpha_gate, float)
    within(ctx, "alpha-gate-1", g1, *((0.0001, 0.0005) if kw["compensated_sensor"] else (0.02805, 0.15093)))
    within(ctx, "alpha-gate-2", g2, 0.5 * g1, 2 * g1)
    a1, a2 = np.asarray(s.alpha_dot, float)
    within(ctx, "alpha-dot-1", a1, -0.0007994, -0.0007994 + q * (0.0007994 - 0.0000961))
    within(ctx, "alpha-dot-2", a2, -0.0005214, -0.0005214 + q * (0.0005214 - 0.0000630))
    within(ctx, "alpha-dot-1 per pixel", a1, -1, -0.0006 * g1)
    within(ctx, "alpha-dot-2 per pixel", a2, -1, -0.0006 * g2)
    within(ctx, "alpha-dot ratio", a2 / a1, 0.5, 2)


def mu_range(s):
    """Sensor potentials between empty dots at one corner and five electrons per dot at the other."""
    a, d = np.asarray(s.alpha_gate, float), np.asarray(s.alpha_dot, float)
    e = [-0.2 * a.sum() + 0 * d.sum(), -0.06 * a.sum() + 5 * d.sum()]
    return min(e), max(e)


def check_generic(ctx, s, kw):
    if type(s) is not SensorGeneric:
        ctx.violate("type", f"sensor is a {type(s).__name__}")
    check_alphas(ctx, s, kw)
    peaks = s.sensor_peak_function
    within(ctx, "number of peaks", len(peaks), 3, 6)
    lo, hi = mu_range(s)
    h = [p.height for p in peaks]
    o = [p.offset for p in peaks]
    within(ctx, "gamma", [p.gamma for p in peaks], 0.0009636, 0.0029509)
    within(ctx, "mu0", [p.mu0 for p in peaks], lo, hi)
    within(ctx, "height", h[0], 0.02245, 0.19204)
    within(ctx, "height variation", np.array(h) / h[0], 0.8, 1.2)
    within(ctx, "offset", o[0], -0.42275, -0.0838)
    within(ctx, "offset variation", np.array(o) / o[0], 0.8, 1.2)
    mu = np.sort([p.mu0 for p in peaks])
    within(ctx, "peak distance", np.diff(mu), (hi - lo) / (2 * len(peaks)), hi - lo)
    if kw["set_sensor_potential_offset_to_steepest_point"]:
        ctx.stat("probe:steepest")
        x = np.linspace(lo - 0.2 * (hi - lo), hi + 0.2 * (hi - lo), 20001)
        f = sum_peaks(peaks, x)
        best = np.gradient(f, x).max()
        m = float(s.offset_mu_sens)
        e = (hi - lo) * 1e-6
        here = (sum_peaks(peaks, np.array([m + e])) - sum_peaks(peaks, np.array([m - e])))[0] / (2 * e)
        if not lo - 0.2001 * (hi - lo) <= m <= hi + 0.2001 * (hi - lo) or here < 0.97 * best:
            ctx.violate("steepest", f"offset {m!r} has slope {here:.5g}, the steepest point of the sensor {best:.5g}")
    elif float(s.offset_mu_sens) != 0:
        ctx.violate("value-offset", f"offset_mu_sens is {s.offset_mu_sens!r}")


def sum_peaks(peaks, x):
    y = 0.0
    for p in peaks:
        y = y + p.offset + p.height * (p.gamma ** 2 / (p.gamma ** 2 + (x - p.mu0) ** 2))
    return y


def check_scan(ctx, s, kw):
    q = kw["quality_multiplier"]
    if type(s) is not SensorScanSensorGeneric:
        ctx.violate("type", f"sensor is a {type(s).__name__}")
    sg = np.asarray(s.alpha_sensor_gate, float)
    if sg.shape != (3, 2):
        ctx.violate("shape", f"alpha_sensor_gate {sg.tolist()}")
    exactly(ctx, "alpha-sensor", sg[0].max(), 0.1)
    within(ctx, "alpha-sensor ratio", sg[0, 0] / sg[0, 1], 0, 2)
    exactly(ctx, "alpha-barrier", [sg[1, 0], sg[2, 1]], [0.99, 0.99])
    within(ctx, "alpha-barrier-cross", [sg[1, 1], sg[2, 0]], 0.1, 0.3)
    check_alphas3(ctx, s, kw)
    peaks, rise = s.sensor_peak_function, s.final_rise
    within(ctx, "number of peaks", len(peaks), 20, 30)
    mu = np.array([p.mu0 for p in peaks])
    if (np.diff(mu) <= 0).any():
        ctx.violate("peak-order", f"peaks at {mu.tolist()}")
    gm = np.array([p.gamma for p in peaks])
    within(ctx, "gamma", gm, 0, 0.0022)
    f = gm[1:] / gm[:-1]
    if ((f < 0.85 - 1e-9) | (f > 1.5 + 1e-9)).any() and not (gm[1:][(f < 0.85 - 1e-9) | (f > 1.5 + 1e-9)] >= 0.0018 - 1e-12).all():
        ctx.violate("range-gamma", f"ratios of subsequent peak widths {f.tolist()}")
    within(ctx, "first peak distance", mu[1] - mu[0], 0, 0.00367179654343025 * 4)
    rel = np.diff(mu)[1:] / (mu[1] - mu[0])
    for n, x in enumerate(rel):
        k = min(n + 2, 10)
        c = -0.0374000174907983 / 4 * (k - 1) + 1.0189427890611187
        within(ctx, "relative peak distance", x, c - 0.09509839063162284 / 2, c + 0.09509839063162284 / 2, 1e-6)
    within(ctx, "height", [p.height for p in peaks], 0, np.inf)
    exactly(ctx, "offset", [p.offset for p in peaks], [0.0] * len(peaks))
    exactly(ctx, "rise-left", rise.asymptote_left, 0)
    within(ctx, "rise growth rate", rise.growth_rate, 400, 600)
    within(ctx, "rise asymmetry", rise.asymmetry, 0.01, 1)
    within(ctx, "rise shape factor", rise.shape_factor, 0.01, 100)
    exactly(ctx, "rise percentage", rise.fully_conductive_percentage, 0.95)
    x = np.concatenate([mu[:, None] + np.linspace(-1, 1, 21) * 1e-5, mu[:, None]], axis=None)
    top = sum_peaks(peaks, x).max()
    within(ctx, "rise height", rise.asymptote_right, 1.05 * top * 0.9, 1.05 * top * 1.02)
    bars = s.barrier_functions
    if len(bars) != 2:
        ctx.violate("barriers", f"{len(bars)} barrier functions")
    for b in bars:
        exactly(ctx, "barrier-height", [b.asymptote_left, b.asymptote_right], [0, 0.25 * q])
        within(ctx, "barrier growth rate", b.growth_rate, 20, 40)
        within(ctx, "barrier asymmetry", b.asymmetry, 1e-6, 1e-4)
        within(ctx, "barrier shape factor", b.shape_factor, 0.01, 100)
        exactly(ctx, "barrier percentages", [b.pinch_off_percentage, b.fully_conductive_percentage], [0.001, 0.999])
    # both barriers pinch off and the first peak starts at one common base point
    bp = np.linalg.solve(sg[1:], [float(b.pinch_off) for b in bars])
    within(ctx, "base point", bp, -0.688, -0.509, 1e-5)
    if abs(mu[0] - (sg[0] @ bp - 0.05)) > 1e-5:
        ctx.violate("base-point", f"first peak at {mu[0]!r}, base point {bp.tolist()} has potential {sg[0] @ bp!r}")
    if s.sensor_peak_deformations:
        ctx.violate("deformations", f"sampled deformations {s.sensor_peak_deformations}")


def check_alphas3(ctx, s, kw):
    g = np.asarray(s.alpha_gate, float)
    d = np.asarray(s.alpha_dot, float)
    if g.shape == (2,) and d.shape == (2,):
        return check_alphas(ctx, s, kw)
    for i in range(3):      # the same lever-arms towards all three potentials
        class One:
            alpha_gate, alpha_dot = g[i] if g.ndim == 2 else g, d[i] if d.ndim == 2 else d
        check_alphas(ctx, One, kw)


def lists_of(cfg):
    return [cfg["occupation_distortions"], cfg["sensor_potential_distortions"], cfg["sensor_response_distortions"]]


def check_distortions(ctx, cfg, kw, ndraws):
    q = kw["quality_multiplier"]
    occ, pot, resp = [sorted(x, key=lambda d: (type(d).__name__, getattr(d, "axis", 0))) for x in lists_of(cfg)]
    types = [[type(d) for d in x] for x in (occ, pot, resp)]
    want = [[OccupationDotJumps, OccupationDotJumps, OccupationTransitionBlurringFermiDirac], [SensorPotentialPinkNoise, SensorPotentialRTN], [SensorResponseRTN, SensorResponseWhiteNoise]]
    if types != want:
        ctx.violate("distortions", f"distortions are {[[t.__name__ for t in x] for x in types]}")
    j0, j1, fermi = occ
    exactly(ctx, "jump axes", [j0.axis, j1.axis], [0, 1])
    exactly(ctx, "jump ratios", [j0.ratio, j1.ratio], [0.01, 0.01 / 6])
    for j in (j0, j1):
        exactly(ctx, "jump scale and strength", [j.scale, j.lam], [100 * 0.03 / 100, 6 * 0.03 / 100])
    exactly(ctx, "potential RTN", [pot[1].scale, pot[1].std, pot[1].height, pot[1].ratio], [74.56704 * 0.0003, 3.491734e-05, 2.53855325e-05, q / 6])
    exactly(ctx, "response RTN", [resp[0].scale, resp[0].std, resp[0].height, resp[0].ratio], [3.0, 0.0474537676, 0.0152373696, 0.01 * q])
    scale = 0.6 * q / math.log(100)
    for name, d, lo, hi, sc in (("blurring", fermi, 0.25 * 0.0003, 2 * 0.0003, None), ("pink noise", pot[0], 1e-10, 0.0005, scale), ("white noise", resp[1], 1e-10, 0.0005, scale)):
        v = np.array([d.sigma.sample_parameter() for _ in range(ndraws)])
        within(ctx, name + " strength", v, lo, hi)
        if sc is not None and ndraws >= 200:
            u = np.sort((1 - np.exp(-(v - lo) / (hi - lo) / sc)) / (1 - math.exp(-1 / sc)))
            n = len(u)
            dev = max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max())
            if dev > 3.65 / math.sqrt(n):
                ctx.violate("quality-" + name.split()[0], f"{n} strengths of the {name} at quality multiplier {q} deviate by {dev:.3f} from an exponential law with scale {sc:.4g} (mean {v.mean():.4g}, expected about {lo + (hi - lo) * sc:.4g})")


def check_config(ctx, cfg, kw, ndraws=40):
    if set(cfg) != {"volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2", "ideal_csd_config", "sensor", "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"}:
        ctx.violate("incomplete", f"configuration has {sorted(cfg)}")
    for k, lim in (("g1", [-0.2, -0.06]), ("g2", [-0.2, -0.06]), ("sensor_g1", [-1, 0]), ("sensor_g2", [-1, 0])):
        exactly(ctx, "limits", cfg["volt_limits_" + k], lim)
    check_csd(ctx, cfg["ideal_csd_config"])
    (check_scan if kw["sensor_type"] == "SensorScanSensorGeneric" else check_generic)(ctx, cfg["sensor"], kw)
    check_distortions(ctx, cfg, kw, ndraws)
    ctx.nontrivial = True
    ctx.reach(sorted(kw.items()), len(cfg["ideal_csd_config"].tct_params), len(cfg["sensor"].sensor_peak_function))


def probes(ctx, kw):
    ctx.stat("probe:scan" if "Scan" in kw["sensor_type"] else "probe:generic")
    if kw["compensated_sensor"]:
        ctx.stat("probe:compensated")
    q = kw["quality_multiplier"]
    ctx.stat("probe:quality-1" if q == 1 else "probe:quality-low" if q > 1e-2 else "probe:quality-tiny")


def use(ctx, cfg, kw, ops):
    """Measure over the whole range."""
    sim = Simulation(**copy.deepcopy(cfg))
    for k in ("g1", "g2", "sensor_g1", "sensor_g2"):
        if list(getattr(sim, "volt_limits_" + k)) != list(cfg["volt_limits_" + k]):
            ctx.violate("limits", f"volt_limits_{k} of the simulation are {getattr(sim, 'volt_limits_' + k)}")
    for op in ops:
        Budget.spend(500)
        scan = op["op"] == "scan"
        if scan and "Scan" not in kw["sensor_type"]:
            continue
        l1, l2 = [list(cfg["volt_limits_" + ("sensor_" if scan else "") + g]) for g in ("g1", "g2")]
        r1, r2 = np.array(l1[::-1] if op["flip"][0] else l1), np.array(l2[::-1] if op["flip"][1] else l2)
        res = op["res"] if isinstance(op["res"], int) else np.array(op["res"])
        try:
            if kw["set_sensor_potential_offset_to_steepest_point"] and not scan and "Scan" not in kw["sensor_type"]:
                from simcats.support_functions import reset_offset_mu_sens
                reset_offset_mu_sens(sim, float(cfg["sensor"].offset_mu_sens), r1, r2)
                ctx.stat("probe:retuned")
            out = (sim.measure_sensor_scan if scan else sim.measure)(r1, r2, resolution=res)
        except Exception as e:
            ctx.violate("not-measurable", f"{op} over the whole range: {describe_exc(e)}", describe_exc(e))
        ctx.stat("op:" + op["op"])
        ctx.stat("probe:scanned" if scan else "probe:measured")
        for name, x in zip(("signal", "occupations/mask", "transitions/mask"), out[:3]):
            if not np.isfinite(np.asarray(x, float)).all():
                ctx.violate("not-finite", f"{op}: {name} is not finite")
        if not scan and (np.asarray(out[1]) < -1e-9).any():
            ctx.violate("occupations", f"{op}: negative occupations {np.asarray(out[1]).min()!r}")
        want = (res,) if isinstance(res, int) else (res[1], res[0])
        if np.asarray(out[0]).shape != tuple(want):
            ctx.violate("shape", f"{op}: {np.asarray(out[0]).shape}")


def run_config(sc, ctx):
    probes(ctx, sc["kw"])
    if sc["bug"]:
        ctx.stat("probe:crowded" if sc["bug"].get("spots") else "probe:forced")
        if sc["bug"].get("spots"):
            Budget.reset(400_000)
    dflt = snap(default_configs)
    bad = dict(sc["kw"], **BAD[sc["seed"] % len(BAD)])
    try:
        sample(sc["seed"], sc["bug"], bad)
    except ValueError:
        ctx.stat("probe:rejected")
    else:
        ctx.violate("accepted", f"sampled a configuration for {bad}")
    cfg = sample(sc["seed"], sc["bug"], sc["kw"])
    check_config(ctx, cfg, sc["kw"])
    use(ctx, cfg, sc["kw"], sc["ops"])
    d = snap_diff(dflt, snap(default_configs))
    if d:
        ctx.violate("defaults-changed", f"default_configs changed: {d}")


def run_quality(sc, ctx):
    ctx.stat("probe:quality")
    kw = sc["kw"]
    probes(ctx, kw)
    q = kw["quality_multiplier"]
    a1, a2, rel = [], [], []
    for i in range(40):
        Budget.spend(100)
        cfg = sample(sc["seed"] + 1000 * i, None, kw)
        check_config(ctx, cfg, kw, 250 if i == 0 else 5)
        s = cfg["sensor"]
        x = np.asarray(s.alpha_dot, float)
        g = np.asarray(s.alpha_gate, float)
        top = min(-0.0007994 + q * (0.0007994 - 0.0000961), -0.0006 * g[0])
        a1.append((x[0] + 0.0007994) / (top + 0.0007994))
        lo2, hi2 = max(2 * x[0], -0.0005214), min(0.5 * x[0], -0.0006 * g[1], -0.0005214 + q * (0.0005214 - 0.0000630))
        a2.append((x[1] - lo2) / (hi2 - lo2))
        rel.append((0.19204 - s.sensor_peak_function[0].height) / (0.19204 - 0.02245) / (0.6 * q))
    # 40 uniform values: none above 0.45 has probability 1e-14; heights beyond the 99 % quantile: more than 20 of 40 has 1e-29
    for name, u in (("alpha_dot of dot 1", a1), ("alpha_dot of dot 2", a2)):
        if max(u) < 0.45 or min(u) > 0.55:
            ctx.violate("quality-lever-arm", f"{name} at quality multiplier {q} only uses {min(u):.4f} to {max(u):.4f} of its range")
    if sum(x > 1.05 for x in rel) > 20 or max(rel) < 0.07:
        ctx.violate("quality-height", f"Coulomb peak heights at quality multiplier {q} lie {min(rel):.3g} to {max(rel):.3g} times the 99 % quantile below the maximum")
    if sc["scan"]:
        kw = dict(kw, sensor_type="SensorScanSensorGeneric")
        u, hts = [], []
        for i in range(25):
            Budget.spend(100)
            cfg = sample(sc["seed"] + 7 + 1000 * i, None, kw)
            check_config(ctx, cfg, kw, 5)
            d, g = [np.asarray(x, float).reshape(-1, 2)[0] for x in (cfg["sensor"].alpha_dot, cfg["sensor"].alpha_gate)]
            u.append((d[0] + 0.0007994) / (min(q * (0.0007994 - 0.0000961), 0.0007994 - 0.0006 * g[0])))
            hts.append(np.mean([p.height for p in cfg["sensor"].sensor_peak_function]))
        if max(u) < 0.35 or min(u) > 0.65:
            ctx.violate("quality-lever-arm", f"alpha_dot of dot 1 of scan sensors at quality multiplier {q} only uses {min(u):.4f} to {max(u):.4f} of its range")


def touch(cfg, how):
    """Legal things to do with a configuration one owns: modify it in place."""
    s = cfg["sensor"]
    if how == 0:
        for k in list(cfg):
            if k.startswith("volt_limits"):
                cfg[k][:] = [-9, 9]
    elif how == 1:
        for p in cfg["ideal_csd_config"].tct_params:
            p[:] = 1.0
        cfg["ideal_csd_config"].lut_entries = 3
    elif how == 2:
        cfg["ideal_csd_config"].tct_params.clear()
    elif how == 3:
        s.alpha_dot[...] = 5.0
        s.alpha_gate[...] = 5.0
    elif how == 4:
        for p in s.sensor_peak_function:
            p.mu0, p.height, p.gamma, p.offset = 1.0, 2.0, 3.0, 4.0
    elif how == 5:
        for lst in lists_of(cfg):
            for d in lst:
                for n in ("ratio", "scale", "lam", "std", "height", "sigma"):
                    if hasattr(d, n):
                        setattr(d, n, 0.5)
            lst.clear()
    elif how == 6:
        for lst in lists_of(cfg):
            lst.append(None)
        cfg.clear()
    else:
        for lst in lists_of(cfg):
            for d in lst:
                if hasattr(d, "sigma") and hasattr(d.sigma, "sample_parameter"):
                    d.sigma.sample_parameter()


def run_isolation(sc, ctx):
    ctx.stat("probe:isolation")
    kws = [sc["kw"]] + sc["kw2"]
    dflt = snap(default_configs)
    dflt_use = use_defaults(ctx)
    first = sample(sc["seed"], sc["bug"], kws[0])
    want = snap(first)
    probes(ctx, kws[0])
    kept = [(first, want)]
    for i, kw in enumerate(kws[1:], 1):
        cfg = sample(sc["seed"] + 100 * i, sc["bug"], kw)
        kept.append((cfg, snap(cfg)))
        probes(ctx, kw)
    for i, (c, s) in enumerate(kept):
        d = snap_diff(s, snap(c))
        if d:
            ctx.violate("earlier-changed", f"configuration {i} changed when later ones were sampled: {d}")
    # spoil the last one
    victim = copy.copy(kept[-1][0])
    for how in sc["mut"]:
        if victim:
            touch(victim, how)
    for i, (c, s) in enumerate(kept[:-1]):
        d = snap_diff(s, snap(c))
        if d:
            ctx.violate("shared", f"configuration {i} changed when a later one was modified: {d}")
    d = snap_diff(dflt, snap(default_configs))
    if d:
        ctx.violate("defaults-changed", f"default_configs changed: {d}")
    again = sample(sc["seed"], sc["bug"], kws[0])
    d = snap_diff(want, snap(again))
    if d:
        ctx.violate("history", f"the same random streams give another configuration after earlier ones were sampled and modified: {d}")
    check_config(ctx, again, kws[0])
    if use_defaults(ctx) != dflt_use:
        ctx.violate("defaults-changed", "measurements with default_configs changed")


def use_defaults(ctx):
    ctx.stat("probe:defaults-used")
    out = []
    for name in sorted(default_configs):
        sim = Simulation(**copy.deepcopy(default_configs[name]))
        sim.occupation_distortions, sim.sensor_potential_distortions, sim.sensor_response_distortions = [], [], []
        x = sim.measure([-0.2, -0.1], [-0.2, -0.1], resolution=np.array([7, 6]))
        out.append([np.asarray(y).tolist() for y in x[:3]])
    return out


def run_abort(sc, ctx):
    kw = sc["kw"]
    probes(ctx, kw)
    dflt = snap(default_configs)
    prev = sample(sc["seed"] + 500, sc["bug"], sc["kw2"])
    psnap = snap(prev)
    st = Streams(sc["seed"], sc["bug"])
    want = None
    if sc["how"] == "draw":
        want = sample(0, None, kw, st)
        n = st.calls
        st = Streams(sc["seed"], sc["bug"])
        st.fail_at = 1 + int(sc["at"] * n)
        try:
            sample(0, None, kw, st)
        except RngFault:
            ctx.stat("probe:draw-failed")
        else:
            ctx.violate("swallowed", "a failing random draw did not reach the caller")
        place = ("draw",)
    else:
        keep = []
        n = fault.count_lines(lambda: keep.append(sample(sc["seed"], sc["bug"], kw)))
        want = keep[0]
        k = 1 + int(sc["at"] * n)
        res, v, exc, place = fault.abort_at(lambda: sample(sc["seed"], sc["bug"], kw), k, sc["exc"])
        if res == "other":
            ctx.violate("abort-replaced", f"{describe_exc(exc)} at {place} became {describe_exc(v)}")
        if res == "finished" and place is not None:
            ctx.violate("swallowed", f"an exception ({sc['exc']}) at {place} did not reach the caller")
        ctx.stat("probe:aborted")
    AMBIENT.factory = None
    d = snap_diff(dflt, snap(default_configs))
    if d:
        ctx.violate("defaults-changed", f"default_configs changed by an aborted sampling (at {place}): {d}")
    d = snap_diff(psnap, snap(prev))
    if d:
        ctx.violate("earlier-changed", f"an earlier configuration changed by an aborted sampling (at {place}): {d}")
    again = sample(sc["seed"], sc["bug"], kw)
    d = snap_diff(snap(want), snap(again))
    if d:
        ctx.violate("history", f"the same random streams give another configuration after an aborted sampling (at {place}): {d}")
    check_config(ctx, again, kw)
    ctx.reach("abort", place and place[:2])


def execute(sc, ctx):
    {"config": run_config, "quality": run_quality, "isolation": run_isolation, "abort": run_abort}[sc["kind"]](sc, ctx)
