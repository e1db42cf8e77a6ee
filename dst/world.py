"""Scenario specs (JSON) -> SimCATS objects, and generators of random specs and requests.

A spec of a simulation:
  csd     {"t": "geom", "n": tcts, "lut": entries} | {"t": "probe"} | {"t": "steps", ..} | {"t": "cache", ..} | null
  sensor  {"t": "generic", ...} | {"t": "scan", ...} | null
  occ/pot/resp   lists of distortion specs (or null)
  limits  {"g1": [a, b] | null, "g2": .., "s1": .., "s2": ..}
Random generators are named by an integer: equal integers within one list are one shared generator object.
"""
import copy

import numpy as np

from dst.core import Rnd, derive
from dst.rng import plain_rng, sim_rng
from simcats import Simulation, default_configs
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac,
                                 OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN,
                                 SensorResponseRTN, SensorResponseWhiteNoise)
from simcats.ideal_csd import IdealCSDGeometric, IdealCSDInterface
from simcats.sensor import (SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian, SensorRiseGLF,
                            SensorScanSensorGeneric)
from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
from simcats.support_functions import (ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange,
                                       UniformSamplingRange)

G1_LIM = (-0.2, -0.087)
G2_LIM = (-0.2, -0.047)
S_LIM = (-1.0, 0.4)
_TCT = copy.deepcopy(default_configs["GaAs_v1"]["ideal_csd_config"].tct_params)


# ------------------------------------------------------------------ stub ideal CSDs
def grid(r1, r2, res):
    """Voltages of all pixels: shape (n, 2) or (rows=g2, cols=g1, 2)."""
    if isinstance(res, (int, np.integer)):
        res = [int(res)]
    res = [int(k) for k in res]
    if len(res) == 1:
        return np.stack([np.linspace(r1[0], r1[1], res[0]), np.linspace(r2[0], r2[1], res[0])], -1)
    a, b = np.meshgrid(np.linspace(r1[0], r1[1], res[0]), np.linspace(r2[0], r2[1], res[1]))
    return np.stack([a, b], -1)


class ProbeCSD(IdealCSDInterface):
    """Occupations are the voltages themselves; the lead transition 'mask' is a function of both voltages."""

    def __init__(self, mix=(3.0, -7.0)):
        self.mix = mix
        self.log = None

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        if self.log is not None:
            self.log.append((list(map(float, volt_limits_g1)), list(map(float, volt_limits_g2)),
                             np.atleast_1d(resolution).tolist()))
        occ = grid(volt_limits_g1, volt_limits_g2, resolution)
        return occ, occ[..., 0] * self.mix[0] + occ[..., 1] * self.mix[1]


class StepCSD(IdealCSDInterface):
    """A cheap honeycomb-free stand-in: integer occupations growing with voltage, mask where the total changes."""

    def __init__(self, p1=0.02, p2=0.025, cross=0.2):
        self.p1, self.p2, self.cross = p1, p2, cross

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        v = grid(volt_limits_g1, volt_limits_g2, resolution)
        occ = np.empty_like(v)
        occ[..., 0] = np.floor((v[..., 0] + self.cross * v[..., 1] + 1.0) / self.p1)
        occ[..., 1] = np.floor((v[..., 1] + self.cross * v[..., 0] + 1.0) / self.p2)
        tot = occ.sum(-1)
        mask = np.zeros(tot.shape)
        mask[..., 1:] = (np.diff(tot, axis=-1) != 0).astype(float)
        return occ, mask


class CacheCSD(StepCSD):
    """A provider that keeps and hands out its own arrays, as one that serves recorded data would."""

    def __init__(self, *a):
        super().__init__(*a)
        self.cache = {}

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        k = (tuple(map(float, volt_limits_g1)), tuple(map(float, volt_limits_g2)), tuple(np.atleast_1d(resolution).tolist()))
        if k not in self.cache:
            self.cache[k] = super().get_csd_data(volt_limits_g1, volt_limits_g2, resolution)
        return self.cache[k]


# ------------------------------------------------------------------ build
class Rngs:
    """Generator objects by number.  mode: share | copy | plain."""

    def __init__(self, seed, mode="share", bug=None, kind="pcg"):
        self.seed, self.mode, self.bug, self.kind, self.all = seed, mode, bug, kind, {}

    def seed_of(self, k):
        return derive("rng", self.seed, k) % 2 ** 63

    def get(self, k):
        if k is None:
            return None
        if k not in self.all:
            kind = self.kind if self.kind != "mixed" else ("pcg", "philox", "mt", "sfc")[k % 4]
            self.all[k] = (plain_rng(self.seed_of(k), kind) if self.mode == "plain" else
                           sim_rng(self.seed_of(k), self.mode == "share", self.bug, kind))
        return self.all[k]

    def reseed(self, salt):
        for k, g in self.all.items():
            g.reseed(derive("reseed", self.seed, k, salt) % 2 ** 63)

    def states(self):
        return {k: (g.state() if hasattr(g, "state") else repr(g.bit_generator.state)) for k, g in self.all.items()}


def build_param(p, rngs):
    """A number or a sampler spec {"s": kind, ...}."""
    if not isinstance(p, dict):
        return p
    rng = rngs.get(p.get("rng"))
    kw = dict(total_range=tuple(p["range"]))
    if p.get("width") is not None:
        kw["sampling_range"] = p["width"]
    if rng is not None:
        kw["rng"] = rng
    if p["s"] == "uniform":
        return UniformSamplingRange(**kw)
    if p["s"] == "normal":
        if p.get("mean") is not None:
            kw["mean"] = p["mean"]
        return NormalSamplingRange(std=p["std"], **kw)
    if p["s"] == "lognormal":
        return LogNormalSamplingRange(mean=p.get("mean", 0), sigma=p.get("sigma", 1), **kw)
    if p["s"] == "exp":
        return ExponentialSamplingRange(scale=p["scale"], **kw)
    raise ValueError(p)


def build_distortion(d, rngs):
    t = d["t"]
    b = lambda k: build_param(d[k], rngs)  # noqa: E731
    own = {} if d.get("rng") is None else {"rng": rngs.get(d["rng"])}      # without: the library's default generator
    if t == "jumps":
        return OccupationDotJumps(scale=b("scale"), lam=b("lam"), axis=d["axis"], ratio=d.get("ratio", 1), **own)
    if t == "gauss":
        return OccupationTransitionBlurringGaussian(sigma=b("sigma"))
    if t == "fermi":
        return OccupationTransitionBlurringFermiDirac(sigma=b("sigma"))
    if t == "pink":
        return SensorPotentialPinkNoise(sigma=b("sigma"), fmin=d.get("fmin", 0), **own)
    if t in ("prtn", "rrtn"):
        cls = SensorPotentialRTN if t == "prtn" else SensorResponseRTN
        return cls(scale=b("scale"), std=b("std"), height=b("height"), ratio=d.get("ratio", 1), **own)
    if t == "white":
        return SensorResponseWhiteNoise(sigma=b("sigma"), **own)
    if t in CUSTOM:
        return CUSTOM[t](d, rngs)
    raise ValueError(t)


CUSTOM = {}      # further distortion types registered by property modules


def build_list(lst, rngs):
    return None if lst is None else [build_distortion(d, rngs) for d in lst]


def build_peak(p):
    if p["t"] == "lor":
        return SensorPeakLorentzian(mu0=p["mu0"], gamma=p["w"], height=p["h"], offset=p.get("o", 0))
    return SensorPeakGaussian(mu0=p["mu0"], sigma=p["w"], height=p["h"], offset=p.get("o", 0))


def build_deform(d):
    return SensorPeakDeformationLinear(angle=d["angle"]) if d["t"] == "lin" else SensorPeakDeformationCircle(radius=d["radius"])


def build_barrier(b):
    if b.get("t") == "multi":
        n = len(b["offsets"])
        return BarrierFunctionMultiGLF(b["pinch"], b["full"], *[x for o in b["offsets"] for x in (0, b["h"] / n, b["rate"], 0.5, 1.0, 1, o)])
    return BarrierFunctionGLF(pinch_off_percentage=b.get("pp", 0.001), fully_conductive_percentage=b.get("fp", 0.999),
                              asymptote_left=0, asymptote_right=b["h"], growth_rate=b["rate"], asymmetry=b["asym"],
                              shape_factor=b["shape"], denominator_offset=1, offset=b["o"])


def sensor_kwargs(s):
    """Class and constructor arguments of a sensor."""
    if s["t"] == "generic":
        pk = None if s["peaks"] is None else [build_peak(p) for p in s["peaks"]]
        if s.get("single"):
            pk = pk[0]
        return SensorGeneric, dict(sensor_peak_function=pk, alpha_dot=np.array(s["alpha_dot"]), alpha_gate=np.array(s["alpha_gate"]),
                                   offset_mu_sens=s["offset"])
    kw = {}
    for k in ("alpha_gate", "alpha_dot", "offset_mu_sens"):
        if s.get(k) is not None:
            kw[k] = np.array(s[k], dtype=float)
            if k == "offset_mu_sens" and s.get("float") and len(set(s[k])) == 1:
                kw[k] = float(s[k][0])
        elif s.get("none") and k != "offset_mu_sens":
            kw[k] = None
    if s.get("rise"):
        r = s["rise"]
        kw["final_rise"] = SensorRiseGLF(mu0=r["mu0"], asymptote_left=0, asymptote_right=r["h"], growth_rate=r["rate"],
                                         asymmetry=r["asym"], shape_factor=r["shape"], fully_conductive_percentage=r.get("fp", 0.999))
    if s.get("deform"):
        kw["sensor_peak_deformations"] = {int(k): build_deform(v) for k, v in s["deform"].items()}
    bar = [build_barrier(b) for b in s["barriers"]]
    pk = None if s["peaks"] is None else [build_peak(p) for p in s["peaks"]]
    kw.update(barrier_functions=bar[0] if len(bar) == 1 else tuple(bar), sensor_peak_function=pk[0] if s.get("single") else pk,
              alpha_sensor_gate=np.array(s["alpha_sensor_gate"], dtype=float))
    return SensorScanSensorGeneric, kw


def build_sensor(s):
    if s is None:
        return None
    if s["t"] in CUSTOM:
        return CUSTOM[s["t"]](s, None)
    cls, kw = sensor_kwargs(s)
    return cls(**kw)


def build_csd(c):
    if c is None:
        return None
    if c["t"] == "geom":
        tct = [x.copy() for x in _TCT[: c.get("n", 14)]]
        for i, j, f in c.get("tct") or []:
            tct[i][j] *= f
        return IdealCSDGeometric(tct_params=tct, lut_entries=c.get("lut", 1000), cdf_type=c.get("cdf", "sigmoid"),
                                 rotation=c.get("rot", -np.pi / 4))
    if c["t"] == "probe":
        return ProbeCSD()
    if c["t"] == "steps":
        return StepCSD(c.get("p1", 0.02), c.get("p2", 0.025), c.get("cross", 0.2))
    if c["t"] == "cache":
        return CacheCSD(c.get("p1", 0.02), c.get("p2", 0.025), c.get("cross", 0.2))
    if c["t"] in CUSTOM:
        return CUSTOM[c["t"]](c, None)
    raise ValueError(c)


def build_config(spec, rngs):
    if spec.get("default"):
        return default_configs[spec["default"]]
    lim = spec.get("limits") or {}
    arr = lambda x: None if x is None else np.array(x, dtype=float)  # noqa: E731
    cfg = dict(volt_limits_g1=arr(lim.get("g1")), volt_limits_g2=arr(lim.get("g2")),
               volt_limits_sensor_g1=arr(lim.get("s1")), volt_limits_sensor_g2=arr(lim.get("s2")),
               ideal_csd_config=build_csd(spec.get("csd")), sensor=build_sensor(spec.get("sensor")),
               occupation_distortions=build_list(spec.get("occ"), rngs),
               sensor_potential_distortions=build_list(spec.get("pot"), rngs),
               sensor_response_distortions=build_list(spec.get("resp"), rngs))
    return cfg


def build_sim(spec, rngs):
    return Simulation(**build_config(spec, rngs))


# ------------------------------------------------------------------ random specs
def gen_param(r, lo, hi, rngk, samplers=0.5):
    """A value in [lo, hi] or a sampler over a sub-range of it."""
    if not r.chance(samplers):
        return r.logu(lo, hi) if lo > 0 else r.u(lo, hi, 9)
    a, b = sorted((r.u(lo, hi, 9), r.u(lo, hi, 9)))
    if b - a < 0.05 * (hi - lo):
        a, b = lo, hi
    kind = r.wpick([("uniform", 3), ("normal", 3), ("lognormal", 1 if lo > 0 else 0), ("exp", 2)])
    p = {"s": kind, "range": [a, b], "rng": rngk()}
    if r.chance(0.35):
        p["width"] = float("%.6g" % ((b - a) * r.u(0.1, 0.9)))
        p["rng"] = rngk.private()       # the window is drawn at construction: keep it independent of other components
    if kind == "normal":
        p["std"] = float("%.6g" % ((b - a) * r.u(0.1, 1.5)))
        if p.get("width") is None and r.chance(0.4):
            p["mean"] = r.u(a, b, 9)
    elif kind == "lognormal":
        import math
        p["mean"] = round(math.log((a + b) / 2), 6)
        p["sigma"] = r.u(0.2, 1.0) if p.get("width") is None else r.u(1.5, 2.5)     # the window must be hit in reasonable time
    elif kind == "exp":
        p["scale"] = r.u(0.1, 0.8)
        if r.chance(0.3):
            p["range"] = [b, a]
    return p


def gen_ratio(r):
    return r.wpick([(1, 8), (0.5, 7), (0, 2), (r.u(0.05, 0.95, 3), 4), (r.pick([0.01, 0.03, 0.97, 0.99]), 1.5)])


def gen_strength(r, lo, hi, rngk, samplers=0.5):
    """Like gen_param; now and then exactly zero."""
    return 0.0 if r.chance(0.03) else gen_param(r, lo, hi, rngk, samplers)


def gen_occ_list(r, rngk, samplers=0.5, nmax=3, kinds=("jumps", "gauss", "fermi")):
    out = []
    for _ in range(r.randrange(nmax + 1)):
        t = r.pick(kinds)
        if t == "jumps":
            out.append({"t": "jumps", "scale": gen_param(r, 0.005, 0.08, rngk, samplers), "lam": gen_strength(r, 0.001, 0.03, rngk, samplers),
                        "axis": r.randrange(2), "ratio": gen_ratio(r), "rng": rngk()})
        else:
            out.append({"t": t, "sigma": gen_strength(r, 0.0001, 0.004, rngk, samplers)})
    return out


def gen_pot_list(r, rngk, samplers=0.5, nmax=3):
    out = []
    for _ in range(r.randrange(nmax + 1)):
        if r.chance(0.5):
            out.append({"t": "pink", "sigma": gen_strength(r, 1e-6, 5e-4, rngk, samplers), "fmin": r.wpick([(0, 3), (0.1, 1), (0.02, 1)]), "rng": rngk()})
        else:
            out.append({"t": "prtn", "scale": gen_param(r, 0.06, 0.5, rngk, samplers), "std": gen_strength(r, 1e-6, 1e-4, rngk, samplers),
                        "height": gen_strength(r, 1e-6, 1e-4, rngk, samplers), "ratio": gen_ratio(r), "rng": rngk()})
    return out


def gen_resp_list(r, rngk, samplers=0.5, nmax=3):
    out = []
    for _ in range(r.randrange(nmax + 1)):
        if r.chance(0.5):
            out.append({"t": "white", "sigma": gen_strength(r, 1e-5, 3e-3, rngk, samplers), "rng": rngk()})
        else:
            out.append({"t": "rrtn", "scale": gen_param(r, 0.06, 0.5, rngk, samplers), "std": gen_strength(r, 1e-3, 0.05, rngk, samplers),
                        "height": gen_strength(r, 1e-3, 0.05, rngk, samplers), "ratio": gen_ratio(r), "rng": rngk()})
    return out


def gen_generic(r, peaks=True):
    n = r.randrange(1, 4) if not r.chance(0.06) else r.randrange(6, 13)
    pk = [{"t": r.pick(["lor", "gau"]), "mu0": r.u(-0.13, -0.09, 6), "w": r.logu(0.0008, 0.01), "h": r.u(0.02, 0.2, 4), "o": r.u(-0.3, 0, 3)} for _ in range(n)]
    if not peaks or r.chance(0.15):
        pk = None
    s = {"t": "generic", "peaks": pk, "alpha_dot": [-r.u(2e-4, 8e-4, 7), -r.u(1e-4, 5e-4, 7)],
         "alpha_gate": [r.u(0.03, 0.15, 5), r.u(0.03, 0.19, 5)], "offset": r.u(-0.09, -0.07, 5)}
    if pk and n == 1 and r.chance(0.5):
        s["single"] = 1
    return s


def gen_scan_sensor(r, deform=0.4, rise=0.7):
    n = r.randrange(2, 6) if not r.chance(0.05) else r.randrange(8, 14)
    mu = sorted(r.u(-0.15, -0.085, 5) for _ in range(n))
    s = {"t": "scan",
         "barriers": [({"h": 0.3, "rate": r.u(60, 90, 2), "asym": r.logu(5e-5, 1e-4), "shape": r.u(20, 100, 2), "o": r.u(-0.9, -0.75, 3)}
                       if r.chance(0.8) else {"t": "multi", "pinch": r.u(-0.75, -0.65, 3), "full": r.u(-0.45, -0.35, 3), "h": 0.3, "rate": 30, "offsets": [-0.6, -0.55]})
                      for _ in range(r.wpick([(2, 4), (1, 1)]))],
         "peaks": [{"t": r.pick(["lor", "lor", "gau"]), "mu0": m, "w": r.logu(0.0005, 0.004), "h": r.u(0.05, 0.12, 4), "o": 0} for m in mu],
         "alpha_sensor_gate": [[r.u(0.09, 0.11, 5), r.u(0.09, 0.11, 5)], [0.99, r.u(0.1, 0.3, 3)], [r.u(0.1, 0.3, 3), 0.99]],
         "alpha_dot": None, "alpha_gate": None, "offset_mu_sens": None, "rise": None, "deform": None}
    if r.chance(0.8):
        s["alpha_dot"] = [-r.u(2e-4, 8e-4, 7), -r.u(1e-4, 5e-4, 7)] if r.chance(0.5) else [[-r.u(1e-4, 8e-4, 7), -r.u(1e-4, 5e-4, 7)] for _ in range(3)]
    if r.chance(0.8):
        s["alpha_gate"] = [r.u(0.03, 0.15, 5), r.u(0.03, 0.19, 5)] if r.chance(0.5) else [[r.u(0.03, 0.15, 5), r.u(0.03, 0.19, 5)] for _ in range(3)]
    s["none"] = int(r.chance(0.5))      # levers without influence: given as None or left out
    if r.chance(0.4):
        s["offset_mu_sens"] = [r.u(-0.005, 0.005, 5) for _ in range(3)]
    if r.chance(rise):
        s["rise"] = {"mu0": 0, "h": r.u(0.08, 0.15, 4), "rate": r.u(400, 2500, 1), "asym": r.u(0.02, 0.9, 4), "shape": r.u(1, 3, 3)}
    if r.chance(deform):
        s["deform"] = {str(k): ({"t": "lin", "angle": r.u(1.3, 1.85, 4)} if r.chance(0.5) else {"t": "circ", "radius": r.u(0.1, 1.5, 4) * r.pick([1, -1])})
                       for k in range(n) if r.chance(0.5)}
    if r.chance(0.08):
        s["offset_mu_sens"], s["float"] = [r.pick([0.0, r.u(-0.005, 0.005, 5)])] * 3, True
    if r.chance(0.08):      # a barrier that only one of the gates controls
        s["alpha_sensor_gate"][r.pick([1, 1, 2])][1] = 0.0
        if s["alpha_sensor_gate"][2][1] == 0:
            s["alpha_sensor_gate"][1:] = [[r.u(0.1, 0.3, 3), 0.99], [0.99, 0.0]]
    if not s["deform"]:
        x = r.random()
        if x < 0.06:
            s["peaks"], s["single"] = s["peaks"][:1], True
        elif x < 0.12:
            s["peaks"] = None
    return s


def gen_default(r):
    """A spec describing one of the default configurations (its objects are the ones of default_configs)."""
    name = r.pick(sorted(default_configs))
    occ = [{"t": "gauss", "sigma": 0.000225}] + [{"t": "jumps", "scale": 0.03, "lam": 0.0018, "axis": a, "ratio": 0.01, "rng": None} for a in (0, 1)]
    pot = [{"t": "pink", "sigma": 1e-5, "rng": None}, {"t": "prtn", "scale": 0.0223, "std": 3e-5, "height": 2e-5, "ratio": 1 / 6, "rng": None}]
    resp = [{"t": "rrtn", "scale": 3.0, "std": 0.047, "height": 0.015, "ratio": 0.03, "rng": None}, {"t": "white", "sigma": 1e-3, "rng": None}]
    if name == "GaAs_v1":
        sensor = {"t": "generic", "alpha_dot": [-0.00044775, -0.0002922], "alpha_gate": [0.08949, 0.116395], "offset": -0.0818745,
                  "peaks": [{"t": "lor", "mu0": -0.12096 + 0.005 * i, "w": 0.00095 + 0.00005 * i, "h": 0.026245 + 0.001 * i, "o": -0.253275} for i in range(5)]}
        lim = {"g1": list(G1_LIM), "g2": list(G2_LIM)}
    else:
        bar = [{"h": 0.3, "rate": 80, "asym": 8.9e-5, "shape": 25.6, "o": -0.78}, {"h": 0.3, "rate": 72, "asym": 7.8e-5, "shape": 97.5, "o": -0.88}]
        sensor = {"t": "scan", "barriers": bar, "peaks": [{"t": "lor", "mu0": -0.151 + 0.003 * i, "w": 0.0003, "h": 0.09, "o": 0} for i in range(19)],
                  "alpha_sensor_gate": [[0.096754, 0.1], [0.99, 0.15], [0.15, 0.99]], "alpha_dot": [[-0.00044775, -0.0002922]] * 3,
                  "alpha_gate": [[0.08949, 0.116395]] * 3, "offset_mu_sens": [0, 0, 0],
                  "rise": {"mu0": 0, "h": 0.1, "rate": 2500, "asym": 0.035, "shape": 2}, "deform": {}}
        lim = {"g1": list(G1_LIM), "g2": list(G2_LIM), "s1": list(S_LIM), "s2": list(S_LIM)}
        resp = resp[1:]
    return {"default": name, "csd": {"t": "geom"}, "sensor": sensor, "occ": occ, "pot": pot, "resp": resp, "limits": lim}


def rng_namer(r, n=4, start=100, shared=True):
    """Generator names: a few shared ones and some private ones."""
    count = [start]

    def private():
        count[0] += 1
        return count[0]

    def k():
        return r.randrange(n) if shared and r.chance(0.3) else private()
    k.private = private
    return k


def gen_spec(r, csd=(("geom", 4), ("steps", 3)), sensor=(("generic", 3), ("scan", 2)), samplers=0.5, nmax=3, limits=0.5,
             deform=0.3, occ=True, pot=True, resp=True, none_lists=0.15):
    k = rng_namer(r)
    spec = {"csd": {"t": r.wpick(csd)}, "limits": {}}
    t = r.wpick(sensor)
    spec["sensor"] = gen_generic(r) if t == "generic" else gen_scan_sensor(r, deform=deform)
    spec["occ"] = gen_occ_list(r, k, samplers, nmax) if occ and not r.chance(none_lists) else None
    spec["pot"] = gen_pot_list(r, k, samplers, nmax) if pot and not r.chance(none_lists) else None
    spec["resp"] = gen_resp_list(r, k, samplers, nmax) if resp and not r.chance(none_lists) else None
    if r.chance(limits):
        spec["limits"] = {"g1": list(G1_LIM), "g2": list(G2_LIM)}
        if t == "scan" and r.chance(0.6):
            spec["limits"].update(s1=list(S_LIM), s2=list(S_LIM))
    return spec


# ------------------------------------------------------------------ random requests
def gen_range(r, lim, minfrac=0.15):
    span = lim[1] - lim[0]
    w = span * r.u(minfrac, 1.0)
    a = lim[0] + (span - w) * r.random()
    a, b = round(a, 5), round(a + w, 5)
    b = min(b, lim[1])
    a = max(a, lim[0])
    return [a, b]


def gen_measure(r, sensor_t, n2=(3, 9), n1=(3, 16), oned=0.4, reverse=0.4, lim1=G1_LIM, lim2=G2_LIM):
    """One valid CSD request."""
    r1, r2 = gen_range(r, lim1), gen_range(r, lim2)
    if r.chance(reverse):
        r1.reverse()
    if r.chance(reverse):
        r2.reverse()
    op = {"op": "measure", "r1": r1, "r2": r2}
    if r.chance(oned):
        mode = r.wpick([("g1", 2), ("g2", 2), ("both", 3)])
        if mode == "g1":
            op["r2"] = [r2[0], r2[0]]
        elif mode == "g2":
            op["r1"] = [r1[0], r1[0]]
        op["res"] = r.randrange(*n1)
        op["form"] = r.pick(["int", "arr"])
    else:
        op["res"] = [r.randrange(*n2), r.randrange(*n2)]
        if r.chance(0.3):
            op["res"][1] = op["res"][0]
        op["form"] = "arr"
    if sensor_t == "scan":
        op["v"] = [r.u(-0.7, -0.3, 4), r.u(-0.7, -0.3, 4)]
    return coincide(r, op, lim1 == G1_LIM and lim2 == G2_LIM)


def gen_scan(r, n2=(3, 9), n1=(3, 14), oned=0.4, plunger=0.6, has_csd=True, reverse=0.3):
    r1, r2 = gen_range(r, (-0.9, -0.1), 0.1), gen_range(r, (-0.9, -0.1), 0.1)
    if r.chance(reverse):
        r1.reverse()
    if r.chance(reverse):
        r2.reverse()
    op = {"op": "scan", "r1": r1, "r2": r2, "v": None}
    if r.chance(oned):
        mode = r.wpick([("g1", 1), ("g2", 1), ("both", 2)])
        if mode == "g1":
            op["r2"] = [r2[0], r2[0]]
        elif mode == "g2":
            op["r1"] = [r1[0], r1[0]]
        op["res"] = r.randrange(*n1)
        op["form"] = r.pick(["int", "arr"])
    else:
        op["res"] = [r.randrange(*n2), r.randrange(*n2)]
        op["form"] = "arr"
    if r.chance(plunger):
        op["v"] = [r.u(*G1_LIM, 4), r.u(*G2_LIM, 4)]
    return coincide(r, op)


def gen_large(r, spec):
    """A CSD request with hundreds of pixels, as far as the simulation can measure it quickly."""
    sen = (spec["sensor"] or {"t": "generic"})
    op = gen_measure(r, sen["t"], n2=(15, 46), n1=(100, 1600))
    cheap = (spec["csd"] or {"t": "steps"})["t"] != "geom"
    jumps = any(d["t"] == "jumps" for d in spec["occ"] or [])
    if isinstance(op["res"], int) and (jumps or not cheap):
        op["res"] = r.randrange(20, 60)
    elif not cheap:
        op["res"] = [min(x, 24) for x in op["res"]]
    return op


def coincide(r, op, ranges=True):
    """Now and then: the same value where two independent ones would be."""
    x = r.random()
    if x < 0.04 and ranges and op["r1"][0] != op["r1"][1] and op["r2"][0] != op["r2"][1]:
        op["r2"] = list(op["r1"]) if r.chance(0.6) else op["r1"][::-1]
    elif x < 0.09 and op.get("v"):
        op["v"] = [op["v"][0]] * 2
    return op


def res_arg(op):
    if isinstance(op["res"], int):
        return op["res"] if op.get("form") != "arr" else np.array([op["res"]])
    f = op.get("form")
    return tuple(op["res"]) if f == "tuple" else list(op["res"]) if f == "list" else np.array(op["res"])


def measure_args(op):
    kw = dict(sweep_range_g1=np.array(op["r1"], dtype=float), sweep_range_g2=np.array(op["r2"], dtype=float), resolution=res_arg(op))
    if op.get("form") == "default":
        del kw["resolution"]
    if op.get("v") is not None:
        kw.update(volt_sensor_g1=op["v"][0], volt_sensor_g2=op["v"][1])
    return kw


def scan_args(op):
    kw = dict(sweep_range_sensor_g1=np.array(op["r1"], dtype=float), sweep_range_sensor_g2=np.array(op["r2"], dtype=float), resolution=res_arg(op))
    if op.get("form") == "default":
        del kw["resolution"]
    if op.get("v") is not None:
        kw.update(volt_g1=op["v"][0], volt_g2=op["v"][1])
    return kw


def do_request(sim, op):
    return sim.measure(**measure_args(op)) if op["op"] == "measure" else sim.measure_sensor_scan(**scan_args(op))


def pixels(op):
    return op["res"] if isinstance(op["res"], int) else op["res"][0] * op["res"][1]


def gen_request(r, spec, p_scan=0.5, **kw):
    t = (spec.get("sensor") or {"t": "generic"})["t"]
    if t == "scan" and r.chance(p_scan):
        return gen_scan(r)
    return gen_measure(r, t, **kw)


def runtime_of(sim, scan=False):
    """Activation flags and sampled values used by the latest measurement (a scan does not use occupation distortions)."""
    out = []
    lists = (sim.occupation_distortions if not scan else None, sim.sensor_potential_distortions, sim.sensor_response_distortions)
    for lst in lists:
        for d in lst or []:
            active = getattr(d, "activated", True)
            row = [type(d).__name__, active, getattr(d, "latest_sigma", "-")]
            for n in ("scale", "lam", "std", "height", "sigma"):
                p = getattr(d, n, None)
                if hasattr(p, "last_sample") and active:
                    row.append((n, p.last_sample()))
            out.append(row)
    return out


def result_digest(sim, out, scan=False):
    from dst.core import digest
    return digest([out[0], out[1], out[2], runtime_of(sim, scan)])


__all__ = [n for n in dir() if not n.startswith("__")]
