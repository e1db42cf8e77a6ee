"""C14 Voltage limits always hold and rejected calls do nothing."""
import copy
import math

import numpy as np

from dst import world
from dst.boot import AMBIENT
from dst.core import describe_exc, digest, pubsnap, snap_diff
from dst.rng import Budget
from dst.world import CUSTOM, Rngs, StepCSD, build_sim, gen_spec
from simcats import Simulation, default_configs
from simcats import distortions as D
from simcats.sensor import SensorGeneric, SensorScanSensorGeneric

RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run builds a simulation with or without limits per gate (on a cheap ideal CSD that is defined everywhere, on the geometric one, or without one) and performs requests whose swept and fixed voltages lie inside, exactly on, "
        "one rounding step outside or far outside the limits of any gate, with zero to two defects (range lengths, one of two voltages, fixed gate or small resolution in 2D, too many resolutions), between changes of the limits "
        "(assigned, removed, modified in place) and rejected assignments of every kind of parameter. A small model decides accept or ValueError; a rejected call must leave generators, public state and the call logs of ideal CSD, "
        "sensor and distortions unchanged, and a twin that never saw the rejected calls must produce bit-identical results. Non-trivial: something was rejected and something accepted; distinct by the decisions taken.")
DISTINCT = "sensor, limits present, sequence of (request kind, defects, gate and side outside, accepted)"
REAL = "Simulation, sensors, distortions, samplers; geometric ideal CSD in part of the runs"
STUBS = "random generators (SimRng), counting ideal CSD"
PROBES = ["probe:on-bound", "probe:ulp-outside", "probe:far-outside", "probe:outside-g1", "probe:outside-g2", "probe:outside-s1", "probe:outside-s2", "probe:fixed-outside", "probe:swept-outside", "probe:below", "probe:above",
          "probe:len", "probe:pair", "probe:fixed2d", "probe:small", "probe:three", "probe:no-csd", "probe:no-scan-sensor", "probe:limit-set", "probe:limit-removed", "probe:limit-in-place", "probe:bad-assignment",
          "probe:accepted", "probe:rejected", "probe:one-sided-limits", "probe:reversed", "probe:two-defects", "probe:geom", "probe:fixed-on-bound", "probe:bad-constructor", "op:measure", "op:scan", "probe:equal-rejected", "probe:equal-accepted"]
ASSUMPTIONS = ["limits are [min, max] and voltages are finite numbers"]
GATES = ("g1", "g2", "s1", "s2")
ATTR = {"g1": "volt_limits_g1", "g2": "volt_limits_g2", "s1": "volt_limits_sensor_g1", "s2": "volt_limits_sensor_g2"}
LOG = []


class CountCSD(StepCSD):
    def get_csd_data(self, *a, **k):
        LOG.append("csd")
        return super().get_csd_data(*a, **k)


CUSTOM["count"] = lambda d, rngs: CountCSD()


def gen_limits(r):
    out = {}
    for g in GATES:
        if r.chance(0.75):
            out[g] = gen_limit(r, g)
    return out


def gen_limit(r, g):
    lo, hi = (-0.2, -0.05) if g[0] == "g" else (-1.0, 0.4)
    if r.chance(0.3):
        return [lo, hi]
    if g[0] == "s" and r.chance(0.15):
        return [-1, 0]
    a = lo + (hi - lo) * r.u(0, 0.5, 4)
    return [a, a + (hi - lo) * r.u(0.1, 0.8, 4)]


def pick_in(r, lim, g):
    lo, hi = lim if lim else ((-0.3, 0.1) if g[0] == "g" else (-1.5, 1))
    return float(r.wpick([(lo, 2), (hi, 2), (lo + (hi - lo) * r.u(0, 1, 5), 5)]))


def pick_out(r, lim):
    lo, hi = lim
    d = r.wpick([(None, 3), (1e-12, 1), (1e-6, 1), (0.01, 1), (3.0, 1)])
    if r.chance(0.5):
        return math.nextafter(lo, -10) if d is None else lo - d
    return math.nextafter(hi, 10) if d is None else hi + d


def gen_req(r, spec, lims, geom):
    scan = r.chance(0.5) if spec["sensor"]["t"] == "scan" else r.chance(0.05)
    sw, fx = (("s1", "s2"), ("g1", "g2")) if scan else (("g1", "g2"), ("s1", "s2"))
    lim = lambda g: lims.get(g) or ([-0.2, -0.087] if geom and g == "g1" else [-0.2, -0.047] if geom and g == "g2" else None)  # noqa: E731
    op = {"op": "scan" if scan else "measure", "form": r.pick(["arr", "list", "tuple"])}
    for k, g in zip(("r1", "r2"), sw):
        a, b = pick_in(r, lim(g), g), pick_in(r, lim(g), g)
        while abs(a - b) < 1e-7:
            a, b = pick_in(r, lim(g), g), pick_in(r, lim(g), g)
        op[k] = [a, b]
    if r.chance(0.45):
        op["res"] = r.randrange(2, 9)
        m = r.randrange(3)
        if m < 2:
            k = ("r1", "r2")[m]
            op[k] = [op[k][0]] * 2
    else:
        op["res"] = [r.randrange(2, 7), r.randrange(2, 7)]
    if r.chance(0.6):
        op["v"] = [pick_in(r, lim(g), g) for g in fx]
    op["defects"] = []
    for _ in range(r.wpick([(0, 5), (1, 5), (2, 1)])):
        d = r.wpick([("out-swept", 4), ("out-fixed", 3), ("len", 1), ("pair", 1), ("fixed2d", 1), ("small", 1), ("three", 0.7)])
        if d == "out-swept":
            j = r.randrange(2)
            if not lims.get(sw[j]):
                continue
            k = ("r1", "r2")[j]
            v = pick_out(r, lims[sw[j]])
            if op[k][0] == op[k][-1]:
                op[k] = [v] * len(op[k])
            else:
                op[k][r.randrange(2)] = v
        elif d == "out-fixed":
            j = r.randrange(2)
            if not lims.get(fx[j]):
                continue
            op["v"] = list(op.get("v") or [pick_in(r, lim(g), g) for g in fx])
            op["v"][j] = pick_out(r, lims[fx[j]])
        elif d == "len":
            k = r.pick(["r1", "r2"])
            op[k] = op[k][:1] if r.chance(0.4) else op[k] + [op[k][0]] * r.randrange(1, 3)
        elif d == "pair":
            op["v"] = list(op.get("v") or [pick_in(r, lim(g), g) for g in fx])
            op["v"][r.randrange(2)] = None
        elif d == "fixed2d":
            k = r.pick(["r1", "r2"])
            op[k] = [op[k][0]] * 2
            op["res"] = op["res"] if isinstance(op["res"], list) and len(op["res"]) > 1 else [4, 5]
        elif d == "small":
            res = op["res"] if isinstance(op["res"], list) and len(op["res"]) > 1 else [4, 5]
            res[r.randrange(2)] = r.pick([1, 1, 0, -1])
            op["res"] = res
        else:
            op["res"] = [3] * r.pick([3, 3, 4])
        op["defects"].append(d)
    x = r.random()
    # the same voltages on both gates of a pair
    if x < 0.08 and all(len(op[k]) == 2 and op[k][0] != op[k][1] for k in ("r1", "r2")) and not geom:
        op["r2"] = list(op["r1"])
    elif x < 0.2 and op.get("v") and None not in op["v"]:
        op["v"] = [op["v"][r.randrange(2)]] * 2
    if op["r1"] == op["r2"] or op.get("v") and op["v"][0] == op["v"][1]:
        op["equal"] = True
    return op


def generate(r, tier, i):
    csd = r.wpick([("count", 6), ("geom", 1.2), (None, 0.8)])
    spec = gen_spec(r, csd=(("steps", 1),), sensor=(("generic", 3), ("scan", 4)), samplers=0.3, nmax=2, limits=0, deform=0.1)
    spec["csd"] = None if csd is None else {"t": csd} if csd == "count" else {"t": "geom", "lut": 100}
    if csd == "geom":
        spec["occ"] = []
    lims = gen_limits(r)
    if csd == "geom":
        lims.update(g1=[-0.2, -0.087], g2=[-0.2, -0.047])
    sc = {"spec": spec, "rng": r.randrange(10 ** 9), "lims": copy.deepcopy(lims), "ops": []}
    for _ in range(r.randrange(4, 14)):
        x = r.random()
        if x < 0.68:
            sc["ops"].append(gen_req(r, spec, lims, csd == "geom"))
        elif x < 0.86 and csd != "geom":
            g = r.pick(GATES)
            how = r.wpick([("set", 3), ("remove", 1), ("in-place", 3 if lims.get(g) else 0)])
            new = None if how == "remove" else gen_limit(r, g)
            if how == "in-place":
                new = [float(x) for x in new]
            sc["ops"].append({"op": "limit", "gate": g, "how": how, "new": new})
            lims[g] = new
        elif x < 0.97:
            sc["ops"].append({"op": "bad", "what": r.randrange(10 ** 6), "live": r.chance(0.5)})
        else:
            sc["ops"].append({"op": "ctor", "what": r.randrange(10 ** 6)})
    return sc


# ---------------------------------------------------------------- the model
def verdict(op, lims, spec):
    scan = op["op"] == "scan"
    if scan and spec["sensor"]["t"] != "scan":
        return "no-scan-sensor"
    if not scan and spec["csd"] is None:
        return "no-csd"
    if len(op["r1"]) != 2 or len(op["r2"]) != 2:
        return "len"
    sw, fx = (("s1", "s2"), ("g1", "g2")) if scan else (("g1", "g2"), ("s1", "s2"))
    for k, g in zip(("r1", "r2"), sw):
        if lims.get(g) and any(not lims[g][0] <= v <= lims[g][1] for v in op[k]):
            return "outside-" + g
    for v, g in zip(op.get("v") or (), fx):
        if v is not None and lims.get(g) and not lims[g][0] <= v <= lims[g][1]:
            return "outside-" + g
    v = op.get("v")
    if v and (v[0] is None) != (v[1] is None):
        return "pair"
    res = op["res"]
    if isinstance(res, list):
        if len(res) > 2:
            return "three"
        if len(res) == 2 and (op["r1"][0] == op["r1"][1] or op["r2"][0] == op["r2"][1]):
            return "fixed2d"
        if len(res) == 2 and min(res) < 2:
            return "small"
    return None


def call(sim, op):
    mk = {"arr": np.array, "list": list, "tuple": tuple}[op["form"]]
    scan = op["op"] == "scan"
    kw = dict(zip(("sweep_range_sensor_g1", "sweep_range_sensor_g2") if scan else ("sweep_range_g1", "sweep_range_g2"), (mk(op["r1"]), mk(op["r2"]))))
    for n, v in zip(("volt_g1", "volt_g2") if scan else ("volt_sensor_g1", "volt_sensor_g2"), op.get("v") or ()):
        kw[n] = v
    kw["resolution"] = op["res"] if isinstance(op["res"], int) else mk(op["res"])
    return (sim.measure_sensor_scan if scan else sim.measure)(**kw)


def watch():
    """Count every evaluation of sensors and distortions (in this process only: every run has its own)."""
    def wrap(cls, name):
        real = getattr(cls, name)

        def counted(self, *a, **k):
            LOG.append(f"{cls.__name__}.{name}")
            return real(self, *a, **k)
        setattr(cls, name, counted)
    for cls in (SensorGeneric, SensorScanSensorGeneric):
        for name in ("sensor_potential", "sensor_response") + (("get_sensor_scan_labels",) if cls is SensorScanSensorGeneric else ()):
            wrap(cls, name)
    for name in ("OccupationDotJumps", "OccupationTransitionBlurringGaussian", "OccupationTransitionBlurringFermiDirac", "SensorPotentialRTN", "SensorPotentialPinkNoise", "SensorResponseRTN", "SensorResponseWhiteNoise"):
        wrap(getattr(D, name), "noise_function")


def bad_assignments(sim):
    """(object, attribute, value) that must be refused."""
    arr = np.array
    out = []
    for a in ATTR.values():
        out += [(sim, a, v) for v in (arr([-0.2]), arr([-0.2, -0.1, 0.0]), (-0.2, -0.1), 0.3, "wide", {"min": 0}, np.zeros((2, 2)))]
    out += [(sim, "ideal_csd_config", v) for v in (3, "csd", object(), SensorGeneric(), CountCSD)]
    out += [(sim, "sensor", v) for v in (3, "sensor", object(), CountCSD(), SensorGeneric)]
    good = {"occupation_distortions": D.OccupationTransitionBlurringGaussian(0.001), "sensor_potential_distortions": D.SensorPotentialPinkNoise(0.01), "sensor_response_distortions": D.SensorResponseWhiteNoise(0.01)}
    for n, g in good.items():
        others = [x for m, x in good.items() if m != n]
        out += [(sim, n, v) for v in ([3], [None], [g, None], [g, others[0]], [others[1]], [g, g, "x"], ["white"])]
    s = sim.sensor
    out += [(s, "sensor_peak_function", v) for v in (3, "peak", [None], object())]
    out += [(s, "offset_mu_sens", v) for v in ("zero", [0.0], arr([0.0, 1.0]), None)]
    if isinstance(s, SensorScanSensorGeneric):
        out += [(s, n, v) for n in ("alpha_dot", "alpha_gate", "alpha_sensor_gate") for v in (arr([1.0]), np.zeros((2, 3)), np.zeros((2, 2)), [0.1, 0.1], 0.1, np.zeros(3))]
        out += [(s, "alpha_sensor_gate", None), (s, "final_rise", 3), (s, "final_rise", [None]), (s, "barrier_functions", 3), (s, "barrier_functions", [None, None]), (s, "barrier_functions", [s.barrier_functions[0]]),
                (s, "barrier_functions", list(s.barrier_functions) * 2), (s, "barrier_functions", None)]
        b = s.barrier_functions[0]
        if hasattr(b, "asymmetry"):
            out += [(b, "asymmetry", v) for v in (0, -0.5)]
        if hasattr(s.final_rise, "asymmetry"):
            out += [(s.final_rise, "asymmetry", v) for v in (0.0, -1)]
    else:
        out += [(s, n, v) for n in ("alpha_dot", "alpha_gate") for v in (arr([1.0]), np.zeros(3), [0.1, 0.1], 0.1, None, (0.1, 0.2))]
    p = (s.sensor_peak_function or [None])[0]
    for n in ("gamma", "sigma"):
        if p is not None and hasattr(p, n):
            out += [(p, n, v) for v in (0, -0.001)]
    return out


def limits_kw(lims):
    return {ATTR[g]: np.array(v) for g, v in lims.items() if v is not None}


def execute(sc, ctx):
    watch()
    spec = sc["spec"]
    lims = {g: list(v) for g, v in sc["lims"].items()}
    rngs, trngs = Rngs(sc["rng"], mode="share"), Rngs(sc["rng"], mode="share")
    sim, twin = build_sim(spec, rngs), build_sim(spec, trngs)
    for s in (sim, twin):
        for k, v in limits_kw(lims).items():
            setattr(s, k, v)
    if (spec["csd"] or {}).get("t") == "geom":
        ctx.stat("probe:geom")
    if len([1 for g in ("g1", "g2") if lims.get(g)]) == 1 or len([1 for g in ("s1", "s2") if lims.get(g)]) == 1:
        ctx.stat("probe:one-sided-limits")
    seen = [0, 0]

    def frozen():
        return (rngs.states(), pubsnap(sim), len(LOG), AMBIENT.requests)

    def unchanged(before, what):
        now = frozen()
        if now[0] != before[0]:
            ctx.violate("drawn", f"{what} was rejected but random generators {[k for k in now[0] if now[0][k] != before[0].get(k)]} advanced")
        if now[2] != before[2]:
            ctx.violate("computed", f"{what} was rejected after {LOG[before[2]:][:6]} had been evaluated")
        d = snap_diff(before[1], now[1])
        if d:
            ctx.violate("state-changed", f"{what} was rejected but changed the simulation: {d}")
        if now[3] != before[3]:
            ctx.violate("drawn", f"{what} was rejected but asked for a random generator")

    for i, op in enumerate(sc["ops"]):
        Budget.spend(50)
        what = f"operation {i} {op}"
        if op["op"] in ("measure", "scan"):
            ctx.stat("op:" + op["op"])
            why = verdict(op, lims, spec)
            note(ctx, op, lims, why)
            before = frozen()
            try:
                out = call(sim, op)
            except ValueError as e:
                if why is None:
                    ctx.violate("refused", f"{what} with limits {lims} is valid, but: {describe_exc(e)}")
                unchanged(before, what)
                seen[0] += 1
                ctx.stat("probe:rejected")
            except Exception as e:
                ctx.violate("wrong-exception" if why else "failed", f"{what} with limits {lims}: expected {'ValueError (' + why + ')' if why else 'success'}, got {describe_exc(e)}", why or describe_exc(e))
            else:
                if why is not None:
                    ctx.violate("accepted", f"{what} with limits {lims} must be rejected ({why})", why)
                want = call(twin, op)
                if digest([np.asarray(x) for x in out[:3]]) != digest([np.asarray(x) for x in want[:3]]):
                    ctx.violate("later-results", f"{what}: result differs from that of a simulation that never saw the rejected calls")
                if rngs.states() != trngs.states():
                    ctx.violate("later-results", f"{what}: generators are in another state than those of a simulation that never saw the rejected calls")
                seen[1] += 1
                ctx.stat("probe:accepted")
            ctx.reach(op["op"], op["defects"], why)
        elif op["op"] == "limit":
            for s in (sim, twin):
                if op["how"] == "in-place":
                    getattr(s, ATTR[op["gate"]])[:] = op["new"]
                else:
                    setattr(s, ATTR[op["gate"]], None if op["new"] is None else np.array(op["new"]))
            cur = getattr(sim, ATTR[op["gate"]])
            lims[op["gate"]] = None if cur is None else [float(x) for x in cur]
            want = op["new"]
            if (cur is None) != (want is None) or want is not None and op["how"] != "in-place" and [float(x) for x in cur] != [float(x) for x in want]:
                ctx.violate("limit-lost", f"{what}: limits are {cur}")
            ctx.stat("probe:limit-" + {"set": "set", "remove": "removed", "in-place": "in-place"}[op["how"]])
        elif op["op"] == "bad":
            lst = bad_assignments(sim)
            obj, name, val = lst[op["what"] % len(lst)]
            before = frozen()
            ctx.stat("probe:bad-assignment")
            try:
                setattr(obj, name, val)
            except ValueError:
                unchanged(before, f"{what}: assigning {val!r} to {type(obj).__name__}.{name}")
            except Exception as e:
                ctx.violate("wrong-exception", f"{what}: assigning {val!r} to {type(obj).__name__}.{name}: {describe_exc(e)}", name)
            else:
                ctx.violate("accepted", f"{what}: assigning {val!r} to {type(obj).__name__}.{name} must be rejected", name)
            ctx.reach("bad", type(obj).__name__, name)
        else:
            lst = [(n, v) for o, n, v in bad_assignments(sim) if o is sim]
            name, val = lst[op["what"] % len(lst)]
            ctx.stat("probe:bad-constructor")
            try:
                Simulation(**{name: val})
            except ValueError:
                pass
            except Exception as e:
                ctx.violate("wrong-exception", f"{what}: Simulation({name}={val!r}): {describe_exc(e)}", name)
            else:
                ctx.violate("accepted", f"{what}: Simulation({name}={val!r}) must be rejected", name)
    d = snap_diff(pubsnap(twin), pubsnap(sim))
    if d:
        ctx.violate("state-changed", f"at the end the simulation differs from one that never saw the rejected calls: {d}")
    ctx.nontrivial = all(seen)


def note(ctx, op, lims, why):
    sw, fx = (("s1", "s2"), ("g1", "g2")) if op["op"] == "scan" else (("g1", "g2"), ("s1", "s2"))
    if why:
        ctx.stat("probe:" + why)
    if len(op["defects"]) > 1:
        ctx.stat("probe:two-defects")
    if op.get("equal"):
        ctx.stat("probe:equal-" + ("rejected" if why else "accepted"))
    if why is None:
        if op["r1"][0] > op["r1"][1] or op["r2"][0] > op["r2"][1]:
            ctx.stat("probe:reversed")
        if any(lims.get(g) and v in lims[g] for k, g in zip(("r1", "r2"), sw) for v in op[k]):
            ctx.stat("probe:on-bound")
        if any(lims.get(g) and v in lims[g] for v, g in zip(op.get("v") or (), fx)):
            ctx.stat("probe:fixed-on-bound")
    if why and why.startswith("outside"):
        g = why[-2:]
        ctx.stat("probe:swept-outside" if g in sw else "probe:fixed-outside")
        vs = op[("r1", "r2")[sw.index(g)]] if g in sw else [op["v"][fx.index(g)]]
        lo, hi = lims[g]
        for v in vs:
            d = max(lo - v, v - hi)
            if d > 0:
                ctx.stat("probe:below" if v < lo else "probe:above")
                ctx.stat("probe:ulp-outside" if d < 1e-15 else "probe:far-outside")
