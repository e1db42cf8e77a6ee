"""C18 Measurements have no memory."""
import copy
import json

import numpy as np

from dst import world
from dst.core import Violation, maxdiff, same
from dst.isolate import isolated
from dst.session import Session, apply_spec, first_difference, gen_mut, gen_session
from dst.world import Rngs, build_sim, gen_spec, rng_namer, scan_args

RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run performs a random session (measurements, scans, parameter changes by assignment and in place, rejected and aborted calls, retunings, direct "
        "component calls) and compares every measurement with the same measurement of a simulation freshly built, in a pristine process, from the parameters then in effect "
        "and with equal generator states; noise-free scans are also compared with the response the sensor gives when no labels are computed. "
        "Non-trivial: at least one compared measurement was preceded by another operation; distinct by the sequence of operation kinds and parameters changed.")
DISTINCT = "sequence of operation kinds, changed parameters and request shapes"
REAL = "Simulation, all distortions, samplers, both sensors, peaks, rises, barriers, deformations, geometric ideal CSD, reset_offset_mu_sens"
STUBS = "random generators (SimRng, same streams as numpy); ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["op:set", "op:scan", "op:abort", "op:reject", "op:retune", "op:direct", "probe:after-scan", "probe:scan-direct", "probe:inplace", "probe:deformed-scan"]
ASSUMPTIONS = ["deformations are changed through their own attributes or removed, not added to the dict of a finished sensor (they would not be bound to it)"]


def generate(r, tier, i):
    nm = rng_namer(r, start=100)
    spec = gen_spec(r, csd=(("geom", 2), ("steps", 5)), sensor=(("generic", 2), ("scan", 4)), samplers=0.3, nmax=2, deform=0.4)
    if r.chance(0.35):
        spec["pot"] = spec["resp"] = None
    if r.chance(0.5):
        ops, _ = gen_session(r, spec, rng_namer(r, start=1000), n=(3, 9), samplers=0.3)
    else:
        # the same request again and again while parameters change
        kw = dict(n2=(3, 7), n1=(3, 10))
        pool = [world.gen_scan(r, plunger=0.8, **kw) if spec["sensor"]["t"] == "scan" and r.chance(0.7) else world.gen_measure(r, spec["sensor"]["t"], **kw) for _ in range(r.pick([1, 1, 2]))]
        req = lambda: json.loads(json.dumps(r.pick(pool)))   # noqa: E731
        ops, cur, fresh = [req()], spec, rng_namer(r, start=1000)
        for _ in range(r.randrange(1, 4)):
            m = None
            for _ in range(r.pick([1, 1, 2, 3])):
                m = gen_mut(r, cur, fresh, 0.3)
                cur = apply_spec(cur, m)
                ops.append({"op": "set", "mut": m})
            ops.append(req())
            if r.chance(0.25):
                ops.append({"op": "direct", "base": req(), "what": r.pick(["potential", "response", "frozen"] + ["labels"] * (spec["sensor"]["t"] == "scan"))})
    if not any(o["op"] in ("measure", "scan") for o in ops[1:]):
        ops.append(world.gen_request(r, {"sensor": spec["sensor"]}) if not any(o["op"] == "set" and o["mut"]["m"] == "sensor" for o in ops)
                   else world.gen_measure(r, spec["sensor"]["t"]))
    return {"spec": spec, "ops": ops, "rng": r.randrange(10 ** 9), "bug": {"binomial": 0.2, "geometric": 0.2, "poisson": 0.2} if r.chance(0.2) else None}


def execute(sc, ctx):
    def history():
        rngs = Rngs(sc["rng"], bug=sc.get("bug"))
        s = Session(sc["spec"], rngs)
        out = []
        for n, op in enumerate(sc["ops"]):
            rngs.reseed(("op", n))
            before = json.loads(json.dumps(s.spec))
            res = s.step(op)
            out.append((before, res, rngs.states() if op["op"] in ("measure", "scan") else None))
        return out
    hist = isolated(history)
    compared = 0
    kinds = []
    for n, (op, (spec, res, states)) in enumerate(zip(sc["ops"], hist)):
        if op["op"] == "set":
            kinds.append("set-" + op["mut"]["m"])
            if op["mut"].get("inplace") or op["mut"]["m"] in ("sitem", "peak", "barrier", "risefield", "append", "pop", "swap"):
                ctx.stat("probe:inplace")
        else:
            kinds.append(op["op"] + (("1" if isinstance(op["res"], int) else "2") if "res" in op else ""))
        if op["op"] == "reject" and res[1] != "ValueError":
            ctx.stat("reject-not-refused")      # judged by C14
        if op["op"] not in ("measure", "scan"):
            continue

        def fresh(op=op, spec=spec, n=n):
            rngs = Rngs(sc["rng"], bug=sc.get("bug"))
            s = Session(spec, rngs)
            rngs.reseed(("op", n))
            return s.step(op), rngs.states()
        ref, rstates = isolated(fresh)
        d = first_difference(res, ref)
        if d:
            ctx.violate("history-matters", f"operation {n} ({op['op']}) after {kinds[:-1][-6:]} differs from the one of a fresh simulation: {d}")
        for k in rstates:
            if states.get(k) != rstates[k]:
                ctx.violate("history-matters", f"operation {n} ({op['op']}) after {kinds[:-1][-6:]} uses a different amount of randomness of generator {k}")
        if n:
            compared += 1
            if any(o["op"] == "scan" for o in sc["ops"][:n]):
                ctx.stat("probe:after-scan")
        if op["op"] == "scan" and res[0] == "ok":
            def direct(op=op, spec=spec, labels=False):
                spec = dict(spec, occ=None, pot=None, resp=None)
                sim = build_sim(spec, Rngs(1))
                clean = sim.measure_sensor_scan(**scan_args(op))
                sen = world.build_sensor(spec["sensor"])
                a = scan_args(op)
                v1, v2 = a.get("volt_g1"), a.get("volt_g2")
                shape = (op["res"],) if isinstance(op["res"], int) else (op["res"][1], op["res"][0])
                occ = np.zeros(shape + (2,))
                if v1 is not None and spec.get("csd"):
                    occ[...] = sim.ideal_csd_config.get_csd_data((v1, v1), (v2, v2), 1)[0].reshape(2)
                pot = sen.sensor_potential(occ, v1, v2, a["sweep_range_sensor_g1"], a["sweep_range_sensor_g2"])
                want = sen.sensor_response(pot)
                # what a scan gives if the response is evaluated after the label query changed the stored voltages
                pot = sen.sensor_potential(occ, v1, v2, a["sweep_range_sensor_g1"], a["sweep_range_sensor_g2"])
                lab = sen.get_sensor_scan_labels(v1, v2, a["sweep_range_sensor_g1"], a["sweep_range_sensor_g2"], pot)
                bad = sen.sensor_response(pot)
                return clean, want, bad, lab
            clean, want, bad, lab = isolated(direct)
            ctx.stat("probe:scan-direct")
            deformed = bool(spec["sensor"].get("deform"))
            if deformed:
                ctx.stat("probe:deformed-scan")
            if not close(clean[0], want):
                if deformed and close(clean[0], bad):
                    ctx.soft("scan-not-response", f"operation {n}: deformed scan differs from the sensor's response at the requested voltages: {maxdiff(clean[0], want)}",
                             "deformed-scan-evaluated-at-fully-conductive-point")
                else:
                    ctx.violate("scan-not-response", f"operation {n}: noise-free scan differs from the sensor's response at the requested gate voltages: {maxdiff(clean[0], want)}",
                                "other")
            if not (same(clean[1], lab[0]) and same(clean[2], lab[1])):
                ctx.violate("labels-not-response", f"operation {n}: labels of the scan differ from those of its potential", "labels")
    ctx.reach(kinds)
    ctx.nontrivial = compared > 0


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-13)
