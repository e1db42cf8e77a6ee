"""C16 Retuning the sensor offset reaches its target from any state."""
import copy
import json

import numpy as np

from dst import world
from dst.boot import AMBIENT
from dst.core import describe_exc, digest, pubsnap, snap_diff
from dst.fault import EXC, abort_at, count_lines
from dst.session import Session, first_difference, gen_session
from dst.world import Rngs, gen_spec, rng_namer, runtime_of
from simcats.support_functions import reset_offset_mu_sens

RUNS = {"quick": 3000, "thorough": 60000}
LEVEL = "exploration"
RULE = ("A run is a session on one simulation with a plunger-gate sensor: measurements with active distortions, parameter changes by assignment and in place (offset, lever-arms of any sign and size, peaks, ideal CSD, lists), "
        "rejected and aborted calls, copies, and retunings with sweeps in every direction, 1D and with a fixed gate, targets inside and far outside the usual range. After every retuning: the offset against "
        "target minus the other terms of the potential at the starting voltages (computed here), the first pixel of undistorted 1D and 2D measurements with a copy whose sensor is linear, all other public parameters, flags, "
        "samples and generator states against those before, the arguments, and a second retuning; retunings aborted at any line or by a failing ideal CSD leave the old or the new offset and the next retuning still "
        "reaches its target; the next measurement equals that of a fresh simulation with the same parameters. Non-trivial: at least one retuning completed and was measured; distinct by the operations, directions and lever-arm signs.")
DISTINCT = "operation kinds, sweep directions, signs of lever-arms, abort places"
REAL = "reset_offset_mu_sens, Simulation, SensorGeneric, peaks, all distortions, samplers, geometric ideal CSD"
STUBS = "random generators (SimRng); ideal CSD replaced by a cheap step model in part of the runs and by one that fails on demand"
PROBES = ["probe:retuned", "probe:reversed", "probe:fixed-gate", "probe:repeated", "probe:aborted", "probe:provider-failed", "probe:after-abort", "probe:distorted", "probe:far-offset", "probe:tiny-offset", "probe:beyond-limits", "probe:positive-lever",
          "probe:measured-2d", "probe:linear-sensor", "fault:abort-interrupt", "fault:abort-memory", "fault:provider-fails", "op:measure", "op:set", "op:retune"]
ASSUMPTIONS = ["the sensor is a SensorGeneric (the offset of a scan sensor has three entries)", "equality up to rounding: 1e-12 of the largest term"]


def failing(real):
    from simcats.ideal_csd import IdealCSDInterface

    class Failing(IdealCSDInterface):
        fail = None

        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
            if type(self).fail is not None:
                e, type(self).fail = type(self).fail, None
                from dst.rng import stat
                stat("fault:provider-fails")
                raise e
            return real.get_csd_data(volt_limits_g1, volt_limits_g2, resolution)
    return Failing()


def gen_retune(r):
    o = world.gen_measure(r, "generic")
    op = {"op": "retune", "r1": o["r1"], "r2": o["r2"], "target": r.wpick([(r.u(-0.14, -0.08, 6), 5), (r.u(-3, 3, 5), 2), (r.pick([0, 1, -1]), 1), (r.u(-1e4, 1e4, 3), 0.5)]), "res": r.randrange(2, 9)}
    if r.chance(0.1):
        op["r1"], op["r2"] = [op["r1"][0]] * 2, [op["r2"][0]] * 2
    if r.chance(0.08):      # voltages no measurement with limits may reach
        for k in ("r1", "r2"):
            op[k] = [x + r.pick([-0.3, -0.3, -2.0]) for x in op[k]]
    if r.chance(0.1):       # an offset of next to nothing is due
        op["due"] = r.pick([0.0, 1, -1]) * r.logu(1e-12, 1e-3)
    return op


def generate(r, tier, i):
    spec = gen_spec(r, csd=(("geom", 2), ("steps", 3)), sensor=(("generic", 1),), samplers=0.4, nmax=2, limits=0.3)
    s = spec["sensor"]
    for k in ("alpha_dot", "alpha_gate"):
        x = r.random()
        if x < 0.2:
            s[k] = [r.u(-2, 2, 5), r.u(-2, 2, 5)]
        elif x < 0.3:
            s[k] = [r.pick([0.0, 1.0, -1.0]), r.pick([0.0, 2.0, 0.5])]
    if r.chance(0.2):
        s["offset"] = r.pick([0, 1, -1, 7, r.u(-1e4, 1e4, 3), 1e5])
    for lst in ("occ", "pot", "resp"):
        for d in spec[lst] or []:
            if "ratio" in d and r.chance(0.6):
                d["ratio"] = 1
    ops, cur = gen_session(r, spec, rng_namer(r, start=700), n=(1, 5), muts=0.4, rejects=0.08, aborts=0.12, retune=0, direct=0.08, samplers=0.3,
                           allow=("sattr", "sitem", "offset", "peak", "peaks", "dist", "list", "append", "pop", "swap", "csd", "csdattr"))
    out = []
    for op in ops:
        if r.chance(0.5):
            out.append(gen_retune(r))
            if r.chance(0.35):      # fine tuning: a hair away from where it is
                out.append(dict(gen_retune(r), r1=out[-1]["r1"], r2=out[-1]["r2"], target=out[-1]["target"] + r.pick([1, -1]) * r.logu(1e-11, 1e-3)))
                if r.chance(0.5):
                    out[-1]["r1"] = [out[-1]["r1"][0], gen_retune(r)["r1"][1]]
        if r.chance(0.25):
            out.append(dict(gen_retune(r), op="retune-abort", how=r.pick(["line", "line", "provider"]), at=r.random(), exc=r.pick(["interrupt", "memory", "runtime"])))
        if r.chance(0.06):
            out.append({"op": "copy"})
        out.append(op)
    out.append(gen_retune(r))
    out.append(world.gen_measure(r, "generic"))
    return {"spec": spec, "ops": out, "rng": r.randrange(10 ** 9)}


def ambient():
    return [repr(g.bit_generator.state) for g, _ in AMBIENT.created]


def others(sim):
    """Everything but the offset."""
    off = sim.sensor.offset_mu_sens
    try:
        sim.sensor.offset_mu_sens = 0.0
        return pubsnap(sim)
    finally:
        sim.sensor.offset_mu_sens = off


def hidden(sim, rngs):
    return [runtime_of(sim), rngs.states(), ambient()]


def occ_at(sim, op):
    o, _ = sim.ideal_csd_config.get_csd_data(np.array(op["r1"], float), np.array(op["r2"], float), 2)
    return np.array(o[0], float)


def term(sim, op):
    """The potential at the starting voltages without the offset."""
    v = np.array([op["r1"][0], op["r2"][0]], float)
    ad, ag = np.ravel(sim.sensor.alpha_dot), np.ravel(sim.sensor.alpha_gate)
    occ = occ_at(sim, op)
    parts = np.concatenate([occ * ad, v * ag])
    return float(parts.sum()), float(np.abs(parts).sum())


def call(sim, op):
    a, b = np.array(op["r1"], float), np.array(op["r2"], float)
    try:
        return reset_offset_mu_sens(sim, op["target"], a, b)
    finally:
        if a.tolist() != [float(x) for x in op["r1"]] or b.tolist() != [float(x) for x in op["r2"]]:
            from dst.core import Violation
            raise Violation("argument-changed", "reset_offset_mu_sens modified a sweep range")


def after_retune(ctx, ses, op, snap, hid, old):
    sim = ses.sim
    rest, size = term(sim, op)
    tol = 1e-12 * (1 + size + abs(old) + abs(op["target"]))
    got = sim.sensor.offset_mu_sens
    if not (isinstance(got, (float, int)) and np.isfinite(got)):
        ctx.violate("offset-not-a-number", f"offset is {got!r}")
    if abs(got + rest - op["target"]) > tol:
        ctx.violate("target-missed", f"potential at the start {op['r1'][0], op['r2'][0]} is {got + rest!r} instead of {op['target']} (offset before {old!r}, now {got!r})")
    d = snap_diff(snap, others(sim))
    if d:
        ctx.violate("more-changed", f"reset_offset_mu_sens also changed: {d}")
    if hidden(sim, ses.rngs) != hid:
        ctx.violate("state-changed", "reset_offset_mu_sens changed flags, samples or generator states")
    # the undistorted measurement with a linear sensor shows the potential itself
    lin = copy.deepcopy(sim)
    lin.occupation_distortions = lin.sensor_potential_distortions = lin.sensor_response_distortions = None
    lin.sensor.sensor_peak_function = None
    for k in ("g1", "g2"):
        setattr(lin, "volt_limits_" + k, None)
    a, b = np.array(op["r1"], float), np.array(op["r2"], float)
    x = float(lin.measure(a, b, resolution=op["res"])[0][0])
    if abs(x - op["target"]) > tol + 1e-9 * size:
        ctx.violate("target-missed", f"first pixel of a 1D measurement from {op['r1'][0], op['r2'][0]} is {x!r} instead of {op['target']}")
    if a[0] != a[1] and b[0] != b[1]:
        sig, occ, _ = lin.measure(a, b, resolution=np.array([op["res"], op["res"] + 1]))[:3]
        x = float(sig[0, 0])
        ctx.stat("probe:measured-2d")
        # (coarse 2D data of the geometric model may hold other occupations than the 1D data; see C30)
        if np.array_equal(occ[0, 0], occ_at(sim, op)) and abs(x - op["target"]) > tol + 1e-9 * size:
            ctx.violate("target-missed", f"first pixel of a 2D measurement from {op['r1'][0], op['r2'][0]} is {x!r} instead of {op['target']}")
    call(sim, op)
    ctx.stat("probe:repeated")
    if abs(sim.sensor.offset_mu_sens - got) > tol:
        ctx.violate("not-idempotent", f"repeating the retuning moved the offset from {got!r} to {sim.sensor.offset_mu_sens!r}")
    d = snap_diff(snap, others(sim))
    if d:
        ctx.violate("more-changed", f"a repeated reset_offset_mu_sens also changed: {d}")
    ctx.stat("probe:retuned")
    if op["r1"][0] > op["r1"][1] or op["r2"][0] > op["r2"][1]:
        ctx.stat("probe:reversed")
    if op["r1"][0] == op["r1"][1] or op["r2"][0] == op["r2"][1]:
        ctx.stat("probe:fixed-gate")
    if abs(old) > 100:
        ctx.stat("probe:far-offset")
    if max(np.ravel(sim.sensor.alpha_dot)) > 0:
        ctx.stat("probe:positive-lever")
    if sim.sensor.sensor_peak_function is None:
        ctx.stat("probe:linear-sensor")
    if any(row[1] for row in runtime_of(sim)):
        ctx.stat("probe:distorted")


def execute(sc, ctx):
    rngs = Rngs(sc["rng"])
    ses = Session(sc["spec"], rngs)
    kinds, pending_abort, done = [], False, 0
    for n, op in enumerate(sc["ops"]):
        k = op["op"]
        if k == "copy":
            ses.sim = copy.deepcopy(ses.sim)
            kinds.append(k)
            continue
        if k not in ("retune", "retune-abort"):
            if k == "measure" and done:
                # as good as a fresh simulation with these parameters
                Spec = json.loads(json.dumps(ses.spec))
                Spec["sensor"]["offset"] = float(ses.sim.sensor.offset_mu_sens)
                trngs = Rngs(sc["rng"])
                twin = Session(Spec, trngs)
                for key, g in trngs.all.items():
                    if key in rngs.all:
                        g.reseed(1000 * n + key)
                        rngs.all[key].reseed(1000 * n + key)
                a, b = ses.step(op), twin.step(op)
                d = first_difference(a, b)
                if d:
                    ctx.violate("later-measurement", f"after retunings operation {n} differs from a fresh simulation with the same parameters: {d}")
                kinds.append((k, a[0]))
            else:
                res = ses.step(op)
                kinds.append((k, res[0], op.get("mut", {}).get("m", "")))
            continue
        ctx.stat("op:retune")
        if "due" in op:
            op = dict(op, target=term(ses.sim, op)[0] + op["due"])
            ctx.stat("probe:tiny-offset")
        lim = [ses.sim.volt_limits_g1, ses.sim.volt_limits_g2]
        if any(l is not None and (min(op[q]) < min(l) or max(op[q]) > max(l)) for l, q in zip(lim, ("r1", "r2"))):
            ctx.stat("probe:beyond-limits")
        old = float(ses.sim.sensor.offset_mu_sens)
        snap, hid = others(ses.sim), hidden(ses.sim, rngs)
        dirs = (np.sign(op["r1"][1] - op["r1"][0]), np.sign(op["r2"][1] - op["r2"][0]), np.sign(ses.sim.sensor.alpha_dot).tolist())
        if k == "retune":
            call(ses.sim, op)
            after_retune(ctx, ses, op, snap, hid, old)
            if pending_abort:
                ctx.stat("probe:after-abort")
            pending_abort = False
            done += 1
            kinds.append((k,) + dirs)
        else:
            rest, size = term(ses.sim, op)
            place = None
            if op["how"] == "provider":
                real = ses.sim.ideal_csd_config
                exc = EXC[op["exc"]]("injected by the simulator")
                ses.sim.ideal_csd_config = failing(real)
                type(ses.sim.ideal_csd_config).fail = exc
                try:
                    call(ses.sim, op)
                    ctx.violate("abort-swallowed", "a failing ideal CSD did not reach the caller")
                except BaseException as e:
                    if e is not exc:
                        raise
                ses.sim.ideal_csd_config = real
                ctx.stat("probe:provider-failed")
                if ses.sim.sensor.offset_mu_sens != old:
                    ctx.violate("abort-changed-offset", f"the offset changed from {old!r} to {ses.sim.sensor.offset_mu_sens!r} although the ideal CSD failed")
                place = "provider"
            else:
                twin = copy.deepcopy(ses.sim)
                lines = count_lines(lambda: call(twin, op))
                new = float(twin.sensor.offset_mu_sens)
                kind, val, exc, place = abort_at(lambda: call(ses.sim, op), 1 + int(op["at"] * lines), op["exc"])
                if kind == "other":
                    ctx.violate("abort-replaced", f"injected {describe_exc(exc)} at {place} reached the caller as {describe_exc(val)}")
                if kind == "finished" and place is not None:
                    ctx.violate("abort-swallowed", f"an exception at {place} did not reach the caller")
                got = ses.sim.sensor.offset_mu_sens
                if got != old and abs(got - new) > 1e-12 * (1 + size + abs(old) + abs(op["target"])):
                    ctx.violate("abort-changed-offset", f"a retuning aborted at {place} left offset {got!r}, neither the old {old!r} nor the new {new!r}")
                ctx.stat("probe:aborted")
            d = snap_diff(snap, others(ses.sim))
            if d:
                ctx.violate("more-changed", f"an aborted retuning ({place}) changed: {d}")
            if hidden(ses.sim, rngs) != hid:
                ctx.violate("state-changed", "an aborted retuning changed flags, samples or generator states")
            pending_abort = True
            kinds.append((k,) + (place if isinstance(place, str) else (place or ())[:2],))
        ses.spec["sensor"]["offset"] = float(ses.sim.sensor.offset_mu_sens)
    ctx.nontrivial = bool(done)
    ctx.reach(digest(kinds), [str(x) for x in kinds])
