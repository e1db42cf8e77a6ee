"""C02 Simulations built from the same objects are independent."""
import json
from types import SimpleNamespace

import numpy as np

from dst import boot, world
from dst.core import describe_exc, digest, in_simcats, pubsnap, same, snap_diff
from dst.isolate import isolated
from dst.rng import stat
from dst.sched import Scheduler, gen_switches
from dst.session import Session, apply_sim, apply_spec, first_difference, gen_mut, gen_session, vary
from dst.world import Rngs, gen_default, gen_spec, rng_namer, sensor_kwargs
from simcats import Simulation, default_configs
from simcats.sensor import SensorGeneric, SensorPeakLorentzian, SensorScanSensorGeneric

RUNS = {"quick": 1500, "thorough": 20000}
LEVEL = "exploration"
RULE = ("A run builds two or three simulations (or bare sensors) from one set of configuration objects, part of the time from default_configs, interleaves their sessions "
        "(measurements, scans, in-place and assigned parameter changes, retunings, rejected and aborted calls) at operation granularity or, with a scheduler that owns two or three threads, "
        "at source lines, and compares every result with the same session run alone in a pristine process; then it checks the configuration objects and builds one more simulation from them. "
        "Non-trivial: at least two sessions produced compared results; distinct by mode, schedule and the operations of the sessions.")
DISTINCT = "mode, schedule, operation kinds and changed parameters of all sessions"
REAL = "Simulation, all distortions, samplers, both sensors, peaks, rises, barriers, deformations, geometric ideal CSD, reset_offset_mu_sens, default_configs"
STUBS = "random generators (SimRng, same streams as numpy, copied like numpy's); thread scheduler; ideal CSD replaced by a cheap step model in part of the runs"
PROBES = ["probe:threads", "probe:ops", "probe:sensors", "probe:default-config", "probe:inplace", "fault:thread-switch", "op:scan", "op:measure", "op:retune"]
ASSUMPTIONS = ["one simulation is used by one thread at a time", "each configuration set has its own generators (as copied with the objects)"]

SENSOR_MUTS = ("sattr", "sitem", "offset", "peak", "peaks", "barrier", "barriers", "rise", "risefield", "deform", "deform-del")


def generate(r, tier, i):
    mode = ("ops", "threads", "ops", "sensors", "threads")[i % 5]
    if mode == "sensors":
        spec = {"sensor": world.gen_scan_sensor(r, deform=0.6) if r.chance(0.75) else world.gen_generic(r)}
        if spec["sensor"]["t"] == "scan" and r.chance(0.4):
            for k in ("alpha_gate", "alpha_dot", "offset_mu_sens"):
                if r.chance(0.6):
                    spec["sensor"][k] = None
        events = []
        cur = [spec, spec]
        for _ in range(r.randrange(4, 10)):
            who = r.randrange(2)
            if r.chance(0.55):
                m = gen_mut(r, dict(cur[who], csd=None), rng_namer(r), allow=SENSOR_MUTS)
                if m["m"] not in SENSOR_MUTS:
                    continue
                cur[who] = apply_spec(cur[who], m)
                events.append([who, {"op": "set", "mut": m}])
            else:
                events.append([who, world.gen_scan(r) if spec["sensor"]["t"] == "scan" and r.chance(0.6) else world.gen_measure(r, spec["sensor"]["t"])])
        for who in (0, 1):
            events.append([who, world.gen_scan(r) if spec["sensor"]["t"] == "scan" and r.chance(0.6) else world.gen_measure(r, spec["sensor"]["t"])])
        return {"mode": mode, "spec": spec, "events": events, "rng": r.randrange(10 ** 9)}
    if r.chance(0.2):
        spec = gen_default(r)
    else:
        spec = gen_spec(r, csd=(("geom", 2), ("steps", 5)), sensor=(("generic", 2), ("scan", 3)), samplers=0.4, nmax=2, deform=0.4)
        for lst in ("occ", "pot", "resp"):
            for d in spec[lst] or []:
                if "ratio" in d and r.chance(0.5):
                    d["ratio"] = 1
        if r.chance(0.08):
            spec["sensor"] = None
    sessions = []
    pool = []       # the simulations are partly asked for the same things, with different parameters
    for k in range(r.wpick([(2, 4), (3, 1)])):
        ops, cur = gen_session(r, spec if spec["sensor"] else dict(spec, sensor={"t": "generic", "peaks": None, "alpha_dot": [-1, -1], "alpha_gate": [0, 0], "offset": 0}),
                               rng_namer(r, start=1000 + 500 * k), n=(2, 6), muts=0.35, rejects=0.06, aborts=0.08, direct=0.08, samplers=0.3, pool=pool)
        ops.append(vary(r, r.pick(pool)) if pool and r.chance(0.4) else world.gen_measure(r, cur["sensor"]["t"]) if not (cur["sensor"]["t"] == "scan" and r.chance(0.5)) else world.gen_scan(r))
        if spec["sensor"] and r.chance(0.3):
            m = gen_mut(r, spec, rng_namer(r, start=5000 + 500 * k), 0.3, allow=("csdattr", "sattr", "peak", "barrier", "deform"))
            ops.insert(0, {"op": "set", "mut": m})
        sessions.append(ops)
    sc = {"mode": mode, "spec": spec, "sessions": sessions, "rng": r.randrange(10 ** 9), "kind": r.wpick([("pcg", 3), ("mixed", 1)])}
    if mode == "threads":
        sc["switches"] = gen_switches(r)
    else:
        sc["order"] = [r.randrange(len(sessions)) for _ in range(sum(map(len, sessions)))]
    return sc


def new_session(sc, k, cfg):
    rngs = Rngs((sc["rng"], k), mode="copy", kind=sc["kind"])
    spec = sc["spec"] if sc["spec"]["sensor"] else dict(sc["spec"], sensor={"t": "generic", "peaks": None, "alpha_dot": [-1, -1], "alpha_gate": [0, 0], "offset": 0})
    return Session(spec, rngs, Simulation(**cfg))


def config(sc):
    return world.build_config(sc["spec"], Rngs(sc["rng"], mode="copy", kind=sc["kind"]))


def alone(sc, k):
    s = new_session(sc, k, config(sc))
    return [s.step(op) for op in sc["sessions"][k]]


def private_snap(obj):
    """All reachable state of configuration objects (public or not), for before/after comparison of the same objects."""
    seen = {}

    def walk(x, depth=0):
        if x is None or isinstance(x, (bool, int, float, str, bytes, np.generic)):
            return repr(x)
        if isinstance(x, np.random.Generator):
            return repr(x.bit_generator.state)
        if isinstance(x, np.ndarray):
            return digest(x)
        if id(x) in seen or depth > 14:
            return "<seen>"
        seen[id(x)] = True
        if isinstance(x, (list, tuple)):
            return [walk(y, depth + 1) for y in x]
        if isinstance(x, dict):
            return [(repr(k), walk(v, depth + 1)) for k, v in x.items()]
        d = getattr(x, "__dict__", None)
        if d is None or isinstance(x, type) or callable(x) and not hasattr(type(x), "__mro__"):
            return type(x).__name__
        return [type(x).__name__] + [(n, walk(v, depth + 1)) for n, v in sorted(d.items()) if "cache" not in n.lower()]
    return walk(obj)


def behaviour_snap(cfg):
    """What a user can see of configuration objects: parameters, flags, samples, generator states."""
    flags = []
    for k in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"):
        for d in cfg.get(k) or []:
            flags.append((getattr(d, "activated", "-"), getattr(d, "latest_sigma", "-"),
                          [p.last_sample() for p in (getattr(d, n, None) for n in ("scale", "lam", "std", "height", "sigma")) if hasattr(p, "last_sample")]))
    return [pubsnap(cfg, rng=True), repr(flags)]


def defaults_snap():
    bar = world.build_barrier({"h": 0.3, "rate": 80, "asym": 8e-5, "shape": 25, "o": -0.8})
    pk = [SensorPeakLorentzian(mu0=-0.1, gamma=0.001, height=0.1, offset=0)]
    from simcats.ideal_csd import IdealCSDGeometric
    objs = [SensorGeneric(), Simulation(), SensorScanSensorGeneric(barrier_functions=bar, sensor_peak_function=pk, alpha_sensor_gate=np.ones((3, 2))), IdealCSDGeometric(tct_params=[np.ones(8)])]
    return [pubsnap(o) for o in objs]


def execute(sc, ctx):
    if sc["mode"] == "sensors":
        return execute_sensors(sc, ctx)
    ctx.stat("probe:" + sc["mode"])
    if sc["spec"].get("default"):
        ctx.stat("probe:default-config")
    n = len(sc["sessions"])
    want = [isolated(lambda k=k: alone(sc, k)) for k in range(n)]

    def together():
        d0 = defaults_snap()
        cfg = config(sc)
        keys = {k: id(v) for k, v in cfg.items()}
        before = behaviour_snap(cfg)
        dbefore = private_snap(default_configs)
        ses = [new_session(sc, k, cfg) for k in range(n)]
        out = [[] for _ in range(n)]
        if sc["mode"] == "threads":
            def body(k):
                return lambda: [out[k].append(ses[k].step(op)) for op in sc["sessions"][k]]
            Scheduler(sc["switches"]).run([body(k) for k in range(n)])
        else:
            pos = [0] * n
            for k in sc["order"] + [k for k in range(n) for _ in sc["sessions"][k]]:
                k %= n
                if pos[k] < len(sc["sessions"][k]):
                    out[k].append(ses[k].step(sc["sessions"][k][pos[k]]))
                    pos[k] += 1
        if {k: id(v) for k, v in cfg.items()} != keys:
            ctx.violate("configuration-changed", "the dictionary of configuration objects has other members than before")
        after = behaviour_snap(cfg)
        if after != before:
            ctx.violate("configuration-changed", "an object passed to Simulation changed: " + snap_diff(before, after))
        if private_snap(default_configs) != dbefore:
            ctx.violate("default-config-changed", "default_configs changed: " + snap_diff(dbefore, private_snap(default_configs)))
        d1 = defaults_snap()
        if d1 != d0:
            ctx.violate("defaults-changed", "objects made from default arguments changed: " + snap_diff(d0, d1))
        again = new_session(sc, 0, cfg)
        return out, [again.step(op) for op in sc["sessions"][0]]
    got, again = isolated(together)
    for k in range(n):
        for j, (a, b) in enumerate(zip(want[k], got[k])):
            d = first_difference(b, a)
            if d:
                ctx.violate("not-independent", f"session {k}, operation {j} ({sc['sessions'][k][j]['op']}), interleaved ({sc['mode']}) with {n - 1} other(s) on the same objects differs from the session alone: {d}")
        if len(got[k]) != len(want[k]):
            ctx.violate("not-independent", f"session {k} stopped early")
    for j, (a, b) in enumerate(zip(want[0], again)):
        d = first_difference(b, a)
        if d:
            ctx.violate("objects-used-up", f"a simulation built from the configuration objects after they had been used differs in operation {j} ({sc['sessions'][0][j]['op']}): {d}")
    kinds = []
    for ops in sc["sessions"]:
        row = []
        for o in ops:
            if o["op"] == "set":
                row.append("set-" + o["mut"]["m"])
                if o["mut"].get("inplace") or o["mut"]["m"] in ("sitem", "peak", "barrier", "risefield", "append", "pop", "swap", "deform"):
                    ctx.stat("probe:inplace")
            else:
                row.append(o["op"])
        kinds.append(row)
    ctx.reach(sc["mode"], digest(sc.get("switches") or sc.get("order")), kinds, sc["spec"].get("default", ""))
    ctx.nontrivial = all(any(r[0] == "ok" for r in w) for w in want)


# ------------------------------------------------------------------ bare sensors built from the same objects
def evaluate(sensor, op):
    """Potential, response and labels of a bare sensor for a request."""
    scan = op["op"] == "scan"
    shape = (op["res"],) if isinstance(op["res"], int) else (op["res"][1], op["res"][0])
    a, b = np.indices(shape + (1,))[0], np.arange(int(np.prod(shape))).reshape(shape)
    occ = np.stack([b % 3, (b // 3) % 4], -1).astype(float)
    del a
    r1, r2 = np.array(op["r1"], float), np.array(op["r2"], float)
    try:
        if scan:
            v = op.get("v") or [None, None]
            pot = sensor.sensor_potential(occ, v[0], v[1], r1, r2)
        elif hasattr(sensor, "get_sensor_scan_labels"):
            v = op.get("v") or [-0.5, -0.5]
            pot = sensor.sensor_potential(occ, r1, r2, v[0], v[1])
        else:
            pot = sensor.sensor_potential(occ, r1, r2)
        out = [np.array(pot), sensor.sensor_response(np.array(pot))]
        if scan:
            out += list(sensor.get_sensor_scan_labels(v[0], v[1], r1, r2, np.array(pot)))
        return ["ok", out]
    except Exception as e:
        if not in_simcats(e.__traceback__):
            raise
        return ["raised", describe_exc(e)]


def execute_sensors(sc, ctx):
    ctx.stat("probe:sensors")
    spec = sc["spec"]

    def run(only=None):
        cls, kw = sensor_kwargs(spec["sensor"])
        before = pubsnap(kw)
        d0 = defaults_snap()
        ses = [SimpleNamespace(sensor=cls(**kw)) for _ in range(2)]
        specs = [spec, spec]
        out = []
        for who, op in sc["events"]:
            if only is not None and who != only:
                continue
            if op["op"] == "set":
                stat("op:set")
                if op["mut"].get("inplace") or op["mut"]["m"] in ("sitem", "peak", "barrier", "risefield"):
                    stat("probe:inplace")
                try:
                    apply_sim(ses[who], specs[who], op["mut"], Rngs(1))
                except Exception as e:
                    if not in_simcats(e.__traceback__):
                        raise
                    out.append(["raised", describe_exc(e)])
                specs[who] = apply_spec(specs[who], op["mut"])
            else:
                stat("op:" + op["op"])
                out.append(evaluate(ses[who].sensor, op))
        if pubsnap(kw) != before:
            ctx.violate("configuration-changed", "an object passed to a sensor changed: " + snap_diff(before, pubsnap(kw)))
        if defaults_snap() != d0:
            ctx.violate("defaults-changed", "objects made from default arguments changed: " + snap_diff(d0, defaults_snap()))
        third = SimpleNamespace(sensor=cls(**kw))
        return out, [evaluate(third.sensor, op) for _, op in sc["events"] if op["op"] != "set"]
    both, third = isolated(run)
    fresh = isolated(lambda: [evaluate((lambda c, k: c(**k))(*sensor_kwargs(spec["sensor"])), op) for _, op in sc["events"] if op["op"] != "set"])
    for who in (0, 1):
        single, _ = isolated(lambda: run(who))
        mine = []
        j = 0
        for w, op in sc["events"]:
            if op["op"] == "set":
                continue
            if w == who:
                mine.append(both[j])
            j += 1
        for x, y in zip(mine, single):
            if not same(x, y):
                ctx.violate("sensors-not-independent", f"sensor {who} behaves differently when another sensor made from the same objects is used and changed in between")
    for x, y in zip(third, fresh):
        if not same(x, y):
            ctx.violate("objects-used-up", "a sensor made from objects that already served other sensors differs from a fresh one")
    ctx.reach("sensors", spec["sensor"]["t"], [(w, o["op"], o.get("mut", {}).get("m", "")) for w, o in sc["events"]])
    ctx.nontrivial = len({w for w, _ in sc["events"]}) == 2
